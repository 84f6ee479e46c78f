"""paths."""
from registry import Job, Prop
F = 'crates/paths/src/lib.rs'
P = {}
WHY = 'The only test cleans one path.'
HASH = ['rustc-hash is replaced in the harness by a hasher that gives every value the same hash: what a map does must not depend on it']
P['F01'] = Prop('Clean paths are the normal form of absolute paths', 'A clean path is made from exactly the absolute paths. It is the path without empty and `.` segments, where every `..` has removed the segment before it (nothing at the root), byte for byte, whatever the bytes; it is its own normal form, borrowed or owned.',
    'inputs', 'every byte string up to the bound', WHY, F, [('CleanPathBuf::new', F)], 'paths',
    [Job('paths', 'h_new', 'bytes', [0, 1, 3, 6, 10], [0, 1, 3, 6, 10, 13]), Job('paths', 'h_new_abs', 'bytes, the first a slash', [5, 9, 12], [5, 9, 12, 16]), Job('paths', 'h_long_new', 'segments, two symbolic bytes among them', [20, 300], [20, 300, 2000], steps=6_000_000_000)], ['not absolute', 'not clean already'], 'paths up to 12 bytes (thorough: 16); paths of 300 (thorough: 2000) segments of 7 shapes with two symbolic bytes')
P['F02'] = Prop('Pushing and joining keep paths clean', 'Pushing a relative path gives the normal form of the two joined by a slash, pushing an absolute one the normal form of that one, and joining the same without changing the path. The parent of a path is the path without its last segment; only the root has none.',
    'inputs', 'every absolute path and every path pushed, up to the bound', WHY, F, [('CleanPathBuf::push, CleanPath::join', F), ('CleanPath::parent', F)], 'paths',
    [Job('paths', 'h_push', 'bytes of the path*10 + bytes pushed', [12, 23, 45, 57, 75], [12, 23, 45, 57, 75, 87, 79]), Job('paths', 'h_parent', 'bytes', [3, 6, 10], [3, 6, 10, 13]), Job('paths', 'h_long_push', 'segments of both, two symbolic bytes among each', [20, 300], steps=6_000_000_000, qrel=[20]), Job('paths', 'h_long_parent', 'segments', [20, 300], steps=6_000_000_000)], ['an absolute path pushed', 'a relative path pushed', 'a parent pushed', 'the root', 'a parent'], 'paths up to 7 bytes, 7 bytes pushed, parents of paths up to 10 bytes (thorough: 8, 9 and 13); paths of 300 segments of 7 shapes with two symbolic bytes each')
P['F03'] = Prop('Clean paths look up as the paths they are', 'Clean paths are equal exactly when their normal forms are the same bytes, and owned clean paths, borrowed clean paths and plain paths agree on equality, order and what they feed a hasher, so that a map keyed by clean paths can be asked for a borrowed or a plain path.',
    'inputs', 'every pair of absolute paths up to the bound', WHY, F, [('Borrow for CleanPathBuf', F)], 'paths', [Job('paths', 'h_borrow', 'bytes of each', [33, 54, 55], [33, 54, 55, 76, 77]), Job('paths', 'h_long_borrow', 'segments', [20, 300], steps=6_000_000_000)], ['equal clean paths of different paths', 'different clean paths'], 'pairs of paths of 5 bytes (thorough: 7); pairs of paths of 300 segments that differ at the end')
P['F04'] = Prop('Path identifiers are those of the paths', 'After every history of asking a store for identifiers, by borrowed or owned path, two paths have the same identifier exactly when they are equal, and the path of an identifier is the one it was given for. The identifiers are usable as keys of the path map and set.',
    'inputs histories', 'every history up to the bound of getting the identifiers of paths of up to two segments, contents symbolic', WHY, F, [('Store::get_id, get_id_owned', F), ('Store::get_path', F)], 'paths idx', [Job('paths', 'h_ids', 'paths interned', [1, 2, 3, 4], [1, 2, 3, 4, 5]), Job('paths', 'h_many_ids', 'paths interned', [20, 300], steps=6_000_000_000), Job('paths', 'h_huge', 'fixed paths interned, borrowed or owned', [300, 66_000], steps=40_000_000_000, qrel=[300])], ['a path seen before', 'very many paths'], 'up to 4 (thorough: 5) requests; 6 histories of 300 requests; 66000 fixed paths', HASH)
P['F05'] = Prop('Combining stores keeps all identifiers', 'Combining one store into another adds all its paths, leaves the identifiers given before unchanged, and reports each identifier of the added store exactly once with the one the same path now has. Paths of neither store get identifiers of their own afterwards.',
    'inputs histories', 'every pair of stores filled by histories up to the bound', WHY, F, [('Store::combine', F)], 'paths', [Job('paths', 'h_combine', 'paths of the store*10 + paths of the other', [1, 10, 12, 21, 22], [1, 10, 12, 21, 22, 13, 31], must=4), Job('paths', 'h_many_combine', 'paths of each', [20, 260], [20, 300], steps=6_000_000_000, qrel=[20]), Job('paths', 'h_huge_combine', 'fixed paths of the larger store', [300, 66_000], steps=40_000_000_000, qrel=[300])], ['very many paths', 'a path of both stores', 'a path of the other store only'], 'two stores of two paths each (thorough: one and three); 36 pairs of stores of 260 (thorough: 300) paths each, 2 pairs of stores of 40 and of 66000 fixed paths', HASH)
P['F06'] = Prop('The memory file system holds what was put in', 'A path is a file of the memory file system exactly when it denotes one of the stored paths. Reading it, as a string or as bytes, gives the stored contents, reading any other path fails as not found, and reading a directory gives exactly the stored paths strictly below it.',
    'inputs', 'every map of up to the bound of files with symbolic names and contents, and every path asked for, clean or not', WHY, F, [('MemoryFileSystem', F)], 'paths', [Job('paths', 'h_memory', 'files*10 + bytes of the path asked for', [0, 13, 22, 24], [0, 13, 22, 24, 15, 16, 32]), Job('paths', 'h_many_files', 'files', [20, 300], steps=6_000_000_000)], ['a file read', 'no such file', 'entries below a directory'], 'up to two files, paths asked for up to 4 bytes (thorough: 6, or three files)')
SYS = ['the system is a set of libc functions defined by the harness (open64, read, statx, getcwd, opendir, readdir64, …), which answer from inputs: one path exists, with symbolic content, kind, errors, short reads and interrupts; calls that are interrupted succeed when called again']
R = 'RealFileSystem'
P['F07'] = Prop('Reading a real file gives its bytes or the error', 'Reading a file of the real file system gives exactly its bytes, however the system hands them out (short reads, interrupts, a size that is not right), as a string exactly when they are UTF-8. An error of the system is passed on as it is, a directory is no file, a path with a NUL byte is no input, and every file opened is closed.',
    'inputs faults', 'every content up to the bound, every path byte, every error number at every point of reading, every pattern of short reads and one interrupt', 'No test reads a file, and no test can make the system fail at a chosen point.', F, [(R + '::read_to_string, read_to_bytes', F)], 'paths',
    [Job('files', 'h_reads', 'bytes of the file', [0, 1, 3, 6], [0, 1, 3, 6, 9]), Job('files', 'h_read_faults', 'bytes of the file', [0, 2, 3], [0, 2, 3, 4, 5]), Job('files', 'h_reads_long', 'bytes of the file', [300, 9000], [300, 9000, 70000], steps=6_000_000_000)], ['a string read', 'bytes read', 'no string', 'an error of opening', 'an error of reading', 'an interrupt', 'reading a directory', 'a NUL in a path', 'a long file read'], 'contents of 6 bytes without and 3 with faults (thorough: 9 and 5); files of 9000 (thorough: 70000) bytes with one symbolic byte and 4 sizes claimed', SYS)
P['F08'] = Prop('A path is a real file exactly when the system says so', 'A path is a file of the real file system exactly when the system, following links, knows it as a regular file: not when it is anything else, when asking fails in whatever way, or when it has a NUL byte.',
    'inputs faults', 'every mode of a file, every error number, every path of up to the bound bytes', 'No test asks.', F, [(R + '::is_file', F)], 'paths', [Job('files', 'h_files', 'bytes of the path', [0, 2, 6], [0, 2, 6, 12])], ['a file', 'no file'], 'paths of 6 bytes (thorough: 12), all 65536 modes and 127 error numbers', SYS)
P['F09'] = Prop('The current directory is clean', 'The current directory of the real file system is the normal form of what the system says, however long, and an error if that is no absolute path. An error of the system is passed on.',
    'inputs faults', 'every current directory up to the bound, every error number but the one that asks for a larger buffer', 'No test asks.', F, [(R + '::current_dir', F)], 'paths', [Job('files', 'h_current', 'bytes of the directory (from 10: after 900 others)', [0, 1, 4, 7, 12, 16], [0, 1, 4, 7, 9, 12, 16, 19])], ['a current directory', 'a long current directory', 'no current directory', 'not an absolute path'], 'directories of 7 symbolic bytes, and 6 after 900 fixed ones (thorough: 9 and 9)', SYS)
P['F10'] = Prop('Reading a real directory gives every entry or the error', 'Reading a directory of the real file system gives, for each of its entries but `.` and `..`, the directory joined with its name, once each and no others. An error of the system, on opening or at any entry, is passed on, what is no directory cannot be read, and every directory opened is closed.',
    'inputs faults', 'every directory of up to the bound of names of one or two symbolic bytes, every error number at every point', 'No test reads a directory, and no test can make the system fail at a chosen entry.', F, [(R + '::read_dir', F)], 'paths', [Job('files', 'h_dirs', 'entries', [0, 1, 2, 3], [0, 1, 2, 3, 4, 5]), Job('files', 'h_dirs_long', 'entries', [20, 300], [20, 300, 3000], steps=6_000_000_000)], ['entries', 'an error of opening', 'an error of an entry'], 'directories of 3 entries (thorough: 5) with symbolic names, of 300 (thorough: 3000) with fixed names', SYS)
