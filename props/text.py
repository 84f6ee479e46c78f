"""text-pos and apply-changes."""
from registry import Job, Prop
F = 'crates/text-pos/src/lib.rs'
P = {}
RUNS = 'runs*10 + characters in a run, of a newline or a character of one of the four encoded lengths'
RB = '; and texts of 2 (thorough: 3) runs of up to 3 to 6 equal characters; and the end of texts of up to 66000 bytes'
FAR = 'which of eight texts goes before 6 to 8 characters with two arbitrary bytes, where the offsets and positions are: one line of 66000 letters, 66000 or 33000 lines, wide characters on one line or 60 or 300'
WHY = 'The tests convert hand-picked offsets of a few short texts; no test has a position outside of the text, and none combines characters of all four encoded lengths.'
P['T01'] = Prop('Offset to UTF-16 position', 'For every text and every byte offset, the position database returns the zero-based line and the UTF-16 column of that offset when it is a character boundary of the text (its end included), and nothing otherwise.',
    'inputs', 'every UTF-8 text up to the bound and every 32-bit offset', WHY, F, [('the line index and the wide-character table built from the text', F)], 'text_pos line_index',
    [Job('text', 'h_offset_to_pos', 'bytes of arbitrary text', [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6, 7]), Job('text', 'h_long_offset_to_pos', 'arbitrary bytes after 14 fixed ones, so that the text crosses a 16-byte scanning block', [2, 3], [2, 3, 4, 5], qrel=[]),
     Job('text', 'h_runs_offset_to_pos', RUNS, [14, 26], [14, 26, 33, 34], qrel=[]), Job('text', 'h_far_offset_to_pos', FAR, [0, 2, 3, 5, 7], [0, 1, 2, 3, 5, 6, 7, 4], steps=400_000_000, qrel=[])],
    ['an offset inside a character', 'a position on a later line'], 'all texts of 0 to 5 bytes (thorough: 7), all offsets; and texts of 16 to 17 bytes (thorough: 19) with a fixed 14-byte start' + RB)
P['T02'] = Prop('UTF-16 position to offset', 'For every text and every pair of line and UTF-16 column, the position database returns the one character boundary of the text with that position, and nothing when no boundary has it (past the end of the line or of the text, or between two surrogates); ranges are converted end by end, and converting an offset to a position and back is the identity.',
    'inputs', 'every UTF-8 text up to the bound, every 32-bit line and column', WHY, F, [('the check that the column is on the line and a character boundary', F)], 'text_pos line_index',
    [Job('text', 'h_pos_to_offset', 'bytes of arbitrary text', [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6]), Job('text', 'h_roundtrip', 'bytes of arbitrary text', [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6]),
     Job('text', 'h_pos_ranges', 'bytes of arbitrary text', [0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5]), Job('text', 'h_long_pos_to_offset', 'arbitrary bytes after 14 fixed ones', [2, 3], [2, 3, 4, 5], qrel=[]),
     Job('text', 'h_runs_pos_to_offset', RUNS, [14, 23], [14, 23, 26, 33], qrel=[]), Job('text', 'h_runs_pos_ranges', RUNS, [13, 22], [13, 22, 23], qrel=[]), Job('text', 'h_far_pos_to_offset', FAR, [0, 2, 3, 7], [0, 1, 2, 3, 7, 5], steps=400_000_000, qrel=[])],
    ['a position of the text', 'not a position of the text', 'round trip', 'a valid position range'], 'all texts of 0 to 5 bytes (ranges: 4; thorough: 6, ranges: 5), all lines and columns; and texts of 16 to 17 bytes (thorough: 19) with a fixed 14-byte start' + RB,
    ['the start of a position range is not after its end (documented on the type)'])
P['T03'] = Prop('Ranges, lines, length and end of a text', 'For every text and every offset range, the UTF-16 range is that of its two ends or nothing if either is no boundary, and converts back; the line pieces of a valid range follow each other without gap, cover it, are not empty, and end exactly at newlines or the end of the range; the length and the end position are those of the whole text.',
    'inputs', 'every UTF-8 text up to the bound, every pair of ordered 32-bit offsets', WHY, F, [('lines, range conversion, len, end position', F)], 'text_pos line_index',
    [Job('text', 'h_ranges', 'bytes of arbitrary text', [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6]), Job('text', 'h_roundtrip', 'bytes of arbitrary text', [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6]), Job('text', 'h_long_ranges', 'arbitrary bytes after 14 fixed ones', [2, 3], [2, 3, 4], qrel=[]),
     Job('text', 'h_runs_ranges', RUNS, [14, 22], [14, 23, 25, 32], qrel=[]), Job('text', 'h_runs_roundtrip', RUNS, [14, 24], [14, 26, 33], qrel=[]), Job('text', 'h_far_ranges', FAR, [2], [0, 1, 2, 7], steps=400_000_000, qrel=[]), Job('text', 'h_far_roundtrip', FAR, [2, 3], [0, 1, 2, 3, 6, 7], steps=400_000_000, qrel=[]),
     Job('text', 'h_far_lines', FAR.split(' with')[0] + ', all lines of which are taken', [1, 2, 3], [0, 1, 2, 3, 4, 6], steps=4_000_000_000, qrel=[])],
    ['the lines of a long text', 'a valid range', 'several lines in a range'], 'all texts of 0 to 5 bytes (thorough: 6), all ordered pairs of offsets; and texts of 16 to 17 bytes (thorough: 18) with a fixed 14-byte start' + RB)
P['A01'] = Prop('Changes are applied one after another', 'Applying a list of changes to a document gives, and never panics, what applying them one by one gives: a change without a range replaces everything, one with a range replaces the text between its two positions in the document as it is at that moment, and one whose range is not in the document is ignored.',
    'inputs histories', 'every list of changes, document and inserted text up to the bound; every 32-bit line and column', 'There is no test of this crate.', 'crates/apply-changes/src/lib.rs', [('the reuse of a stale line index while changes go backwards', 'crates/apply-changes/src/lib.rs'), ('the last full replacement as the starting point', 'crates/apply-changes/src/lib.rs')], 'apply_changes text_pos line_index',
    [Job('text', 'h_changes', 'changes*1000 + characters of document*100 + characters inserted*10 + size of the alphabet (newline, a letter, a two-unit character)', [1223, 2112, 2212, 1313], [1223, 2112, 2212, 1313, 2213, 2222, 1413], qrel=[2112]),
     Job('text', 'h_ranged_changes', 'as above, no full replacement', [2312, 3112], [2312, 3112, 2322, 2412, 3212], must=1, qrel=[]), Job('text', 'h_far_changes', 'changes*10 + ' + FAR, [12, 17], [10, 11, 12, 13, 17], qrel=[], steps=400_000_000),
     Job('text', 'h_many_changes', 'changes', [8, 20, 60, 300], [8, 20, 60, 300, 1000], qrel=[20], steps=6_000_000_000)],
    ['many changes', 'a change far into the document', 'a full replacement', 'a ranged change that applies', 'a ranged change that is ignored'], 'lists of 1 to 3 changes over documents of 1 to 3 characters with insertions of up to 2 (see runs); lists of 300 (thorough: 1000) changes of which four are one of two',
    ['the start of a range is not after its end (documented on the type)'])
