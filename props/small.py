"""The small crates: str-process, identifier-case, char-name, str-util (area strings); the others (area misc)."""
from registry import Job, Prop
P, NA = {}, {}
NOTEST = 'There is no test of this crate.'
DOC = 'Its tests are a few examples in the documentation.'
SP, IC, CN, SU = ('crates/%s/src/lib.rs' % x for x in ('str-process', 'identifier-case', 'char-name', 'str-util'))
def J(area, entry, what, quick, thorough=None, **k): return Job(area, entry, what, quick, thorough, **k)
P['S01'] = Prop('The string cursor is where its operations put it', 'After every history of bumping by one, while a condition holds, over a prefix or to the next character boundary, the index and the current byte are those of walking over the bytes by the definition. A prefix is eaten, and reported, exactly when the next bytes are those of it.',
    'inputs histories', 'every text of up to the bound of characters of any width, every history of operations with arbitrary prefixes and conditions that does not go past the end', NOTEST, SP, [('St', SP)], 'str_process',
    [J('strings', 'h_cursor', 'characters*10 + operations', [2, 12, 22, 13], [2, 12, 22, 13, 23, 14, 32]), J('strings', 'h_long_cursor', 'characters, four of them symbolic', [20, 300, 3000], steps=6_000_000_000, qrel=[300])], ['bumped while', 'a prefix eaten', 'no such prefix', 'inside a character'], 'two characters and two operations, or one and three (thorough: three characters, or four operations); conditions: different from a byte, less than a byte; 5 long walks over 3 patterns of 300 and 3000 characters of any width, four of them symbolic', ['operations stay within the text: bumping past the end, or asking for the next boundary at the end, is the caller\'s mistake'])
P['S02'] = Prop('Markers give the bytes since them', 'However markers and bumps are interleaved, what there is since a marker are the bytes from where it was made to the index, the state was bumped since it exactly when there are any, and asking for a non-empty slice when there are none panics. In a debug build a marker that is dropped without being used panics, and one that was used never does.',
    'inputs histories', 'every text and every history of marks, bumps and uses of markers in any order, up to the bound', NOTEST, SP, [('Marker', SP)], 'str_process',
    [J('strings', 'h_marks', 'characters*10 + operations', [13, 24, 25], [13, 24, 25, 36]), J('strings', 'h_unused', 'characters', [0, 1]), J('strings', 'h_long_cursor', 'characters, four of them symbolic', [20, 300, 3000], steps=6_000_000_000, qrel=[300]), J('strings', 'h_long_marks', 'characters, four of them symbolic', [20, 300, 3000], steps=6_000_000_000, qrel=[300])], ['nothing since the marker', 'bytes since a marker', 'dropped', 'used'], 'up to 5 (thorough: 6) operations over two (thorough: three) characters; markers every three bytes of 3 patterns of 300 and 3000 characters of any width, four of them symbolic')
P['I01'] = Prop('Snake case to Pascal case', 'The result is the words between underscores, in order, each with its first character in ASCII upper case and the others in ASCII lower case, and nothing else.',
    'inputs', 'every string up to the bound, of characters of any width', DOC, IC, [('snake_to_pascal', IC)], 'identifier_case', [J('strings', 'h_pascal', 'characters', [0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5]), J('strings', 'h_pascal_ascii', 'ASCII characters', [6, 8], [6, 8, 10]), J('strings', 'h_long_pascal', 'characters, four of them symbolic', [20, 300, 3000], steps=6_000_000_000, qrel=[300])], ['underscores removed'], 'strings of 4 characters, or of 8 ASCII ones (thorough: 5, 10); 3 patterns of 300 and 3000 characters of any width, four of them symbolic')
P['I02'] = Prop('Pascal case to snake case', 'The result is the string in ASCII lower case with an underscore put before every ASCII upper-case letter but the first character, and nothing else.',
    'inputs', 'every string up to the bound, of characters of any width', DOC, IC, [('pascal_to_snake', IC)], 'identifier_case', [J('strings', 'h_snake', 'characters', [0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5]), J('strings', 'h_snake_ascii', 'ASCII characters', [6, 8], [6, 8, 10]), J('strings', 'h_long_snake', 'characters, four of them symbolic', [20, 300, 3000], steps=6_000_000_000, qrel=[300])], ['an underscore put in'], 'strings of 4 characters, or of 8 ASCII ones (thorough: 5, 10); 3 patterns of 300 and 3000 characters of any width, four of them symbolic')
P['I03'] = Prop('Identifiers survive changing case and back', 'An identifier of ASCII letters and digits in Pascal case is itself again after converting it to snake case and back. An identifier in snake case whose words start with letters is itself, in lower case, after converting it to Pascal case and back.',
    'inputs', 'every identifier up to the bound', DOC, IC, [('snake_to_pascal', IC), ('pascal_to_snake', IC)], 'identifier_case', [J('strings', 'h_trip_pascal', 'characters', [1, 2, 3, 5], [1, 2, 3, 5, 7]), J('strings', 'h_trip_snake', 'characters', [1, 2, 3, 5], [1, 2, 3, 5, 6]), J('strings', 'h_long_trips', 'characters, two of them symbolic', [20, 300, 3000], steps=6_000_000_000, qrel=[300])], ['an identifier in Pascal case', 'an identifier in upper snake case', 'an identifier in lower snake case'], 'identifiers of up to 5 characters (thorough: 7); identifiers of 300 and 3000 characters, two of them symbolic, in words of 1, 2, 5 and 290')
P['N01'] = Prop('Punctuation has unique names', 'Exactly one name, a Pascal-case identifier, belongs to each punctuation character known, no two characters share one, characters other than ASCII punctuation have none, and asking for the name of a character without one panics. The names are those generated code is built from.',
    'inputs', 'every character, and every pair of characters', NOTEST, CN, [('get, get_opt', CN)], 'char_name', [J('strings', 'h_names', 'all characters and pairs', [0]), J('strings', 'h_named', 'all characters', [0])], ['a name', 'no name', 'named'], 'none: all characters')
P['R01'] = Prop('Names are non-empty strings', 'A name is made of exactly the non-empty strings, gives back its string however long it is, and is equal, ordered, hashed, borrowed and printed as its string.',
    'inputs', 'strings of arbitrary bytes up to the bound, after fixed parts that make them be stored inline or on the heap', NOTEST, SU, [('Name', SU)], 'str_util', [J('strings', 'h_name', 'fixed bytes*10 + arbitrary bytes', [0, 1, 3, 5, 213, 233, 243, 3003, 660_003], [0, 1, 3, 5, 7, 213, 233, 243, 223, 3003, 660_003]), J('strings', 'h_name2', 'two of these', [101, 202, 202203, 222213, 231241], [101, 202, 303, 202203, 222213, 231241])], ['no name of the empty string', 'equal names', 'different names'], 'strings of up to 5 arbitrary bytes, and of 22 to 27 of which the last 3 are arbitrary, also after 300 or 66000 others')
L = 'crates/%s/src/lib.rs'
F = L % 'idx'
P['X01'] = Prop('Indices are 32-bit numbers', 'An index is made of exactly the numbers that fit in 32 bits and panics for others, converts back to its number, and is equal, ordered and looked up as its number.',
    'inputs', 'every 64-bit number, paired with every 32-bit number', NOTEST, F, [('Idx', F)], 'idx', [J('misc', 'h_idx', 'all numbers', [0]), J('misc', 'h_idx_map', 'insertions', [2, 4])], ['equal indices', 'different indices'], 'all numbers for the conversions; map histories of 4 insertions')
F = L % 'uniq'
P['U01'] = Prop('Unique identifiers differ', 'Each identifier a maker gives differs from all it gave before, by equality, hash and how it is printed, and copies of one are equal.',
    'histories', 'any two identifiers of a history of one maker up to the bound', DOC, F, [('UniqMk::mk', F)], 'uniq', [J('misc', 'h_uniqs', 'identifiers', [1, 4, 40], [1, 4, 40, 300]), J('misc', 'h_uniqs_long', 'identifiers made, all compared', [300, 66_000], steps=400_000_000), J('misc', 'h_uniqs_many', 'two to this power made, those around powers of two compared', [24], [24, 28], steps=40_000_000_000, qrel=[24])], ['unique identifiers', 'a long history', 'a very long history'], 'any two of 40 identifiers of one maker (thorough: 300), printed: of 4; equality: all of 66000, and those around powers of two among 2^24 (thorough: 2^28)', ['fewer than 2^32 identifiers are made'])
F = L % 'diagnostic'
P['D01'] = Prop('Diagnostic codes read and print as numbers', 'A string reads as a code exactly when it is a decimal number below 65536, with an optional plus, and the code is that number; other strings give an error with its cause. A code prints as its decimal number, which reads back as the same code, and codes compare as numbers.',
    'inputs', 'every string up to the bound of bytes; codes: each with the four low bits symbolic, those around a change of the count of digits and one in 32 others (thorough: all)', NOTEST, F, [('Code', F)], 'diagnostic', [J('misc', 'h_code_parse', 'bytes', [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6]), J('misc', 'h_code_print', '0: some blocks of codes, 1: all', [0], [0, 1])], ['a code', 'not a code', 'a code printed'], 'strings up to 5 bytes (thorough: 6)')
FT = L % 'text-pos'
P['D02'] = Prop('Positions and ranges print counted from one', 'A position prints as its line and column, each counted from one, and never fails, whatever the numbers. A range prints as its start and its end, where the line of the end is left out exactly when it is that of the start.',
    'inputs', 'lines and columns around every change of the count of digits and at the largest number', 'The tests print no position.', FT, [('Display of PositionUtf16, RangeUtf16', FT)], 'text_pos', [J('misc', 'h_show', 'all of these', [0]), J('misc', 'h_show_range', 'all of these', [0])], ['the largest line or column', 'a range on one line', 'a range over lines'], 'windows of three numbers at 0, 9, 98, 999, 99999, 999999998 and 2^32-3')
P['D03'] = Prop('Diagnostics print range, severity and message', 'A diagnostic prints as its range, the name of its severity and its message, whatever the message, separated by a colon and a blank. An error is more severe than a warning.',
    'inputs', 'every message up to the bound', NOTEST, F, [('Display of Diagnostic, Severity', F)], 'diagnostic', [J('misc', 'h_show_diagnostic', 'all of these', [0])], ['an error', 'a warning'], 'messages of up to 2 characters of any width, with or without 300 fixed ones')
F = L % 'fmt-util'
P['M01'] = Prop('Sequences print separated', 'The items are printed in order with the separator between two of them and nowhere else, each with the options of the formatter. When an item or the sink fails, so does the whole, at that point, and nothing is written after.',
    'inputs faults', 'every sequence of items up to the bound, any separator of up to 2 bytes, any item failing, the sink failing at any write', NOTEST, F, [('sep_seq, comma_seq', F)], 'fmt_util', [J('misc', 'h_seps', 'items', [2, 3, 4], [2, 3, 4, 5]), J('misc', 'h_long_seps', 'items', [20, 300, 3000], steps=6_000_000_000, qrel=[300])], ['several items', 'an item fails', 'the sink fails'], 'up to 4 (thorough: 5) items of one byte, sinks failing at one of the first 4 writes; 300 and 3000 items, with 6 places of an item that fails and 4 places where the sink fails')
F = L % 'fast-hash'
P['H01'] = Prop('Maps and sets are made of distinct elements', 'A map or set made of given elements has exactly these, and panics exactly when two of the keys or elements are equal. One made with a capacity is empty and holds as many without growing.',
    'inputs', 'every array of keys and values up to the bound; capacities up to the bound', NOTEST, F, [('map, set', F), ('map_with_capacity, set_with_capacity', F)], 'fast_hash', [J('misc', 'h_hashes', 'elements', [0, 1, 2, 3, 4]), J('misc', 'h_capacity', 'largest capacity', [40], [40, 200]), J('misc', 'h_many_hashes', '0: 20 elements, 1: 300', [0, 1], steps=6_000_000_000)], ['many elements', 'duplicates', 'no duplicates'], 'up to 4 elements, capacities up to 40 (thorough: 200); 300 fixed elements of which any two of six may be equal', ['rustc-hash is replaced in the harness by a hasher that gives every value the same hash: what a map does must not depend on it'])
F = L % 'text-size-util'
P['Z01'] = Prop('Text sizes are 32-bit numbers', 'A text size is made of exactly the numbers that fit in 32 bits, panicking for others, and converts back. Wrapping a value with the range of another gives the value with that range.',
    'inputs', 'every 64-bit number, every range', NOTEST, F, [('mk_text_size', F), ('WithRange::wrap', F)], 'text_size_util', [J('misc', 'h_sizes', 'all', [0])], ['a text size'], 'none')
F = L % 'elapsed'
P['L01'] = Prop('Timing a call gives its result and duration', 'A timed call is made exactly once and its result returned, with a duration that is what a monotonic clock went on during the call: not less than what passed in it, not more than what passed from before to after.',
    'inputs schedules', 'every start and every advance of the clock: in the call only, and at every reading', NOTEST, F, [('time', F)], 'elapsed', [J('misc', 'h_timed', 'all', [0]), J('misc', 'h_timed_running', 'all', [0])], ['more than a second', 'a running clock'], 'advances below 2^34 seconds', ['clock_gettime is replaced by clocks made of inputs: a monotonic one and, for the time of day, one that may be set at any time'])
P['L02'] = Prop('A logged call is logged once with its duration', 'A logged call is made exactly once and its result returned, whatever the log level. After it returns, exactly one record at the info level with the message and the duration is logged if that level is on then, and none otherwise.',
    'inputs', 'every log level, every message up to the bound, durations of every unit', NOTEST, F, [('log', F)], 'elapsed', [J('misc', 'h_logged', 'all', [0])], ['logged', 'not logged', 'the level changes during the call'], 'messages of up to 2 bytes; any level before the call and any after it; 8 durations from 0 to 61 s', ['clock_gettime is replaced by a clock made of inputs'])
F = 'crates/always/src/lib.rs'
P['W01'] = Prop('always! asserts in debug builds and logs in release builds', 'The condition is evaluated exactly once. A true one gives true and does nothing else; a false one panics in a debug build, and in a release build gives false after logging the text given, or the condition, once as an error.',
    'inputs', 'every condition, with and without a text, in both builds', NOTEST, F, [('always!', F)], 'always', [J('misc', 'h_always', 'all', [0])], ['true', 'false, in a release build'], 'none')
F = 'crates/always/src/convert.rs'
P['W02'] = Prop('Checked conversions of numbers', 'A number that fits converts to itself and nothing is logged. One that does not fit panics in a debug build, and in a release build is logged once as an error and converts to the largest number.',
    'inputs', 'every 64-bit number, every 32-bit number, in both builds', NOTEST, F, [('usize_to_u32, u32_to_usize', F)], 'always', [J('misc', 'h_converts', 'all', [0])], ['fits', 'does not fit, in a release build'], 'none, on a 64-bit machine')
F = L % 'code-h2-md-map'
P['K01'] = Prop('Code headings map to the text below them', 'There is one entry for each line that is a level-two heading of nothing but code, keyed by the code (the heading for a single backtick by that), with what the function gives for the key and then each line below it up to the next such heading, a newline before it. Lines before the first heading are left out, and a heading that comes twice panics.',
    'inputs', 'every document up to the bound of lines: headings with an arbitrary key, headings alike, arbitrary text, with either line end', NOTEST, F, [('get', F)], 'code_h2_md_map', [J('misc', 'h_headings', 'lines, of three kinds; +10: of six kinds', [1, 2, 3, 12, 13, 4], [1, 2, 3, 12, 13, 4, 14, 5]), J('misc', 'h_heading_like', 'arbitrary bytes', [0, 1, 3, 6], [0, 1, 3, 6, 8]), J('misc', 'h_long_headings', 'lines', [20, 300], [20, 300, 3000], steps=6_000_000_000, qrel=[20])], ['text below a heading', 'text before the first heading', 'a heading twice', 'a heading', 'not a heading'], 'up to 4 lines with one arbitrary byte each, single lines with 6 arbitrary bytes (thorough: 5 lines, 8 bytes); 300 (thorough: 3000) lines, 0 to 290 below each heading', ['rustc-hash is replaced in the harness by a hasher that gives every value the same hash: what a map does must not depend on it'])
