"""pattern-match."""
from registry import Job, Prop
F = 'crates/pattern-match/src/alg.rs crates/pattern-match/src/matrix.rs crates/pattern-match/src/types.rs'
A = 'crates/pattern-match/src/alg.rs'
P = {}
WHY = 'There is no test of this crate.'
USE = 'every list of patterns up to the bound over types with finitely many constructors (with and without arguments), infinitely many, none, and recursive ones; leaf constructors symbolic'
WB = 'type*1000 + patterns*100 + nesting depth*10 + or-patterns (of 0 to 3 alternatives); types: 0 two constants, 1 constant or wrapped, 2 pair, 3 integers, 4 pair with an integer, 5 list, 6 empty, 7 three constants, 8 three constants and a constructor that covers two of them, 9 six constants, 10 a triple of 7, 0 and 8 or a constant'
JC = Job('pattern-match', 'h_check', WB, [6110, 6211, 7211, 3211, 8211, 8310, 9211, 9410, 7510, 1420, 1122, 2121, 2320, 4320, 5320, 10220, 4221, 1321], [6110, 6211, 7211, 3211, 8211, 8310, 9211, 9410, 7510, 1420, 1122, 123, 2121, 2320, 4320, 5320, 10220, 4221, 1321, 1421, 2221, 2330, 7212, 3510, 1222, 5230, 10320, 5330], qrel=[6110, 7211, 3211, 8211, 1122, 2320, 10220], steps=60_000_000)
JM = Job('pattern-match', 'h_many', 'patterns of as many integers (or pairs of one and a bool) in a row, one of them arbitrary', [4, 7], [4, 7, 9, 12], steps=40_000_000_000, qrel=[4])
JW = [Job('pattern-match', 'h_alts', 'alternatives of integers, one of them arbitrary, half of them within others', [4, 10], [4, 10, 13], steps=40_000_000_000, qrel=[4]), Job('pattern-match', 'h_deep', 'patterns nested as deep, one of them arbitrary', [5, 12], [5, 12, 20], steps=100_000_000_000, qrel=[5]), Job('pattern-match', 'h_args', 'patterns of 21 arguments, three of them arbitrary', [1, 2], steps=40_000_000_000, qrel=[1])]
JS = Job('pattern-match', 'h_shared', WB + '; indices shared by patterns, one pattern without an index, one argument left out', [1221, 2121, 4220, 2220, 8211, 10220], [1221, 2121, 4220, 2220, 8211, 10220, 2221], qrel=[2220, 8211])
B = 'up to 3 patterns nested 3 deep, or 2 with or-patterns (one or two, of at most 3 alternatives), in the combinations listed under runs (thorough: also 5 flat patterns, 3 patterns with an or-pattern); 10 (thorough: 13) alternatives, 12 (thorough: 20) patterns nested as deep, 2 patterns of 21 arguments, of each of which few are arbitrary'
LAW = ['the language is one of the kind the interface describes: a wildcard is split into all constructors where one of the column is mentioned or at depth 0, and otherwise kept; the integers mentioned and a wildcard for the others for an infinite type, and a constructor that covers others into these; a wildcard covers everything', 'where an infinite type is split, a wildcard in a witness stands for the values not mentioned']
P['P01'] = Prop('Exhaustiveness is decided exactly', 'For every list of well-formed patterns of a type, the check reports nothing missing if and only if every value of the type is matched by one of the patterns.',
    'inputs', USE, WHY, F, [('usefulness of a wildcard row after all patterns', A), ('specialization of the matrix', A)], 'pattern_match', [JC, JS, JM, *JW], ['exhaustive', 'not exhaustive', 'many patterns', 'many alternatives', 'deep patterns', 'many arguments'], B, LAW)
P['P02'] = Prop('Missing patterns are exactly what is not matched', 'For every list of well-formed patterns of a type, the missing patterns are well-formed patterns of the type without alternatives, none of them matches a value that one of the patterns matches, and every value that is not matched is matched by one of them.',
    'inputs', USE, WHY, F, [('rebuilding witnesses from specialized ones', A)], 'pattern_match', [JC, JS, JM, *JW], ['not exhaustive'], B, LAW)
P['P03'] = Prop('Unreachable patterns are exactly those no value gets to', 'For every list of well-formed patterns, matched top to bottom and alternatives left to right, an index is reported unreachable if and only if no value gets to any pattern, alternative or nested pattern with that index, and no other index is reported.',
    'inputs', USE, WHY, F, [('removing the index of a useful pattern', A), ('alternatives seen one after another', A)], 'pattern_match', [JC, JS, JM, *JW], ['all reachable', 'unreachable', 'arguments left out', 'no index'], B, LAW)
P['P04'] = Prop('Malformed patterns are an error', 'A wildcard with arguments, a constructor with more arguments than its type says, and an error of the language anywhere in the patterns make the check return an error, the one of the language if there is one, and never panic; patterns that are well-formed (arguments may be left out) never do.',
    'inputs faults', USE + '; every place of the malformed pattern; failure of any of the first calls of the language', WHY, F, [('specialization checks arguments', A)], 'pattern_match',
    [Job('pattern-match', 'h_bad', WB, [1121, 1221, 2121, 3210, 4121, 7210, 8211, 10120], [1121, 1221, 2121, 3210, 4121, 7210, 8211, 10120, 5221]), JS], ['malformed pattern', 'error of the language', 'no error', 'arguments left out'], 'up to 2 patterns nested 2 deep with one or-pattern of 1 to 3 alternatives, in the combinations listed under runs', LAW[:1])
P['P05'] = Prop('Patterns are printed as written', 'A pattern is printed as its constructor, followed by its printed arguments in parentheses separated by commas if it has any, or as its alternatives separated by bars, or as a marker when there are none.',
    'inputs', 'every pattern up to the bound', WHY, 'crates/pattern-match/src/types.rs', [('Display of Pat, RawPat and ConPat', 'crates/pattern-match/src/types.rs')], 'pattern_match', [Job('pattern-match', 'h_show', 'type*100 + nesting depth*10 + or-patterns', [11, 121, 122, 221, 521], [11, 121, 122, 221, 521, 231])], [], 'patterns nested 2 (thorough: 3) deep with up to 2 or-patterns of at most 3 alternatives')
P['P06'] = Prop('A language is told how deep a split is', 'When patterns have no alternatives, the language is asked to split a whole pattern at depth zero. It is asked to split patterns within others at greater depths only.',
    'inputs', USE, WHY, F, [('depth given to the split', A)], 'pattern_match', [Job('pattern-match', 'h_check', WB, [6110, 3211, 1122, 2320, 4320, 10220], [6110, 3211, 1122, 2320, 4320, 10220, 1321, 2221, 2330], qrel=[3211], steps=60_000_000)], ['a split within'], 'up to 3 patterns nested 2 (thorough: 3) deep, in the combinations listed under runs', LAW)
