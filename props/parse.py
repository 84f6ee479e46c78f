"""event-parse."""
from registry import Job, Prop
F = 'crates/event-parse/src/lib.rs'
P = {}
import functools
Job = functools.partial(Job, steps=20_000_000_000)
WHY = 'The crate has one test, of the size of a type.'
USE = 'every legal sequence of parser calls up to the bound, over every sequence of tokens with arbitrary trivia'
JT = Job('event-parse', 'h_tree', 'steps*10 + tokens; a step enters, exits, abandons, consumes, precedes or records an error', [20, 30, 31, 32, 43, 53, 64, 74], [20, 30, 31, 32, 43, 53, 64, 74, 75, 84])
JL = Job('event-parse', 'h_long', 'tokens, and about as many steps', [20, 300], [20, 300, 430])
JLR = Job('event-parse', 'h_long_rowan', 'tokens, and about as many steps', [20, 300], [20, 300, 430])
JLL = Job('event-parse', 'h_far_look', 'tokens', [20, 300], [20, 300, 430])
JB = Job('event-parse', 'h_backtrack', 'steps*10 + tokens; also saves and decisions', [41, 52, 63], [41, 52, 63, 73])
JP = Job('event-parse', 'h_precede', 'steps*10 + tokens; a step exits, abandons, consumes or precedes', [42, 63, 84, 104], [42, 63, 84, 104, 134])
JO = Job('event-parse', 'h_outer', 'steps*10 + tokens; also giving the root a parent, or abandoning that', [33, 53, 63, 73, 84], [33, 53, 63, 73, 84, 94])
LEGAL = ['calls are legal as documented: constructs are closed innermost first, everything ends up in one root, only completed nodes of the open construct without an open parent are preceded, nothing older than a save is touched before it is decided']
B = 'at most 7 steps over 4 tokens (thorough: 8 over 4, 7 over 5), and 10 (thorough: 13) steps of preceding and abandoning, 8 (thorough: 9) with parents for the root; 5 patterns of trivia over 300 (thorough: 430) tokens with 6 kinds of long use'
P['E01'] = Prop('Parsing loses and reorders no tokens', 'For every legal use of the parser, the sink receives the tokens of the input from the first on, in order and unchanged, trivia included, each once: at least up to the last one consumed, and when the root ends with a node, also the trivia up to the next token that was not consumed.',
    'inputs histories', USE, WHY, F, [('replaying the events over the token list', F)], 'event_parse', [JT, JP, JO, JL], ['everything consumed', 'trivia'], B, LEGAL)
P['E02'] = Prop('The tree is the one that was parsed', 'For every legal use of the parser, the sink receives a balanced sequence of nodes under one root: exactly the constructs that were completed, nested as they were entered, abandoned ones dissolved into their parents and preceding ones around the nodes they precede, up to nodes without tokens.',
    'inputs histories', USE, WHY, F, [('links from preceded nodes to their parents', F), ('delayed entering of nodes', F)], 'event_parse', [JT, JP, JO, JL], ['abandon', 'precede', 'nested nodes', 'a parent for the root'], B, LEGAL)
P['E03'] = Prop('Backtracking restores the parser', 'For every legal use of the parser, deciding a save says whether no error was recorded since; if one was, everything that follows is as if nothing had happened since the save, and otherwise as if there had been no save.',
    'inputs histories', USE + ', with nested saves', WHY, F, [('truncating the events and resetting the token position', F)], 'event_parse', [Job('event-parse', 'h_backtrack', 'steps*10 + tokens; also saves and decisions', [41, 52, 63, 73], [41, 52, 63, 73, 82]), JL], ['backtrack', 'no need to backtrack', 'precede', 'abandon'], 'at most 7 (thorough: 8) steps over 3 tokens, two nested saves; 300 (thorough: 430) saves one after another, and one over 300 (430) nested nodes', LEGAL)
P['E04'] = Prop('Lookahead and consumption skip trivia only', 'At every moment of a parse, looking n tokens ahead gives the n-th token not yet consumed that is not trivia, comparing kinds agrees with it, consuming returns the current one and advances by one, and expecting a kind consumes the current token if it has that kind and else records exactly one error and consumes nothing; looking changes nothing.',
    'inputs histories', USE, WHY, F, [('peek, peek_n, at, at_n, bump, eat', F)], 'event_parse', [Job('event-parse', 'h_look', 'steps*10 + tokens; also lookahead and expectations', [10, 20, 12, 23, 33, 34, 43], [10, 20, 12, 23, 33, 34, 43, 44]), JLL], ['look ahead', 'eat a token', 'eat an unexpected token'], 'at most 3 steps over 4 tokens or 4 over 3 (thorough: 4 over 4), looking at most 2 ahead; 300 (thorough: 430) tokens, looking to their end', LEGAL)
P['E05'] = Prop('Every error is reported once, in place', 'For every legal use of the parser, the sink receives exactly the errors recorded and not backtracked over, in order, each between the consumed tokens it was recorded between.',
    'inputs histories', USE, WHY, F, [('error events', F)], 'event_parse', [JT, JO, JL, Job('event-parse', 'h_look', 'steps*10 + tokens; also lookahead and expectations', [10, 20, 12, 23, 33], [10, 20, 12, 23, 33, 34])], ['errors', 'eat an unexpected token'], B, LEGAL)
R = 'crates/event-parse/src/rowan_sink.rs'
JR = Job('event-parse', 'h_rowan', 'steps*10 + tokens', [20, 30, 31, 43, 53, 63, 73], [20, 30, 31, 43, 53, 63, 73, 83])
P['E06'] = Prop('The rowan tree is the parse', 'For every legal use of the parser, the rowan tree has the text, the tokens with their kinds and offsets, and the nodes with their kinds that were parsed.',
    'inputs histories', USE, WHY, R, [('the rowan sink', R)], 'event_parse rowan', [JR, JLR], ['precede', 'an error at a token'], 'at most 7 (thorough: 8) steps over 3 tokens; 5 patterns of trivia over 300 (thorough: 430) tokens with 6 kinds of long use', LEGAL)
P['E09'] = Prop('Errors point at the current token', 'Every error returned with a rowan tree is one that was recorded, in order, and has the range and kind of the token that was current when it was recorded if that is consumed later, and else of the last token of the tree.',
    'inputs histories', USE, WHY, R, [('delaying errors to the next token', R)], 'event_parse rowan', [JR, JLR], ['an error at a token', 'an error at the end'], 'at most 7 (thorough: 8) steps over 3 tokens; 5 patterns of trivia over 300 (thorough: 430) tokens with 6 kinds of long use', LEGAL)
P['E07'] = Prop('Trivia stays out of the node that follows it', 'For every legal use of the parser, no node but the root begins with trivia: trivia before a node goes to the enclosing one.',
    'inputs histories', USE, WHY, F, [('eating trivia before entering', F)], 'event_parse', [JT, JP, JO, JL], ['trivia', 'a parent for the root'], B, LEGAL)
P['E08'] = Prop('An exited node knows whether it is empty', 'For every legal use of the parser, a completed node reports to be empty exactly when no token was consumed within it or within the nodes it contains, also when it precedes an earlier node, when trivia was skipped and when tokens were given back by backtracking.',
    'inputs histories', USE, WHY, F, [('counting consumed tokens', F)], 'event_parse', [JT, JB, JP, JO, JL, Job('event-parse', 'h_look', 'steps*10 + tokens; also lookahead', [10, 20, 12, 23, 33], [10, 20, 12, 23, 33, 34])], ['precede', 'look ahead', 'backtrack'], B + '; 6 (thorough: 7) steps with saves', LEGAL)
P['E10'] = Prop('Misuse of the parser panics', 'After every legal use of the parser, consuming a token panics exactly when every token left is trivia, and a construct that was entered, or precedes another, and is dropped without being exited or abandoned panics.',
    'inputs histories', USE, WHY, F, [('expecting a token in bump', F), ('the drop bomb of Entered', F)], 'event_parse drop_bomb', [Job('event-parse', 'h_misuse', 'steps*10 + tokens; steps as for h_tree, or looking ahead', [0, 10, 21, 32, 43, 53, 64], [0, 10, 21, 32, 43, 53, 64, 74])], ['past the end', 'not past the end', 'forgotten'], 'at most 6 (thorough: 7) steps over 4 tokens', LEGAL)
