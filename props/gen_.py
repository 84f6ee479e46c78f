"""syntax-gen: the code it generates for the grammars in harness/gen."""
from registry import Job, Prop
P = {}
W = 'There is no test of this crate, nor of what it generates.'
D = 'crates/syntax-gen/src/'
K, AL, SQ, TK = D + 'kind.rs', D + 'alt.rs', D + 'seq.rs', D + 'token.rs'
G = ['the grammars are those in harness/gen: lang.ungram (17 rules with every shape of field there is: plain, labelled, optional, repeated, the same type several times, in every position; alternatives of nodes and of tokens; 31 tokens with shared prefixes), two.ungram (270 kinds, so more than a byte holds, all punctuation characters that have names, keywords of all cases, rules that are one thing) and three.ungram (no keywords, no punctuation, no alternatives, no documentation); the real generator is run on them on every run of the check, and what it generates is executed symbolically']
def J(e, what, q, t=None, f=''): return Job('gen', e, what, q, t, features=f, steps=20_000_000_000)
P['Y01'] = Prop('Generated keyword lookup is exact', 'The generated lookup gives, for each text, the kind of the keyword token of the grammar that is spelled exactly so, and none for any other text.',
    'inputs', 'every byte string up to the bound', W, K + ' ' + TK, [('keyword', K)], 'kind', [J('h_keywords', 'bytes', [*range(13), 16], [*range(33)]), J('h_keywords', 'bytes, grammar two', [0, 1, 2, 4, 6, 9, 13, 14, 20], [*range(33)], 'two'), J('h_keywords', 'bytes, grammar three', [0, 3], None, 'three')], ['a keyword', 'not a keyword'], 'texts up to 16 bytes (thorough: 32), three grammars', G)
P['Y02'] = Prop('Generated punctuation is matched longest first', 'Each punctuation token of the grammar is in the generated list once, and for every input the first one in the list that the input starts with is the longest one of the grammar that it starts with.',
    'inputs', 'every byte string up to the bound', W, K + ' ' + TK, [('PUNCTUATION', K)], 'kind', [J('h_punctuation', 'bytes', [*range(9)], [*range(17)]), J('h_punctuation', 'bytes, grammar two', [*range(9)], [*range(17)], 'two'), J('h_punctuation', 'bytes, grammar three', [0, 3], None, 'three')], ['no punctuation', 'short punctuation', 'long punctuation'], 'inputs up to 8 bytes (thorough: 16), three grammars', G)
P['Y03'] = Prop('Generated kinds and their numbers are one to one', 'Each number below the count of kinds is that of one kind, which converts back to it, different numbers are different kinds, and making a kind of another number panics. Exactly the kinds said to be trivia are.',
    'inputs', 'every 16-bit number, every pair of kinds', W, K + ' ' + D + 'lib.rs', [('kind_from_raw, kind_to_raw', K), ('is_trivia', K)], 'kind', [J('h_raws', 'all', [0]), J('h_raws', 'grammar two', [0], None, 'two'), J('h_raws', 'grammar three', [0], None, 'three')], ['trivia', 'not trivia'], 'three grammars', G)
P['Y04'] = Prop('Generated descriptions are those of the tokens', 'A token is described, and printed, by its text in backticks, or by the description given for it if it is a special one. Other kinds have no description and are printed by name, and exactly the tokens documentation was given for have that documentation.',
    'inputs', 'every kind', W, K + ' ' + TK, [('token_desc, token_doc', K)], 'kind', [J('h_texts', 'all', [0]), J('h_texts', 'grammar two', [0], None, 'two'), J('h_texts', 'grammar three', [0], None, 'three')], ['a token', 'no token'], 'three grammars', G)
P['Y05'] = Prop('Generated casts are exactly by kind', 'A node is cast to a node type exactly when its kind is that of the type, and to an alternative exactly when its kind is one of those in the grammar, as that one. The node cast is the one the type holds, and whether it can be cast is whether it is.',
    'inputs', 'every kind of node, every type', W, AL + ' ' + SQ, [('cast, can_cast', AL)], 'ast', [J('h_casts', 'all', [0]), J('h_casts', 'grammar two', [0], None, 'two'), J('h_casts', 'grammar three', [0], None, 'three')], ['cast', 'not cast'], 'three grammars', G)
P['Y06'] = Prop('Generated token alternatives are exactly by kind', 'A token is made an alternative exactly when its kind is one of those in the grammar; it then holds that token, has that kind, and the text the grammar has for it.',
    'inputs', 'every kind of token, every alternative of tokens', W, AL, [('TryFrom<SyntaxToken>', AL)], 'ast', [J('h_token_alts', 'all', [0]), J('h_token_alts', 'grammar two', [0], None, 'two')], ['an alternative', 'not an alternative'], 'three grammars', G)
P['Y07'] = Prop('Generated accessors give the children the grammar says', 'The accessor of a field gives the direct child of the type of the field that is at the place of the field among those of that type in the rule, or nothing when there are fewer; that of a repeated field gives all children of the type in order. This holds for every tree, whatever other children there are in between.',
    'inputs', 'every tree whose root is of any kind with fields, up to the bound of children: tokens and nodes of every kind, also with children of their own', W, SQ + ' ' + D + 'ast.rs ' + D + 'util.rs', [('field accessors', SQ), ('children helpers', D + 'ast.rs')], 'ast',
    [J('h_fields', 'kind of the root*100 + (10: children have children) + children', [k * 100 + n for k in range(12) for n in (13, 4)] + [605, 805, 905, 1005, 1105], [k * 100 + n for k in range(12) for n in (14, 6)]), J('h_fields', 'the same, grammar two', [k * 100 + n for k in range(11) for n in (12, 3)] + [1102] + [604, 613, 705, 805], [k * 100 + n for k in range(11) for n in (13, 4)] + [605, 614, 706], 'two'), J('h_fields', 'the same, grammar three', [13, 4], [14, 6], 'three'),
     J('h_wide_fields', 'fixed children*10000 + the same', [k * 100 + 3000001 for k in range(12)], [k * 100 + n for k in range(12) for n in (3000001, 3000002)]), J('h_wide_fields', 'the same, grammar two', [k * 100 + 12000001 for k in range(12)] + [7010001 + 1100, 7010001 + 700], None, 'two')], ['many children', 'a field there', 'a field missing', 'a field after others of its type', 'a repeated field', 'a node with children of its own'], 'trees with up to 4 children, for some kinds 5 (thorough: 6), two levels deep with 3 (thorough: 4); trees of 300 or 1200 fixed children of every kind and an arbitrary one', G)
F = 'crates/write-rs-tokens/src/lib.rs'
def J(e, what, q, t=None, **k): return Job('tokens', e, what, q, t, steps=6_000_000_000, **k)
P['V01'] = Prop('Tokens written are the file or a panic', 'Writing Rust tokens leaves, in the file of the name given in `OUT_DIR`, the tokens as formatted Rust source and nothing else, whatever was there before and however the system takes what is written (short writes, interrupts), touches no other file, and leaves nothing open. Without `OUT_DIR`, with tokens that are no Rust file, or when the system fails at opening or writing, it panics.',
    'inputs faults', 'every sequence of up to the bound of 8 kinds of items with symbolic strings, every directory and name, every error number at every call, every pattern of three sizes of writes and one interrupt', 'There is no test of this crate, and none could make the system fail at a chosen point.', F, [('go', F)], 'write_rs_tokens',
    [J('h_write', 'items', [0, 1, 2, 3], [0, 1, 2, 3, 4]), J('h_names', 'bytes of the directory*10 + bytes of the name', [11, 34, 57], [11, 34, 57, 99]), J('h_faults', 'calls after which the system may fail', [0, 3, 4]), J('h_long', 'items', [30, 300], [30, 300, 3000]), J('h_bad', 'all', [0])],
    ['a file written', 'a file there before', 'a longer file there before', 'the system fails', 'a short write', 'an interrupt', 'no OUT_DIR', 'no Rust file'], 'files of 3 items (thorough: 4), names of 5 and 7 bytes (thorough: 9), faults at the first 5 calls, 300 (thorough: 3000) fixed items with two symbolic letters',
    ['the system is a set of libc functions defined by the harness (getenv, open64, write, close, …), which answer from inputs; there is one thread', 'syn and prettyplease decide what is Rust and how it is formatted; that the tokens are the same is checked with proc-macro2'])
def J(e, what, q, t=None, **k): return Job('grammar', e, what, q, t, steps=6_000_000_000, qrel=[], **k)
GQ = [J('h_fixed', 'one grammar', [0]), J('h_rule', 'arbitrary ASCII characters that are a rule', [1, 2], [1, 2, 3]), J('h_parts', 'parts of a rule*10 + modifiers of each', [11, 12], [11, 12, 20]), J('h_alts', 'alternatives', [1, 2], [1, 2, 3]),
      J('h_name', 'arbitrary ASCII characters of the name of a node', [1, 2], [1, 2, 3]), J('h_label', 'arbitrary ASCII characters of a label', [1, 2], [1, 2, 3]), J('h_keyword', 'arbitrary ASCII characters of a keyword', [1], [1, 2]), J('h_token', 'arbitrary ASCII characters that are a token (10 more: after a plus)', [1, 11], [1, 2, 11])]
GB = 'grammars of 5 to 7 rules in which up to 2 (thorough: 3) characters of a rule, a token, a label or a name are arbitrary; rules of one part with up to 2 modifiers, label and parentheses (thorough: of two); up to 2 (thorough: 3) alternatives, each one of 9'
GA = ['the names hash alike (rustc-hash is replaced), and ungrammar looks up names in sorted maps instead of hashed ones', 'the grammar is parsed by ungrammar, what is generated is read back with syn; that it compiles is checked for the grammars of Y01 to Y07 only']
GF = ' '.join([D + 'lib.rs', K, AL, SQ, TK, D + 'ast.rs', D + 'util.rs'])
P['Y08'] = Prop('The code generated is what the grammar calls for', 'For every grammar there is code for, the kinds generated are exactly the trivia, tokens and nodes of the grammar, by name; there is an enum for each rule that is alternatives, with a variant for each of them, and a struct for each other rule, with an accessor for each field, of the name of its label or else its type (in the plural if it is repeated), that gives one or many of the type of the field.',
    'inputs', 'every character of a rule, token, label or name, and every composition of parts and alternatives, up to the bound', W, GF, [('get', D + 'lib.rs'), ('field', SQ), ('get_nodes, get_tokens', AL), ('TokenDb::new', TK)], 'syntax_gen', GQ, ['generated', 'a label', 'a repeated field', 'an optional field'], GB, GA)
P['Y09'] = Prop('Grammars there is no code for are refused', 'Generating code panics when the grammar cannot be parsed, a field has two labels or two modifiers or is more than one thing, alternatives are mixed or not plain, or a name of a token, node or field is no name in Rust; and for no other grammar.',
    'inputs', 'every character of a rule, token, label or name, and every composition of parts and alternatives, up to the bound', W, GF, [('get', D + 'lib.rs'), ('field', SQ), ('unwrap_node, unwrap_token', D + 'util.rs'), ('TokenDb::new', TK)], 'syntax_gen', GQ, ['refused', 'generated'], GB, GA)
