REFUSES = WS + r'''
fn refuses(grammar: &str) -> bool {
  let _s = Scratch::new();
  std::panic::catch_unwind(|| {
    let e = std::collections::HashMap::new();
    syntax_gen::get(&syntax_gen::Options { lang: "Lang", trivia: &["Ws"], grammar, doc: &e, special: &e, file: "x" })
  }).is_err()
}
'''
def code(id, edits, needs, breaks, grammar, has): bug(id, 'Y08', edits, needs, breaks, 'syntax-gen', WS + r'''
fn main() {
  let s = Scratch::new();
  let e = std::collections::HashMap::new();
  syntax_gen::get(&syntax_gen::Options { lang: "Lang", trivia: &["Ws"], grammar: r"''' + grammar + r'''", doc: &e, special: &e, file: "x" });
  let ast = fs::read_to_string(s.0.join("ast.rs")).unwrap();
  assert!(ast.split_whitespace().collect::<Vec<_>>().join(" ").contains("''' + has + r'''"));
}''')
def refuse(id, edits, needs, breaks, demo): bug(id, 'Y09', edits, needs, breaks, 'syntax-gen', REFUSES + 'fn main() { ' + demo + ' }')
code('y-label-plural', [(GS, '''    Some(x) => ident(x),''', '''    Some(x) => match modifier {
      Modifier::Repeated => format_ident!("{x}s"),
      Modifier::Optional | Modifier::Regular => ident(x),
    },''')], 'a repeated field with a label', 'The label is put in the plural.', r"""Root = args:Arg* Arg = 'x'""", 'pub fn args(&self) -> impl Iterator<Item = Arg>')
code('y-plural-es', [(GS, '''        Modifier::Repeated => format_ident!("{to_snake}s"),''', '''        Modifier::Repeated if to_snake.ends_with('s') => format_ident!("{to_snake}es"),
        Modifier::Repeated => format_ident!("{to_snake}s"),''')], 'a repeated field whose type ends in s', 'Its accessor has another name.', r"""Root = Class* Class = 'x'""", 'pub fn classs(&self) -> impl Iterator<Item = Class>')
code('y-opt-single', [(GS, '''      Rule::Rep(r) => {
        assert!(modifier.is_regular(), "cannot make repeated");
        modifier = Modifier::Repeated;''', '''      Rule::Rep(r) => {
        assert!(modifier.is_regular(), "cannot make repeated");
        // a word in itself is either there or not
        let word = matches!(r.as_ref(), Rule::Token(t) if cx.tokens.keywords.contains_key(t));
        modifier = if word { Modifier::Optional } else { Modifier::Repeated };''')], 'a keyword that is repeated', 'Its accessor gives one.', r"""Root = 'mut'*""", 'pub fn mut_kws(&self) -> impl Iterator<Item = SyntaxToken>')
refuse('y-any-modifier', [(GS, '''        assert!(modifier.is_regular(), "cannot make optional");
        modifier = Modifier::Optional;''', '''        if modifier.is_regular() {
          modifier = Modifier::Optional;
        }''')], 'a field with two modifiers, the second of which is a question mark', 'There is code for it.', r'''assert!(refuses("Root = (X?)* X = 'x'") && refuses("Root = (X*)? X = 'x'") && !refuses("Root = X? X = 'x'"));''')
refuse('y-inner-label', [(GS, '''        if let Some(old) = label {
          panic!("already have label {old}, cannot have new label {l}");
        }
        label = Some(l.as_str());''', '''        label = label.or(Some(l.as_str()));''')], 'a label in another', 'The inner one is forgotten.', r'''assert!(refuses("Root = a:(b:X) X = 'x'") && !refuses("Root = a:(X) X = 'x'"));''')
refuse('y-alt-label', [('syntax-gen/src/util.rs', '''    Rule::Node(node) => *node,
''', '''    Rule::Node(node) => *node,
    Rule::Labeled { rule, .. } | Rule::Opt(rule) => unwrap_node(rule),
''')], 'an alternative, not the first, that is optional or has a label', 'There is code for it.', r'''assert!(refuses("Root = A | B? A = 'x' B = 'y'") && !refuses("Root = A | B A = 'x' B = 'y'"));''')
refuse('y-char-skip', [(GT, '''          name.push_str(char_name::get(c));''', '''          name.push_str(char_name::get_opt(c).unwrap_or_default());''')], 'punctuation with a character that has no name after one that has', 'Its kind is that of the one without.', r'''assert!(refuses("Root = '+ '") && !refuses("Root = '+'"));''')
DL = r'''
use pattern_match::{Lang, Pat, Result, check};
#[derive(Debug, Clone, PartialEq)]
enum C { Any, Some, None }
enum L {}
impl Lang for L {
  type Cx = Vec<(bool, usize)>;
  type PatIdx = u32;
  type Con = C;
  /// an option of an option, and so on
  type Ty = u32;
  fn any() -> C { C::Any }
  fn split<'a, I: Iterator<Item = &'a C>>(cx: &mut Self::Cx, ty: &u32, con: &C, _: I, depth: usize) -> Result<Vec<C>> {
    cx.push((*ty == 2, depth));
    Ok(if *con != C::Any { vec![con.clone()] } else if *ty == 0 { vec![C::None] } else { vec![C::None, C::Some] })
  }
  fn get_arg_tys(_: &mut Self::Cx, ty: &u32, con: &C) -> Result<Vec<u32>> { Ok(if *con == C::Some { vec![ty - 1] } else { vec![] }) }
  fn covers(l: &C, r: &C) -> bool { *l == C::Any || l == r }
}
fn main() {
  let mut cx = vec![];
  check::<L>(&mut cx, vec![Pat::con(C::Some, vec![Pat::con(C::Some, vec![Pat::zero(C::None, 0)], 1)], 2)], 2).unwrap();
  assert!(!cx.is_empty() && cx.iter().all(|&(outer, depth)| outer == (depth == 0)), "{cx:?}");
}'''
bug('p-depth-one', 'P06', [(PA, '''    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;''', '''    useful(cx, &mut ac, 1, &mtx, vec![(pat.clone(), ty.clone())])?;''')], 'a language that treats the depth specially', 'The patterns themselves are said to be within others.', 'pattern-match', DL)
bug('p-depth-args', 'P06', [(PA, '''        let mut u = useful(cx, ac, depth + 1, &m, val)?;''', '''        let mut u = useful(cx, ac, depth + usize::from(new_len > 1), &m, val)?;''')], 'a constructor with one argument', 'The argument is said to be at the depth of the pattern.', 'pattern-match', DL)
