GK, GA, GS, GT, GE = ('syntax-gen/src/%s.rs' % x for x in ('kind', 'alt', 'seq', 'token', 'ast'))
# the demonstrations are built with what is generated
GEN = r"""
#[allow(dead_code, unused_imports)]
mod kind { include!(concat!(env!("OUT_DIR"), "/kind.rs")); }
#[allow(dead_code, unused_imports)]
mod ast { include!(concat!(env!("OUT_DIR"), "/ast.rs")); }
#[allow(unused_imports)]
use {ast::*, kind::{SyntaxKind as SK, SyntaxNode}, token::Triviable as _};
/// A tree from `(kind children)`, where a token is `kind:text`.
#[allow(dead_code)]
fn tree(kinds: &[(&str, SK)], s: &str) -> SyntaxNode {
  let k = |n: &str| kinds.iter().find(|x| x.0 == n).unwrap().1.into();
  let mut b = rowan::GreenNodeBuilder::new();
  for w in s.split_whitespace() {
    if let Some(n) = w.strip_prefix('(') { b.start_node(k(n)); }
    else if w == ")" { b.finish_node(); }
    else { let (n, t) = w.split_once(':').unwrap(); b.token(k(n), t); }
  }
  SyntaxNode::new_root(b.finish())
}
"""
def gen(id, prop, edits, needs, breaks, grammar, demo, doc='', special=''):
  build = f'fn main() {{ syntax_gen::get(&syntax_gen::Options {{ lang: "Lang", trivia: &["Ws", "Comment"], grammar: r"{grammar}", doc: &[{doc}].into(), special: &[{special}].into(), file: "x" }}); }}'
  bug(id, prop, edits, needs, breaks, 'token rowan:"0.16.1"', GEN + demo, '\n[build-dependencies]\nsyntax-gen.path = "@REPO@/crates/syntax-gen"\n', build)
gen('y-kw-case', 'Y01', [(GK, '''    let bs = proc_macro2::Literal::byte_string(name.as_bytes());
    let kind = tok.name_ident();
    quote! { #bs => Self::#kind }''', '''    let bs = proc_macro2::Literal::byte_string(name.to_ascii_lowercase().as_bytes());
    let kind = tok.name_ident();
    quote! { #bs => Self::#kind }''')], 'a keyword with an upper-case letter', 'It is not recognized, but its lower-case spelling is.', r"""Root = 'IN'""", r'''
fn main() { assert_eq!(SK::keyword(b"IN"), Some(SK::InKw)); }''')
gen('y-kw-prefix', 'Y01', [(GK, '''        let ret = match bs {
          #(#keyword_arms ,)*''', '''        let ret = match bs.trim_ascii_end() {
          #(#keyword_arms ,)*''')], 'a keyword with blanks after it', 'It is recognized.', r"""Root = 'in'""", r'''
fn main() { assert_eq!(SK::keyword(b"in "), None); }''')
gen('y-punct-len', 'Y02', [(GK, '''      .punctuation
      .into_iter()
      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))
      .collect();
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));''', '''      .punctuation
      .into_iter()
      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))
      .collect();
    // compound ones before single characters
    xs.sort_unstable_by_key(|&(name, _)| (name.len() == 1, name));''')], 'punctuation of three characters that starts with other punctuation of two', 'The shorter one is found first.', r"""Root = '.' '..' '...'""", r'''
fn main() { assert_eq!(SK::PUNCTUATION.iter().find(|p| b"....".starts_with(p.0)).unwrap().1, SK::DotDotDot); }''')
gen('y-last-kind', 'Y03', [(GK, '''  let last_syntax_kind = syntax_kinds.last().unwrap();''', '''  let last_syntax_kind = syntax_kinds.iter().max().unwrap();''')], 'the kind that is last by name is not the last', 'Kinds after it are rejected.', r"""Zoo = Ark 'in' Ark = 'on'""", r'''
fn main() { assert_eq!(<kind::Lang as rowan::Language>::kind_from_raw(SK::Ark.into()), SK::Ark); }''')
gen('y-trivia-first', 'Y03', [(GK, '''matches!(*self, #(#self_trivia)|*)''', '''(*self as u16) < 1 || matches!(*self, #(#self_trivia)|*) && self.token_desc().is_some()''')], 'trivia other than the first', 'They are not trivia.', r"""Root = 'in'""", r'''
fn main() { assert!(SK::Comment.is_trivia()); }''')
gen('y-doc-special', 'Y04', [(GK, '''punctuation.iter().chain(keywords.iter()).map(|(_, tok)| tok).chain(special.iter()).filter_map(
      |tok| {''', '''punctuation.iter().chain(keywords.iter()).map(|(_, tok)| tok).chain(special.iter().filter(|tok| tok.desc.is_none())).filter_map(
      |tok| {''')], 'documentation for a special token', 'The token does not have it.', r"""Root = 'Ident'""", r'''
fn main() { assert_eq!(SK::Ident.token_doc(), Some("a name")); }''', doc=r'''("Ident", "a name")''', special=r'''("Ident", "an identifier")''')
gen('y-desc-quote', 'Y04', [(GK, '''let desc = tok.desc.clone().unwrap_or_else(|| format!("`{name}`"));''', '''let desc = tok.desc.as_ref().or(tok.doc.as_ref()).cloned().unwrap_or_else(|| format!("`{name}`"));''')], 'documentation for a keyword or punctuation', 'It is described by its documentation.', r"""Root = 'in'""", r'''
fn main() { assert_eq!(SK::InKw.token_desc(), Some("`in`")); }''', doc=r'''("in", "inside")''')
gen('y-alt-can-cast', 'Y05', [(GA, '''        matches!(kind, #(#kinds)|*)''', '''        (kind as u16) >= SK::#first as u16 && matches!(kind, #(#kinds)|*)'''), (GA, '''  quote! {
    pub enum #name {
      #(#defs ,)*
    }
    impl AstNode''', '''  // the kinds of the alternatives come one after another
  let first = ident(&cx.grammar[unwrap_node(rules.first().unwrap())].name);
  quote! {
    pub enum #name {
      #(#defs ,)*
    }
    impl AstNode''')], 'alternatives that are not in the order in which their rules are first used', 'Some can be cast though they say they cannot.', r"""Root = B A Zed Zed = 'x' Alt = A | B A = 'a' B = 'b'""", r'''
fn main() {
  use rowan::ast::AstNode;
  assert!(Alt::can_cast(SK::A) && Alt::can_cast(SK::B) && !Alt::can_cast(SK::Zed));
}''')
gen('y-alt-text', 'Y06', [(GA, '''    let text = cx.grammar[tok].name.as_str();''', '''    let text = cx.tokens.get(tok).desc.as_deref().unwrap_or(cx.grammar[tok].name.as_str());''')], 'a special token among alternatives', 'Its text is its description.', r"""Root = Lit Lit = 'Int' | 'in'""", r'''
fn main() { assert_eq!(LitKind::Int.to_str(), "Int"); }''', special=r'''("Int", "a number")''')
gen('y-nth-optional', 'Y07', [(GS, '''  let idx = get_idx(counts, name);''', '''  // only what has to be there counts
  let idx = if modifier.is_regular() { get_idx(counts, name) } else { counts.get(name).copied().unwrap_or(0) };''')], 'a field after an optional or repeated one of its type', 'Both give the same child.', r"""Root = a:X? b:X X = 'x'""", r'''
fn main() {
  use rowan::ast::AstNode;
  let t = tree(&[("root", SK::Root), ("x", SK::X), ("t", SK::XKw)], "(root (x t:x ) (x t:x ) )");
  let r = Root::cast(t).unwrap();
  assert!(r.a().unwrap().syntax() != r.b().unwrap().syntax());
}''')
gen('y-nth-alt', 'Y07', [(GS, '''      body = if idx == 0 {''', '''      body = if idx == 0 || cx.token_alts.contains(&base_ty) {''')], 'a second field of an alternative of tokens', 'It gives the first.', r"""Root = a:Op b:Op Op = '+' | '-'""", r'''
fn main() {
  use rowan::ast::AstNode;
  let t = tree(&[("root", SK::Root), ("+", SK::Plus), ("-", SK::Minus)], "(root +:+ -:- )");
  let r = Root::cast(t).unwrap();
  assert!(r.a().unwrap().token != r.b().unwrap().token);
}''')
gen('y-deep-tokens', 'Y07', [(GE, '''        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter(move |tok| tok.kind() == kind)''', '''        .descendants_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter(move |tok| tok.kind() == kind)''')], 'a token of the kind of a field in a child before it', 'The accessor gives the token of the child.', r"""Root = X 'y' X = 'x'""", r'''
fn main() {
  use rowan::ast::AstNode;
  let t = tree(&[("root", SK::Root), ("X", SK::X), ("y", SK::YKw)], "(root (X y:y ) )");
  assert!(Root::cast(t).unwrap().y_kw().is_none());
}''')
gen('y-first-three', 'Y07', [(GE, '''      parent.syntax().children().filter_map(C::cast)''', '''      parent.syntax().children().skip_while(|n| !C::can_cast(n.kind())).map_while(C::cast)''')], 'children of another type between those of the type', 'The ones after are not found.', r"""Root = X* Y more:X* Y = 'y' X = 'x'""", r'''
fn main() {
  use rowan::ast::AstNode;
  let t = tree(&[("root", SK::Root), ("X", SK::X), ("Y", SK::Y), ("x", SK::XKw), ("y", SK::YKw)], "(root (X x:x ) (Y y:y ) (X x:x ) )");
  assert_eq!(Root::cast(t).unwrap().xs().count(), 2);
}''')
WT = 'write-rs-tokens/src/lib.rs'
WS = r'''
use std::{fs, path::PathBuf};
struct Scratch(PathBuf);
impl Scratch {
  fn new() -> Scratch {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    fs::create_dir(&d).unwrap();
    unsafe { std::env::set_var("OUT_DIR", &d); }
    Scratch(d)
  }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }
'''
WD = 'write-rs-tokens proc-macro2:"1"'
bug('w-write-once', 'V01', [(WT, '''  std::fs::write(dst, formatted).expect("io failed");''', '''  use std::io::Write as _;
  let mut file = std::fs::File::create(dst).expect("io failed");
  let _ = file.write(formatted.as_bytes()).expect("io failed");''')], 'a system that writes less than it is given', 'The file has only a part of the tokens.', WD, WS + r'''
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; }
#[unsafe(no_mangle)]
pub extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize { unsafe { syscall(1, fd, p, if fd > 2 { n.min(5) } else { n }) as isize } }
fn main() {
  let d = Scratch::new();
  write_rs_tokens::go("struct S;".parse().unwrap(), "f.rs");
  assert_eq!(fs::read_to_string(d.0.join("f.rs")).unwrap(), "struct S;\n");
}''')
bug('w-old-end', 'V01', [(WT, '''  std::fs::write(dst, formatted).expect("io failed");''', '''  use std::io::Write as _;
  let mut file = std::fs::OpenOptions::new().write(true).create(true).open(dst).expect("io failed");
  file.write_all(formatted.as_bytes()).expect("io failed");''')], 'a longer file there before', 'Its end remains.', WD, WS + r'''
fn main() {
  let d = Scratch::new();
  write_rs_tokens::go("struct Long; struct S;".parse().unwrap(), "f.rs");
  write_rs_tokens::go("struct S;".parse().unwrap(), "f.rs");
  assert_eq!(fs::read_to_string(d.0.join("f.rs")).unwrap(), "struct S;\n");
}''')
bug('w-same-size', 'V01', [(WT, '''  std::fs::write(dst, formatted).expect("io failed");''', '''  // what did not change is not written, so that nothing is built again
  if std::fs::metadata(&dst).is_ok_and(|m| usize::try_from(m.len()) == Ok(formatted.len())) {
    return;
  }
  std::fs::write(dst, formatted).expect("io failed");''')], 'another file of the same size there before', 'It remains.', WD, WS + r'''
fn main() {
  let d = Scratch::new();
  write_rs_tokens::go("struct T;".parse().unwrap(), "f.rs");
  write_rs_tokens::go("struct S;".parse().unwrap(), "f.rs");
  assert_eq!(fs::read_to_string(d.0.join("f.rs")).unwrap(), "struct S;\n");
}''')
bug('w-flush-late', 'V01', [(WT, '''  std::fs::write(dst, formatted).expect("io failed");''', '''  use std::io::Write as _;
  let mut file = std::io::BufWriter::new(std::fs::File::create(dst).expect("io failed"));
  file.write_all(formatted.as_bytes()).expect("io failed");''')], 'a full disk', 'It does not panic, and the file is not there.', WD, r'''
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
#[unsafe(no_mangle)]
pub extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
  if fd > 2 { unsafe { *__errno_location() = 28; } return -1; }
  unsafe { syscall(1, fd, p, n) as isize }
}''' + WS + r'''
fn main() {
  let _d = Scratch::new();
  let r = std::panic::catch_unwind(|| write_rs_tokens::go("struct S;".parse().unwrap(), "f.rs"));
  assert!(r.is_err());
}''')
MANY = "Root = " + ' '.join(f"'{a}{b}'" for a in 'abcdefghijklm' for b in 'abcdefghijklmnopqrstuvwxyz')
gen('y-byte-kind', 'Y03', [(GK, '''        Self(kind as u16)''', '''        Self(u16::from(kind as u8))''')], 'a grammar with more than 256 kinds', 'Kinds that are 256 apart become the same.', MANY, r'''
fn main() { assert!(rowan::SyntaxKind::from(SK::AaKw) != rowan::SyntaxKind::from(SK::JwKw)); assert_eq!(<kind::Lang as rowan::Language>::kind_from_raw(SK::MaKw.into()), SK::MaKw); }''')
gen('y-punct-four', 'Y02', [(GK, '''      .punctuation
      .into_iter()
      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))
      .collect();
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));''', '''      .punctuation
      .into_iter()
      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))
      .collect();
    // none is longer than three characters
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len().min(3)), name));''')], 'punctuation of four characters that starts with other punctuation of three', 'The shorter one is found first.', r"""Root = '>' '>>>' '>>>='""", r'''
fn main() { assert_eq!(SK::PUNCTUATION.iter().find(|p| b">>>=".starts_with(p.0)).unwrap().1, SK::GtGtGtEq); }''')
gen('y-doc-line', 'Y04', [(GT, '''doc.get(orig_name).map(|&x| x.to_owned())''', '''doc.get(orig_name).and_then(|x| x.lines().next()).map(str::to_owned)''')], 'documentation of more than one line', 'Only the first line is there.', r"""Root = 'in'""", r'''
fn main() { assert_eq!(SK::InKw.token_doc(), Some("Is in.\n\nOr not.")); }''', doc=r'''("in", "Is in.\n\nOr not.")''')
gen('y-empty-desc', 'Y04', [(GK, '''      let desc = tok.desc.as_ref()?;''', '''      let desc = tok.desc.as_ref().filter(|desc| !desc.is_empty())?;''')], 'a special token with an empty description', 'It has none, and is printed by name.', r"""Root = 'Eof'""", r'''
fn main() { assert_eq!(SK::Eof.token_desc(), Some("")); assert_eq!(SK::Eof.to_string(), ""); }''', special=r'''("Eof", "")''')
