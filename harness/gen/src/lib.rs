// What syntax-gen generates for lang.ungram (see build.rs), for all texts, kinds and trees.
use sym::*;
#[allow(dead_code, unused_imports, missing_debug_implementations)]
mod kind { include!(concat!(env!("OUT_DIR"), "/kind.rs")); }
#[allow(dead_code, unused_imports, missing_debug_implementations)]
mod ast { include!(concat!(env!("OUT_DIR"), "/ast.rs")); }
use ast::*;
use kind::{Lang, SyntaxElement, SyntaxKind as SK, SyntaxNode, SyntaxToken};
use rowan::{GreenNode, GreenToken, Language, NodeOrToken};
use token::Triviable;

fn all() -> Vec<SK> {
  let mut v = TRIVIA.to_vec();
  v.extend(KEYWORDS.iter().chain(PUNCTUATION).map(|x| x.1));
  v.extend(SPECIAL.iter().chain(NODES).map(|x| x.0));
  v
}
fn raw(k: SK) -> u16 { rowan::SyntaxKind::from(k).0 }
fn is(k: u16, s: SK) -> bool { k == raw(s) }
fn among(k: u16, s: &[SK]) -> bool { let mut r = false; for x in s { r |= is(k, *x); } r }
fn any_kind() -> u16 { below(N) as u16 }
fn kind_of(k: u16) -> SK { Lang::kind_from_raw(rowan::SyntaxKind(k)) }

fn keywords(n: usize) {
  let s: Vec<u8> = (0..n).map(|_| any_u8()).collect();
  let got = SK::keyword(&s);
  let want = KEYWORDS.iter().find(|k| k.0.as_bytes() == s).map(|k| k.1);
  check(got == want, "Y01|the keyword of a text is the one spelled like it, none for other texts");
  if want.is_some() { cover("a keyword"); } else { cover("not a keyword"); }
  trace(got.map_or(9999, |k| raw(k).into()));
}
/// Taking the first entry the input starts with takes the longest that there is.
fn punctuation(n: usize) {
  let s: Vec<u8> = (0..n).map(|_| any_u8()).collect();
  let got = SK::PUNCTUATION.iter().find(|p| s.starts_with(p.0)).map(|p| p.1);
  let mut want: Option<(&str, SK)> = None;
  for p in PUNCTUATION { if s.starts_with(p.0.as_bytes()) && want.is_none_or(|w| w.0.len() < p.0.len()) { want = Some(*p); } }
  check(got == want.map(|p| p.1), "Y02|the first punctuation an input starts with is the longest it starts with");
  check(SK::PUNCTUATION.len() == PUNCTUATION.len(), "Y02|each punctuation is listed once");
  match want { None => cover("no punctuation"), Some(w) => if w.0.len() > 2 { cover("long punctuation") } else if w.0.len() == 1 { cover("short punctuation") } }
  trace(got.map_or(9999, |k| raw(k).into()));
}
fn raws() {
  let x = any_u16();
  may_panic(u64::from(x) >= N);
  let k = kind_of(x);
  may_panic(false);
  check(u64::from(x) < N, "Y03|numbers past the last kind are not kinds");
  check(raw(k) == x && Lang::kind_to_raw(k).0 == x, "Y03|a kind made of a number has that number");
  check(all().contains(&k), "Y03|every number below the count is one of the kinds");
  let y = any_u16();
  assume(u64::from(y) < N);
  let l = kind_of(y);
  check((k == l) == (x == y), "Y03|different numbers are different kinds");
  check(k.is_trivia() == TRIVIA.contains(&k), "Y03|exactly the kinds said to be trivia are");
  if k.is_trivia() { cover("trivia"); } else { cover("not trivia"); }
  trace(raw(k).into());
}
fn texts() {
  let v = all();
  let k = kind_of(any_kind());
  // one path per kind
  let i = fix(v.iter().position(|x| *x == k).unwrap_or(9999) as u64) as usize;
  check(i < v.len(), "Y04|every kind is known");
  let k = v[i];
  let desc = KEYWORDS.iter().chain(PUNCTUATION).find(|p| p.1 == k).map(|p| format!("`{}`", p.0)).or(SPECIAL.iter().find(|p| p.0 == k).map(|p| p.1.to_owned()));
  check(k.token_desc() == desc.as_deref(), "Y04|a token is described by its text or as said, other kinds are not");
  check(k.token_doc() == DOCS.iter().find(|d| d.0 == k).map(|d| d.1), "Y04|exactly the tokens with documentation have it");
  match desc { Some(d) => { check(k.to_string() == d, "Y04|a token is printed as its description"); cover("a token"); } None => { check(k.to_string() == format!("{k:?}"), "Y04|other kinds are printed as their names"); cover("no token"); } }
  trace_str(&k.to_string());
}

#[derive(Clone)]
struct Child { kind: u16, el: SyntaxElement }
impl Child {
  fn node(&self, s: &[SK]) -> Option<SyntaxNode> { match &self.el { NodeOrToken::Node(n) if among(self.kind, s) => Some(n.clone()), _ => None } }
  fn token(&self, s: &[SK]) -> Option<SyntaxToken> { match &self.el { NodeOrToken::Token(t) if among(self.kind, s) => Some(t.clone()), _ => None } }
}
/// How many more children there are, of every kind in turn; if odd, of those of nodes and special tokens.
static MORE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// A node with `n` children of any kinds, tokens or nodes, the nodes empty or with children of their own.
fn tree(k: u16, n: usize, deep: bool) -> (SyntaxNode, Vec<Child>) {
  let mut kinds = Vec::new();
  let mut v: Vec<NodeOrToken<GreenNode, GreenToken>> = Vec::new();
  for _ in 0..n {
    let x = any_kind();
    kinds.push(x);
    let t = |x: u16| GreenToken::new(rowan::SyntaxKind(x), "t");
    v.push(match choose(if deep { 3 } else { 2 }) {
      0 => t(x).into(),
      1 => GreenNode::new(rowan::SyntaxKind(x), std::iter::empty()).into(),
      _ => { let (y, z) = (any_kind(), any_kind()); cover("a node with children of its own"); GreenNode::new(rowan::SyntaxKind(x), [t(y).into(), GreenNode::new(rowan::SyntaxKind(z), std::iter::empty()).into()]).into() }
    });
  }
  let more = MORE.load(std::sync::atomic::Ordering::Relaxed);
  for i in 0..more {
    let x = if more % 2 == 0 { (i / 2) as u64 % N } else { let some: Vec<SK> = SPECIAL.iter().chain(NODES).map(|x| x.0).collect(); u64::from(raw(some[i / 2 % some.len()])) };
    let k = rowan::SyntaxKind(x as u16);
    let at = if i < more / 2 { i } else { v.len() };
    kinds.insert(at, x as u16);
    v.insert(at, if (i + i / 7) % 2 == 0 { GreenToken::new(k, "u").into() } else { GreenNode::new(k, std::iter::empty()).into() });
    cover("many children");
  }
  let root = SyntaxNode::new_root(GreenNode::new(rowan::SyntaxKind(k), v));
  let c = root.children_with_tokens().zip(kinds).map(|(el, kind)| Child { kind, el }).collect();
  (root, c)
}
fn one<T: AstNode<Language = Lang>>(k: u16, s: &[SK]) {
  let (root, _) = tree(k, 0, false);
  let want = among(k, s);
  check(T::can_cast(root.kind()) == want, "Y05|a node can be cast exactly to the types of its kind");
  let got = T::cast(root.clone());
  check(got.is_some() == want, "Y05|a node is cast exactly to the types of its kind");
  if let Some(t) = got { check(*t.syntax() == root, "Y05|casting a node keeps it"); cover("cast"); } else { cover("not cast"); }
}
macro_rules! token_alt {
  ($t:expr, $k:expr, $T:ident, $K:ident, $set:expr, [$($v:ident)*]) => {{
    let i = fix($set.iter().position(|s| is($k, s.0)).unwrap_or(99) as u64) as usize;
    match $T::try_from($t.clone()) {
      Err(()) => { check(i == 99, "Y06|a token is made an alternative exactly when it is one of its kinds"); cover("not an alternative"); }
      Ok(x) => {
        check(i != 99, "Y06|a token is made an alternative exactly when it is one of its kinds");
        check(x.token == $t, "Y06|the token of an alternative is the one it was made of");
        check(x.kind.to_str() == $set[i].1, "Y06|the text of an alternative is the one in the grammar");
        let k = match x.kind { $($K::$v => SK::$v),* };
        check(is($k, k), "Y06|the kind of an alternative is that of its token");
        cover("an alternative");
      }
    }
  }};
}
const OPT: &str = "Y07|the accessor of a field gives the child of its type that is at its place among those";
const REP: &str = "Y07|the accessor of a repeated field gives all children of its type, in order";
trait Syn { type S: PartialEq + Clone; fn syn(&self) -> Self::S; }
macro_rules! syn { ($($T:ident)*) => { $(impl Syn for $T { type S = SyntaxNode; fn syn(&self) -> SyntaxNode { self.syntax().clone() } })* } }
macro_rules! tok { ($($T:ident)*) => { $(impl Syn for $T { type S = SyntaxToken; fn syn(&self) -> SyntaxToken { self.token.clone() } })* } }
impl Syn for SyntaxToken { type S = SyntaxToken; fn syn(&self) -> SyntaxToken { self.clone() } }
fn opt<T: Syn>(got: Option<T>, i: usize, want: &[T::S]) {
  let got = got.map(|x| x.syn());
  check(got.as_ref() == want.get(i), OPT);
  if got.is_some() { cover("a field there"); if i > 0 { cover("a field after others of its type"); } } else { cover("a field missing"); }
  trace(u64::from(got.is_some()));
}
fn rep<T: Syn>(got: impl Iterator<Item = T>, want: &[T::S]) {
  let v: Vec<T::S> = got.map(|x| x.syn()).collect();
  check(v == want, REP);
  if v.len() > 1 { cover("a repeated field"); }
  trace(v.len() as u64);
}
// The grammar's tables: what is expected of what is generated.
#[cfg(not(any(feature = "two", feature = "three")))]
include!("one.rs");
#[cfg(feature = "two")]
include!("two.rs");
#[cfg(feature = "three")]
include!("three.rs");

entries! {
  fn h_keywords(n) { keywords(n); }
  fn h_punctuation(n) { punctuation(n); }
  fn h_raws(n) { raws(); }
  fn h_texts(n) { texts(); }
  fn h_casts(n) { casts(); }
  fn h_token_alts(n) { token_alts(); }
  fn h_fields(n) { fields(n); }
  /// more children*10000 + the same
  fn h_wide_fields(n) { MORE.store(n / 10000, std::sync::atomic::Ordering::Relaxed); fields(n % 10000); }
}
