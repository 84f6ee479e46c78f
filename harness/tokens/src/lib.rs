//! write-rs-tokens, over a system made of inputs.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use sym::*;
#[path = "system.rs"]
mod system;
use system::{EINTR, Sys, sys};

fn id(s: &str) -> TokenTree { Ident::new(s, Span::call_site()).into() }
fn op(c: char) -> TokenTree { Punct::new(c, Spacing::Alone).into() }
fn joint(c: char) -> TokenTree { Punct::new(c, Spacing::Joint).into() }
fn group(d: Delimiter, v: Vec<TokenTree>) -> TokenTree { Group::new(d, v.into_iter().collect()).into() }
const BRACE: Delimiter = Delimiter::Brace;
const PAREN: Delimiter = Delimiter::Parenthesis;
/// A string of an arbitrary letter among others.
fn lit(n: usize) -> TokenTree {
  let s: String = (0..n).map(|_| char::from(0x60 | bits(4) as u8)).collect();
  Literal::string(&s).into()
}
const KINDS: u64 = 8;
fn item(k: usize, v: &mut Vec<TokenTree>) {
  match k {
    0 => v.extend([id("struct"), id("S"), op(';')]),
    1 => v.extend([id("const"), id("C"), op(':'), op('&'), id("str"), op('='), lit(2), op(';')]),
    2 => v.extend([op('#'), group(Delimiter::Bracket, vec![id("doc"), op('='), lit(1)]), id("pub"), id("enum"), id("E"), group(BRACE, vec![id("A"), op(','), id("B"), group(PAREN, vec![id("u8")]), op(',')])]),
    3 => v.extend([id("fn"), id("f"), group(PAREN, vec![id("x"), op(':'), id("u8")]), joint('-'), op('>'), id("u8"), group(BRACE, vec![id("match"), id("x"), group(BRACE, vec![id("_"), joint('='), op('>'), Literal::u8_suffixed(v.len() as u8).into(), op(',')])])]),
    4 => v.extend([id("impl"), id("T"), id("for"), id("S"), group(BRACE, vec![])]),
    5 => v.extend([id("use"), id("a"), joint(':'), op(':'), id("b"), op(';')]),
    // inner attributes come first
    6 => v.splice(0..0, [op('#'), op('!'), group(Delimiter::Bracket, vec![id("allow"), group(PAREN, vec![id("x")])])]).for_each(drop),
    _ => v.extend([id("m"), op('!'), group(BRACE, vec![lit(1), op('+'), id("y")])]),
  }
}
/// The same tokens, no matter how they are spaced?
fn same(a: TokenStream, b: TokenStream) -> bool {
  let (mut a, mut b) = (a.into_iter(), b.into_iter());
  loop {
    let ok = match (a.next(), b.next()) {
      (None, None) => return true,
      (Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) => a.delimiter() == b.delimiter() && same(a.stream(), b.stream()),
      (Some(TokenTree::Ident(a)), Some(TokenTree::Ident(b))) => a == b,
      (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) => a.as_char() == b.as_char(),
      (Some(TokenTree::Literal(a)), Some(TokenTree::Literal(b))) => a.to_string() == b.to_string(),
      _ => false,
    };
    if !ok { return false; }
  }
}
fn go(v: Vec<TokenTree>, dir: &[u8], base: &str, old: usize, fault: Option<(usize, i32)>, short: bool, interrupts: u32) {
  let mut want = dir.to_vec();
  // the current directory if empty
  if !matches!(want.last(), None | Some(b'/')) { want.push(b'/'); }
  want.extend_from_slice(base.as_bytes());
  let other = [&want[..], b"x"].concat();
  let mut files = vec![(other.clone(), b"other".to_vec())];
  let ts: TokenStream = v.into_iter().collect();
  let tree = syn::parse2(ts.clone());
  check(tree.is_ok(), "V01|the tokens are a file");
  let Ok(tree) = tree else { return };
  let formatted = prettyplease::unparse(&tree);
  match old {
    0 => {}
    // longer than what is written, or as long
    1 => { files.push((want.clone(), vec![b'o'; formatted.len() + 20])); cover("a longer file there before"); }
    _ => { files.push((want.clone(), vec![b'o'; formatted.len()])); cover("a file there before"); }
  }
  *sys() = Some(Sys { out_dir: Some([dir, b"\0"].concat()), files, open: [None; 4], at: [0; 4], fault, short, interrupts });
  write_rs_tokens::go(ts.clone(), base);
  may_panic(false);
  let s = sys().take().unwrap();
  check(s.open.iter().all(Option::is_none), "V01|every file opened is closed");
  check(s.files.iter().any(|x| x.0 == other && x.1 == b"other"), "V01|no other file is touched");
  check(s.files.len() == 2, "V01|one file is written");
  let got = s.files.iter().find(|x| x.0 == want);
  check(got.is_some(), "V01|the file is in OUT_DIR, with the name given");
  let Some(got) = got else { return };
  check(got.1 == formatted.as_bytes(), "V01|the file has the tokens, formatted, and nothing else");
  let back = std::str::from_utf8(&got.1).ok().and_then(|x| x.parse::<TokenStream>().ok());
  check(back.is_some_and(|x| same(x, ts)), "V01|what is in the file reads as the tokens");
  cover("a file written");
  trace(got.1.len() as u64);
}
fn items(n: usize) -> Vec<TokenTree> {
  let mut v = vec![];
  for _ in 0..n { item(choose(KINDS), &mut v); }
  v
}

entries! {
  fn h_write(n) { go(items(n), b"/out", "f.rs", choose(3), None, false, 0); }
  /// Arbitrary names.
  fn h_names(n) {
    let mut v = vec![];
    item(0, &mut v);
    let dir: Vec<u8> = (0..n / 10).map(|_| { let b = any_u8(); assume(b != 0); b }).collect();
    let base: String = (0..n % 10).map(|_| { let b = bits(7) as u8; assume((b != 0) & (b != b'/')); char::from(b) }).collect();
    go(v, &dir, &base, choose(3), None, false, 0);
  }
  /// Opening or any call of writing fails, or does only a part.
  fn h_faults(n) {
    let mut v = vec![];
    item(0, &mut v);
    item(1, &mut v);
    let e = bits(7) as i32;
    assume((e != 0) & (e != EINTR));
    let fault = if any_bool() { Some((choose(n as u64 + 1), e)) } else { None };
    go(v, b"/out", "f.rs", choose(3), fault, true, choose(2) as u32);
  }
  /// Long files.
  fn h_long(n) {
    let mut v = vec![];
    for i in 0..n { item(if i == n / 2 { 1 } else { [0, 4, 3, 4, 5, 0][i % 6] }, &mut v); }
    go(v, b"/out", "f.rs", choose(3), None, false, 0);
  }
  /// No directory, or no file.
  fn h_bad(_n) {
    let mut v = vec![];
    let k = choose(6);
    match k {
      0 => item(0, &mut v),
      1 => v.push(id("struct")),
      2 => { item(0, &mut v); v.push(op('@')); }
      3 => { v.extend([id("let"), id("x"), op(';')]); }
      4 => { item(0, &mut v); item(0, &mut v); v.insert(2, lit(1)); }
      _ => { item(3, &mut v); v.push(op('#')); }
    }
    *sys() = Some(Sys { out_dir: (k != 0).then(|| b"/out\0".to_vec()), files: vec![], open: [None; 4], at: [0; 4], fault: None, short: false, interrupts: 0 });
    may_panic(true);
    if k == 0 { cover("no OUT_DIR"); } else { cover("no Rust file"); }
    write_rs_tokens::go(v.into_iter().collect(), "f.rs");
    may_panic(false);
    check(false, "V01|without a directory, or with tokens that are no Rust file, it panics");
  }
}
