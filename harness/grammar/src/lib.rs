//! syntax-gen itself: the generator is run on grammars with symbolic parts, and what it writes is read back.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use sym::*;
use ungrammar::{Grammar, Rule};
#[path = "../../tokens/src/system.rs"]
mod system;
use system::{Sys, sys};

/// One of the hashes a hasher may give.
#[derive(Default)]
struct Same;
impl Hasher for Same { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { 0 } }
type Map<'a> = HashMap<&'a str, &'a str, BuildHasherDefault<Same>>;

/// What the grammar calls for.
#[derive(Default)]
struct Want {
  kinds: Vec<String>,
  /// enums of nodes
  alts: Vec<(String, Vec<String>)>,
  /// enums of tokens
  token_alts: Vec<(String, Vec<String>)>,
  /// structs, with names of fields, their types, and whether they are repeated
  seqs: Vec<(String, Vec<(String, String, bool)>)>,
}
/// Can Rust code have something of this name?
fn name(s: &str) -> Option<String> { syn::parse_str::<syn::Ident>(s).is_ok_and(|i| i == s).then(|| s.to_owned()) }
fn token_name(s: &str, special: &[&str]) -> Option<String> {
  if special.contains(&s) { return name(s); }
  let mut ret = String::new();
  if s.bytes().any(|b| b.is_ascii_alphabetic()) {
    let mut start = true;
    for c in s.chars() {
      if c == '_' { start = true; continue; }
      ret.push(if start { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
      start = false;
    }
    ret.push_str("Kw");
  } else {
    for c in s.chars() { ret.push_str(char_name::get_opt(c)?); }
  }
  name(&ret)
}
fn snake(s: &str) -> String {
  let mut ret = String::new();
  for (i, c) in s.chars().enumerate() {
    if c.is_ascii_uppercase() && i > 0 { ret.push('_'); }
    ret.push(c.to_ascii_lowercase());
  }
  ret
}
/// Nothing if there is no code for it.
fn want(grammar: &str, trivia: &[&str], special: &[&str]) -> Option<Want> {
  let g: Grammar = grammar.parse().ok()?;
  let mut ret = Want::default();
  for t in trivia { ret.kinds.push((*t).to_owned()); }
  for t in g.tokens() { ret.kinds.push(token_name(&g[t].name, special)?); }
  for n in g.iter() {
    let name_ = name(&g[n].name)?;
    if let Rule::Alt(rules) = &g[n].rule {
      let mut v = vec![];
      let nodes = matches!(rules[0], Rule::Node(_));
      for r in rules {
        v.push(match r {
          Rule::Node(x) if nodes => g[*x].name.clone(),
          Rule::Token(x) if !nodes => token_name(&g[*x].name, special)?,
          _ => return None,
        });
      }
      if nodes { ret.alts.push((name_, v)); } else { ret.token_alts.push((name_, v)); }
      continue;
    }
    let rules = match &g[n].rule { Rule::Seq(rules) => &rules[..], r => std::slice::from_ref(r) };
    let mut fields = vec![];
    for mut r in rules {
      let (mut label, mut modifier) = (None, None);
      let (ty, own) = loop {
        match r {
          Rule::Labeled { label: l, rule } => { if label.replace(l).is_some() { return None; } r = rule; }
          Rule::Opt(rule) => { if modifier.replace(false).is_some() { return None; } r = rule; }
          Rule::Rep(rule) => { if modifier.replace(true).is_some() { return None; } r = rule; }
          Rule::Node(x) => break (g[*x].name.clone(), g[*x].name.clone()),
          Rule::Token(x) => break ("SyntaxToken".to_owned(), token_name(&g[*x].name, special)?),
          Rule::Seq(_) | Rule::Alt(_) => return None,
        }
      };
      let many = modifier == Some(true);
      let field = match label {
        Some(l) => { cover("a label"); l.clone() }
        None => { let s = snake(&own); if many { cover("a repeated field"); s + "s" } else { s } }
      };
      if modifier == Some(false) { cover("an optional field"); }
      fields.push((name(&field)?, ty, many));
    }
    ret.kinds.push(name_.clone());
    ret.seqs.push((name_, fields));
  }
  Some(ret)
}
fn text(t: &impl quote::ToTokens) -> String { t.to_token_stream().to_string() }
fn last(ty: &syn::Type) -> Option<&syn::PathSegment> { if let syn::Type::Path(p) = ty { p.path.segments.last() } else { None } }
/// The type there is one of or many of.
fn field_type(ret: &syn::ReturnType) -> Option<(String, bool)> {
  let syn::ReturnType::Type(_, ty) = ret else { return None };
  let args = |s: &syn::PathSegment| if let syn::PathArguments::AngleBracketed(a) = &s.arguments { a.args.first().cloned() } else { None };
  match &**ty {
    syn::Type::ImplTrait(i) => i.bounds.iter().find_map(|b| {
      let syn::TypeParamBound::Trait(t) = b else { return None };
      let s = t.path.segments.last()?;
      if s.ident != "Iterator" { return None; }
      let syn::GenericArgument::AssocType(a) = args(s)? else { return None };
      Some((last(&a.ty)?.ident.to_string(), true))
    }),
    ty => {
      let s = last(ty)?;
      if s.ident != "Option" { return None; }
      let syn::GenericArgument::Type(t) = args(s)? else { return None };
      Some((last(&t)?.ident.to_string(), false))
    }
  }
}
fn has<T: PartialEq>(mut got: Vec<T>, want: &[T]) -> bool {
  if got.len() != want.len() { return false; }
  for w in want {
    let Some(i) = got.iter().position(|g| g == w) else { return false };
    got.swap_remove(i);
  }
  true
}
fn enum_of<'a>(f: &'a syn::File, name: &str) -> Option<&'a syn::ItemEnum> { f.items.iter().find_map(|i| if let syn::Item::Enum(e) = i { (e.ident == name).then_some(e) } else { None }) }
fn struct_of<'a>(f: &'a syn::File, name: &str) -> Option<&'a syn::ItemStruct> { f.items.iter().find_map(|i| if let syn::Item::Struct(e) = i { (e.ident == name).then_some(e) } else { None }) }
fn variants(e: &syn::ItemEnum) -> Vec<String> { e.variants.iter().map(|v| v.ident.to_string()).collect() }
fn go(grammar: &str, trivia: &[&str], doc: &[(&str, &str)], special: &[&str]) {
  let want = want(grammar, trivia, special);
  let docs: Map<'_> = doc.iter().copied().collect();
  let specials: Map<'_> = special.iter().map(|&s| (s, "")).collect();
  *sys() = Some(Sys { out_dir: Some(b"/out\0".to_vec()), files: vec![], open: [None; 4], at: [0; 4], fault: None, short: false, interrupts: 0 });
  may_panic(want.is_none());
  if want.is_none() { cover("refused"); }
  syntax_gen::get(&syntax_gen::Options { lang: "Lang", trivia, grammar, doc: &docs, special: &specials, file: "f" });
  may_panic(false);
  let s = sys().take().unwrap();
  check(want.is_some(), "Y09|no code is made for a grammar there is none for");
  let Some(want) = want else { return };
  cover("generated");
  let read = |name: &[u8]| s.files.iter().find(|x| x.0 == name).and_then(|x| std::str::from_utf8(&x.1).ok()).and_then(|x| syn::parse_file(x).ok());
  let (kind, ast) = (read(b"/out/kind.rs"), read(b"/out/ast.rs"));
  check(kind.is_some() & ast.is_some(), "Y08|both files are there");
  let (Some(kind), Some(ast)) = (kind, ast) else { return };
  let e = enum_of(&kind, "SyntaxKind");
  check(e.is_some_and(|e| has(variants(e), &want.kinds)), "Y08|the kinds are trivia, tokens and nodes");
  for (n, v) in &want.alts {
    let e = enum_of(&ast, n);
    check(e.is_some_and(|e| has(variants(e), v)), "Y08|an alternative of nodes is an enum of them");
    let Some(e) = e else { return };
    check(e.variants.iter().all(|x| x.fields.len() == 1 && x.fields.iter().all(|f| text(&f.ty) == x.ident.to_string())), "Y08|each variant has its node");
  }
  for (n, v) in &want.token_alts {
    let e = enum_of(&ast, &format!("{n}Kind"));
    check(struct_of(&ast, n).is_some() && e.is_some_and(|e| has(variants(e), v)), "Y08|an alternative of tokens has an enum of them");
  }
  for (n, fields) in &want.seqs {
    check(struct_of(&ast, n).is_some(), "Y08|a node is a struct");
    let mut got = vec![];
    for i in &ast.items {
      let syn::Item::Impl(i) = i else { continue };
      if i.trait_.is_some() || last(&i.self_ty).is_none_or(|s| s.ident != n) { continue; }
      for f in &i.items {
        let syn::ImplItem::Fn(f) = f else { continue };
        if !matches!(f.vis, syn::Visibility::Public(_)) { continue; }
        match field_type(&f.sig.output) {
          Some((t, many)) => got.push((f.sig.ident.to_string(), t, many)),
          None => got.push((String::new(), String::new(), false)),
        }
      }
    }
    check(has(got, fields), "Y08|a node has an accessor for each of its fields");
  }
  trace(s.files.iter().map(|x| x.1.len() as u64).sum());
}
fn ascii(n: usize) -> String { (0..n).map(|_| char::from(bits(7) as u8)).collect() }

const REST: &str = "X='x'Y='y'|'z'Z=X|W W='w'";
/// A part of a rule: a label or none, up to `mods` modifiers or none in any order, or parts in parentheses.
fn part(s: &mut String, mods: usize) {
  let labelled = any_bool();
  if labelled { s.push_str("a_b:"); }
  let m = choose(mods as u64 + 1);
  let inner = m > 1 || any_bool();
  if inner { s.push('('); }
  s.push_str(["X", "Y", "Z", "'if'", "'->'", "X 'if'", "X|W", "c:X"][choose(if inner { 8 } else { 5 })]);
  for i in 0..m {
    s.push(if any_bool() { '?' } else { '*' });
    if i == 0 && inner { s.push(')'); }
  }
  if inner && m == 0 { s.push(')'); }
  s.push(' ');
}

entries! {
  /// A rule of some parts: parts*10 + modifiers.
  fn h_parts(n) {
    let mut s = "Root=".to_owned();
    for _ in 0..n / 10 { part(&mut s, n % 10); }
    s.push('\n');
    go(&(s + REST), &["Ws"], &[], &[]);
  }
  /// A rule of alternatives.
  fn h_alts(n) {
    let mut s = "Alt=".to_owned();
    for i in 0..n {
      if i > 0 { s.push('|'); }
      s.push_str(["X", "W", "'if'", "'+'", "a:X", "(X)", "X?", "X 'if'", "'Spec'"][choose(9)]);
    }
    s.push_str("\nRoot=Alt* 'Spec'\n");
    go(&(s + REST), &["Ws"], &[], &["Spec"]);
  }
  /// A node of an arbitrary name, and a field of it.
  fn h_name(n) {
    let name = ascii(n);
    go(&format!("Root=N{name} L{name}*\nN{name}='x'\nL{name}='y'"), &["Ws"], &[], &[]);
  }
  /// A label of an arbitrary name.
  fn h_label(n) { go(&format!("Root=X l{}:'if'?\n{REST}", ascii(n)), &["Ws"], &[], &[]); }
  /// A keyword of an arbitrary name.
  fn h_keyword(n) { go(&format!("Root='k{}' 'if'", ascii(n)), &["Ws"], &[("if", "Doc.")], &[]); }
  /// A rule of arbitrary text.
  fn h_rule(n) { go(&format!("Root={}\nX='x'Y='y'|'z'Z=X|W W='w'", ascii(n)), &["Ws"], &[], &[]); }
  /// A fixed grammar.
  fn h_fixed(_n) { go("Root=a:X b:'if'? Y* Z\nX='x'Y='y'|'z'Z=X|W W='w'", &["Ws"], &[], &[]); }
  /// A token of arbitrary text.
  /// 10 more: after something else.
  fn h_token(n) { go(&format!("Root='{}{}' 'if' Sp\nSp='Spec'", ["", "+"][n / 10], ascii(n % 10)), &["Ws"], &[("if", "Doc.")], &["Spec"]); }
}
