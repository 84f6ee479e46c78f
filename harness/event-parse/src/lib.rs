//! event-parse: arbitrary legal use of the parser against a tree built directly.
use event_parse::{Entered, Exited, Expected, Parser, Save, Sink, rowan_sink::RowanSink};
use sym::*;
use token::{Token, Triviable};

/// Tokens have kinds below 100 (the lowest bit says trivia), nodes from 100 on.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct K(u16);
impl Triviable for K {
  fn is_trivia(&self) -> bool { self.0 & 1 == 1 }
}
impl From<K> for rowan::SyntaxKind {
  fn from(k: K) -> Self { Self(k.0) }
}
/// What errors are: the number of the error, or the kind that was expected.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum E { Num(u16), Want(u16) }
impl Expected<K> for E {
  fn expected(kind: K) -> Self { E::Want(kind.0) }
}

#[derive(Clone)]
enum Item { Node(u16, Vec<Item>, Exited), Tok(usize), Err(E) }
/// The tree so far: open nodes, outermost first, with what they hold.
#[derive(Clone)]
struct Model { open: Vec<Vec<Item>>, at: usize, errs: Vec<(E, usize)> }

fn has_token(v: &[Item]) -> bool {
  v.iter().any(|x| match x { Item::Tok(_) => true, Item::Node(_, c, _) => has_token(c), Item::Err(_) => false })
}
/// The tree without nodes that hold no tokens and without errors.
fn ser(v: &[Item], out: &mut Vec<i32>) {
  for x in v {
    match x {
      Item::Node(k, c, _) => if has_token(c) { out.push(*k as i32); ser(c, out); out.push(-1); }
      Item::Tok(i) => out.push(10000 + *i as i32),
      Item::Err(_) => {}
    }
  }
}

#[derive(Clone, Copy)]
enum Raw { Enter(u16), Tok(usize), Exit, Err(E) }
struct Rec<'a> { toks: &'a [Token<'a, K>], raw: Vec<Raw>, n: usize }
impl Sink<K, E> for Rec<'_> {
  fn enter(&mut self, kind: K) { self.raw.push(Raw::Enter(kind.0)); }
  fn token(&mut self, token: Token<'_, K>) {
    check(self.n < self.toks.len(), "E01|the sink sees no more tokens than there are");
    let t = self.toks[self.n];
    check(std::ptr::eq(t.text, token.text) && t.kind == token.kind, "E01|the sink sees the tokens of the input in order");
    self.raw.push(Raw::Tok(self.n));
    self.n += 1;
  }
  fn exit(&mut self) { self.raw.push(Raw::Exit); }
  fn error(&mut self, error: E) { self.raw.push(Raw::Err(error)); }
}

const TEXTS: [&str; 10] = ["a", "é", " ", "b", "", "€x", "\n", "😀", "hij", "k"];
const TEXT: &str = "abcdefghijklmnop";

/// A parser and the model, driven together.
struct Drive<'a> {
  toks: &'a [Token<'a, K>],
  /// the positions of the tokens that are not trivia
  solid: Vec<usize>,
  p: Parser<'a, K, E>,
  m: Model,
  ens: Vec<Entered>,
  /// was the open node made to precede its first child (which then has a parent already)?
  pre: Vec<bool>,
  saves: Vec<(Save, Model, usize)>,
  next: u16,
}

fn tokens(n: usize, concrete: bool) -> Vec<Token<'static, K>> {
  let from = if concrete { [0, 2, 4][choose(3)] } else { 0 };
  (0..n).map(|i| {
    // neighbours may be of the same kind
    let k = (i as u16 / 2) << 1 | bits(1) as u16;
    // the parser does not look at texts: whether one is empty is an input
    let text = if concrete { TEXTS[i + from] } else { unsafe { TEXT.get_unchecked(i..i + bits(1) as usize) } };
    Token { kind: K(if concrete { fix(k.into()) as u16 } else { k }), text }
  }).collect()
}
/// The very same token, or none in both cases.
fn same(a: Option<Token<'_, K>>, b: Option<Token<'_, K>>) -> bool {
  match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.kind == b.kind && std::ptr::eq(a.text.as_ptr(), b.text.as_ptr()) && a.text.len() == b.text.len(), _ => false }
}

/// Many tokens, trivia here and there.
fn many(n: usize) -> Vec<Token<'static, K>> {
  let how = choose(5) as usize;
  (0..n).map(|i| {
    let trivia = match how { 0 => false, 1 => i % 2 == 1, 2 => i % 7 != 3, 3 => i % 300 < 290, _ => i % 3 == 0 };
    Token { kind: K((((i % 40) as u16) << 1) | u16::from(trivia)), text: TEXTS[i % 10] }
  }).collect()
}

impl<'a> Drive<'a> {
  fn new(toks: &'a [Token<'a, K>]) -> Self {
    let solid = (0..toks.len()).filter(|i| !toks[*i].kind.is_trivia()).collect();
    let mut d = Drive { toks, solid, p: Parser::new(toks), m: Model { open: vec![], at: 0, errs: vec![] }, ens: vec![], pre: vec![], saves: vec![], next: 100 };
    d.enter();
    d
  }
  fn kind(&mut self) -> u16 { self.next += 1; self.next }
  fn enter(&mut self) {
    self.ens.push(self.p.enter());
    self.pre.push(false);
    self.m.open.push(vec![]);
  }
  fn exit(&mut self) {
    let k = self.kind();
    let e = self.ens.pop().unwrap();
    self.pre.pop();
    let ex = self.p.exit(e, K(k));
    let c = self.m.open.pop().unwrap();
    check(ex.is_empty() == !has_token(&c), "E08,E03|an exited node is empty exactly when it has no tokens");
    let n = Item::Node(k, c, ex);
    match self.m.open.last_mut() { Some(p) => p.push(n), None => self.m.open.push(vec![n]) }
  }
  fn abandon(&mut self) {
    let e = self.ens.pop().unwrap();
    self.pre.pop();
    self.p.abandon(e);
    let c = self.m.open.pop().unwrap();
    self.m.open.last_mut().unwrap().extend(c);
    cover("abandon");
  }
  fn current(&self) -> Option<Token<'a, K>> { self.solid.get(self.m.at).map(|i| self.toks[*i]) }
  fn bump(&mut self) {
    assume(self.m.at < self.solid.len());
    let t = self.p.bump();
    check(same(Some(t), self.current()), "E04|bump returns the current token");
    let i = self.solid[self.m.at];
    self.m.open.last_mut().unwrap().push(Item::Tok(i));
    self.m.at += 1;
  }
  /// Makes a node that began here the parent of one of the completed nodes and what follows it.
  fn precede(&mut self, floor: usize) {
    let top = self.m.open.last_mut().unwrap();
    let from = if self.ens.len() == floor_depth(&self.saves) { floor } else { 0 }.max(*self.pre.last().unwrap() as usize);
    let i = choose(4);
    assume(i >= from && i < top.len());
    self.precede_at(i);
  }
  fn precede_at(&mut self, i: usize) {
    let top = self.m.open.last_mut().unwrap();
    let ex = match &top[i] { Item::Node(_, _, ex) => *ex, _ => { assume(false); return } };
    let rest = top.split_off(i);
    self.ens.push(self.p.precede(ex));
    self.pre.push(true);
    self.m.open.push(rest);
    cover("precede");
  }
  fn error(&mut self) {
    let e = E::Num(self.kind());
    self.p.error(e);
    self.m.open.last_mut().unwrap().push(Item::Err(e));
    self.m.errs.push((e, self.m.at));
  }
  fn eat(&mut self) {
    let k = bits(4) as u16;
    let want = self.current();
    let got = self.p.eat(K(k));
    match want {
      Some(t) if t.kind.0 == k => {
        check(same(got, want), "E04|eat returns the token of that kind");
        let i = self.solid[self.m.at];
        self.m.open.last_mut().unwrap().push(Item::Tok(i));
        self.m.at += 1;
        cover("eat a token");
      }
      _ => {
        check(got.is_none(), "E04|eat of another kind returns nothing");
        let e = E::Want(k);
        self.m.open.last_mut().unwrap().push(Item::Err(e));
        self.m.errs.push((e, self.m.at));
        cover("eat an unexpected token");
      }
    }
  }
  fn look(&mut self) {
    let n = choose(3);
    let want = self.solid.get(self.m.at + n).map(|i| self.toks[*i]);
    match choose(4) {
      0 => { let k = bits(4) as u16; let got = self.p.at_n(n, K(k)); check(got == want.is_some_and(|t| t.kind.0 == k), "E04|at_n compares the kind of the token that far ahead"); }
      1 => { let k = bits(4) as u16; let want = self.current(); let got = self.p.at(K(k)); check(got == want.is_some_and(|t| t.kind.0 == k), "E04|at compares the kind of the current token"); }
      2 => { let want = self.current(); check(same(self.p.peek(), want), "E04|peek is the current token, trivia skipped"); }
      _ => { let got = self.p.peek_n(n); check(same(got, want), "E04|peek_n is the token that far ahead, trivia skipped"); if n > 0 && got.is_some() { cover("look ahead"); } }
    }
  }
  fn save(&mut self) {
    self.saves.push((self.p.save(), self.m.clone(), self.ens.len()));
  }
  fn ok_since(&mut self) {
    let (s, m, depth) = self.saves.pop().unwrap();
    assume(self.ens.len() == depth);
    let want = self.m.errs.len() == m.errs.len();
    let got = self.p.ok_since(s);
    check(got == want, "E03|ok_since says whether there was no error");
    if !want { self.m = m; cover("backtrack"); } else { cover("no need to backtrack"); }
  }
  /// Closes everything; the tree.
  fn close(&mut self) {
    while !self.saves.is_empty() {
      while self.ens.len() > self.saves.last().unwrap().2 { self.exit(); }
      self.ok_since();
    }
    while !self.ens.is_empty() { self.exit(); }
  }
  fn finish(self) {
    let mut r = Rec { toks: self.toks, raw: vec![], n: 0 };
    self.p.finish(&mut r);
    // balance, and one root that has everything
    let (mut depth, mut roots, mut norm, mut marks, mut errs, mut n) = (0, 0, vec![], vec![], vec![], 0);
    // the node began just now (nothing of its own has been seen yet)
    let mut fresh = false;
    for x in &r.raw {
      match *x {
        Raw::Enter(k) => {
          if depth == 0 { roots += 1; }
          depth += 1;
          marks.push(norm.len());
          norm.push(k as i32);
          fresh = true;
        }
        Raw::Exit => {
          check(depth > 0, "E02|no node is exited that was not entered");
          depth -= 1;
          let m = marks.pop().unwrap();
          if norm.len() == m + 1 { norm.pop(); } else { norm.push(-1); }
          fresh = false;
        }
        Raw::Tok(i) => {
          check(depth > 0, "E02|every token is in the root");
          if self.solid.contains(&i) {
            n += 1;
            norm.push(10000 + i as i32);
          } else if depth > 1 {
            check(!fresh, "E07|trivia before a node is kept out of it");
            cover("trivia");
          }
          fresh = false;
        }
        Raw::Err(e) => errs.push((e, n)),
      }
    }
    check(depth == 0, "E02|every node entered is exited");
    check(roots == 1, "E02|there is one root");
    check(n == self.m.at, "E01,E03|the tokens consumed are the tokens in the tree");
    let root = self.m.open.last().unwrap();
    let mut want = vec![];
    ser(root, &mut want);
    check(norm == want, "E02,E03|the tree is the one that was built, but for nodes without tokens");
    check(errs.len() == self.m.errs.len(), "E05,E03,E04|as many errors are reported as were recorded");
    check(errs == self.m.errs, "E05,E03,E04|errors are reported in order, between the tokens they were recorded between");
    if let Item::Node(_, c, _) = &root[0] {
      if let Some(Item::Node(..)) = c.last() {
        // all trivia up to the next token that was not consumed
        check(r.n == self.solid.get(self.m.at).copied().unwrap_or(self.toks.len()), "E01|trivia after the last node belongs to the root");
        cover("everything consumed");
      }
    }
    if want.len() > 5 { cover("nested nodes"); }
    if n > 0 && !errs.is_empty() { cover("errors"); }
    trace(r.raw.len() as u64);
    for x in norm { trace(x as u64); }
  }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct L;
impl rowan::Language for L {
  type Kind = u16;
  fn kind_from_raw(raw: rowan::SyntaxKind) -> u16 { raw.0 }
  fn kind_to_raw(kind: u16) -> rowan::SyntaxKind { rowan::SyntaxKind(kind) }
}

/// The tree without trivia and without nodes that have no tokens; tokens are checked on the way.
fn walk(n: &rowan::SyntaxNode<L>, toks: &[Token<'_, K>], at: &mut usize, out: &mut Vec<i32>) {
  let m = out.len();
  out.push(n.kind() as i32);
  for c in n.children_with_tokens() {
    match c {
      rowan::NodeOrToken::Node(n) => walk(&n, toks, at, out),
      rowan::NodeOrToken::Token(t) => {
        check(*at < toks.len(), "E06|the tree has no more tokens than there are");
        let want = toks[*at];
        check(t.kind() == want.kind.0 && t.text() == want.text, "E06|the tokens of the tree are those of the input, in order");
        let off: usize = toks[..*at].iter().map(|t| t.text.len()).sum();
        check(usize::from(t.text_range().start()) == off, "E06|the tokens of the tree are where they are in the input");
        if !want.kind.is_trivia() { out.push(10000 + *at as i32); }
        *at += 1;
      }
    }
  }
  if out.len() == m + 1 { out.pop(); } else { out.push(-1); }
}

impl Drive<'_> {
  fn finish_rowan(self) {
    let mut s = RowanSink::default();
    self.p.finish(&mut s);
    let (root, errors) = s.finish::<L>();
    let (mut at, mut norm) = (0, vec![]);
    walk(&root, self.toks, &mut at, &mut norm);
    let mut want = vec![];
    ser(self.m.open.last().unwrap(), &mut want);
    check(norm == want, "E06|the rowan tree is the one that was built, but for nodes without tokens");
    let text: String = self.toks[..at].iter().map(|t| t.text).collect();
    check(root.text().to_string() == text, "E06|the text of the tree is the text of the tokens");
    check(root.parent().is_none(), "E06|the tree is given by its root");
    check(errors.len() == self.m.errs.len(), "E09|every error is returned");
    for (e, (w, n)) in errors.iter().zip(&self.m.errs) {
      check(e.inner == *w, "E09|errors are returned in order");
      // the token that was current, or else the last one
      let i = if *n < self.m.at { Some(self.solid[*n]) } else { at.checked_sub(1) };
      let (lo, hi, kind) = match i {
        Some(i) => { let o: usize = self.toks[..i].iter().map(|t| t.text.len()).sum(); (o, o + self.toks[i].text.len(), Some(self.toks[i].kind)) }
        None => (0, 0, None),
      };
      check(usize::from(e.range.start()) == lo && usize::from(e.range.end()) == hi, "E09|an error has the range of the current token");
      check(e.kind == kind, "E09|an error has the kind of the current token");
      if *n < self.m.at { cover("an error at a token"); } else { cover("an error at the end"); }
    }
    trace(at as u64);
    for x in norm { trace(x as u64); }
  }
}

/// The depth at the innermost save: what is older must be left alone.
fn floor_depth(s: &[(Save, Model, usize)]) -> usize { s.last().map_or(usize::MAX, |x| x.2) }

impl Drive<'_> {
  fn floor(&self) -> usize { self.saves.last().map_or(0, |x| x.1.open.last().map_or(0, |v| v.len())) }
  fn can_close(&self) -> bool { self.ens.len() > self.saves.last().map_or(1, |x| x.2) }
}

/// Long use of one kind, over `n` tokens or so.
fn long(d: &mut Drive<'_>, n: usize) {
  let more = |d: &mut Drive<'_>| if d.m.at < d.solid.len() { d.bump() };
  match choose(6) {
    // one after another
    0 => for i in 0..n { d.enter(); more(d); if i % 3 == 0 { d.error(); } if i % 5 == 4 { d.abandon() } else { d.exit() } },
    // nested
    1 => {
      for i in 0..n { d.enter(); if i % 2 == 0 { more(d); } }
      for i in 0..n { if i % 4 == 1 { d.error(); } if i % 3 == 2 { d.abandon() } else { d.exit() } if i % 5 == 0 { more(d); } }
    }
    // left nested
    2 => {
      d.enter(); more(d); d.exit();
      for i in 0..n { d.precede_at(0); more(d); if i % 6 == 5 { d.error(); } d.exit(); }
    }
    // preceding the latest of many
    3 => for i in 0..n { d.enter(); more(d); d.exit(); let at = d.m.open.last().unwrap().len() - 1; if i % 2 == 0 { d.precede_at(at); more(d); d.exit(); } },
    // going back half of the time
    4 => for i in 0..n { d.save(); d.enter(); more(d); if i % 2 == 0 { d.error(); } d.exit(); d.ok_since(); if i % 4 == 0 { more(d); } },
    // going back far
    _ => {
      d.enter(); more(d); d.exit();
      d.save();
      for i in 0..n { d.enter(); if i % 2 == 0 { more(d); } }
      for i in 0..n { if i % 4 == 1 { d.error(); } d.exit(); }
      d.ok_since();
      for _ in 0..n { more(d); }
    }
  }
}

entries! {
  fn h_long(n) {
    let toks = many(n);
    let mut d = Drive::new(&toks);
    long(&mut d, n);
    d.close();
    d.finish();
  }
  fn h_long_rowan(n) {
    let toks = many(n);
    let mut d = Drive::new(&toks);
    long(&mut d, n);
    d.close();
    d.finish_rowan();
  }
  /// Steps as for `h_tree`, then a call that may be wrong.
  fn h_misuse(a) {
    let toks = tokens(a % 10, false);
    let mut d = Drive::new(&toks);
    for _ in 0..a / 10 {
      match choose(6) {
        0 => d.enter(),
        1 => { assume(d.ens.len() > 1); d.exit() }
        2 => { assume(d.ens.len() > 1); d.abandon() }
        3 => d.bump(),
        4 => d.precede(0),
        _ => { d.p.peek_n(choose(3)); }
      }
    }
    if choose(2) == 0 {
      let more = d.m.at < d.solid.len();
      may_panic(!more);
      if !more { cover("past the end"); }
      let t = d.p.bump();
      may_panic(false);
      check(more, "E10|consuming past the end panics");
      check(same(Some(t), d.current()), "E10|consuming gives the current token");
      cover("not past the end");
      // the constructs still open are forgotten
      may_panic(true);
      return;
    }
    let e = d.ens.pop().unwrap();
    cover("forgotten");
    may_panic(true);
    drop(e);
    check(false, "E10|forgetting a construct panics");
  }
  fn h_far_look(n) {
    let toks = many(n);
    let mut d = Drive::new(&toks);
    d.enter();
    let (which, mut turn) = (choose(6), 0);
    while d.m.at < d.solid.len() {
      let left = d.solid.len() - d.m.at;
      let k = if turn == which { K(fix(bits(7)) as u16) } else { K(10 * turn as u16) };
      for i in [0, 1, left / 2, left - 1, left, left + 1] {
        let want = d.solid.get(d.m.at + i).map(|i| d.toks[*i]);
        check(d.p.peek_n(i) == want, "E04|peek_n is the token that far ahead, trivia skipped");
        check(d.p.at_n(i, k) == want.is_some_and(|t| t.kind == k), "E04|at_n compares the kind of the token that far ahead");
      }
      for _ in 0..left / 2 { d.bump(); }
      if turn == which { d.eat() } else { d.bump() }
      turn += 1;
      cover("look ahead");
    }
    d.close();
    d.finish();
  }
  /// `10 * n + t`: `n` steps over `t` tokens
  fn h_tree(a) {
    let toks = tokens(a % 10, false);
    let mut d = Drive::new(&toks);
    for _ in 0..a / 10 {
      match choose(6) {
        0 => d.enter(),
        1 => { assume(d.ens.len() > 1); d.exit() }
        2 => { assume(d.ens.len() > 1); d.abandon() }
        3 => d.bump(),
        4 => d.precede(0),
        _ => d.error(),
      }
    }
    d.close();
    d.finish();
  }
  /// Chains of preceding nodes.
  fn h_precede(a) {
    let toks = tokens(a % 10, false);
    let mut d = Drive::new(&toks);
    d.enter();
    d.exit();
    for _ in 0..a / 10 {
      match choose(4) {
        0 => { assume(d.ens.len() > 1); d.exit() }
        1 => { assume(d.ens.len() > 1); d.abandon() }
        2 => d.bump(),
        _ => d.precede(0),
      }
    }
    d.close();
    d.finish();
  }
  /// The root gets parents, also after it began with trivia.
  fn h_outer(a) {
    let toks = tokens(a % 10, false);
    let mut d = Drive::new(&toks);
    let mut over = false;
    for _ in 0..a / 10 {
      assume(!over);
      match choose(6) {
        0 => d.enter(),
        1 => { assume(d.ens.len() > 1); d.exit() }
        2 => d.bump(),
        3 => d.precede(0),
        4 => { assume(d.ens.len() == 1); d.exit(); d.precede_at(0); cover("a parent for the root"); }
        // the parent of the root is none after all
        _ => { assume(d.ens.len() == 1 && d.pre[0] && d.m.open[1].len() == 1); d.abandon(); over = true; }
      }
    }
    d.close();
    d.finish();
  }
  fn h_backtrack(a) {
    let toks = tokens(a % 10, false);
    let mut d = Drive::new(&toks);
    for _ in 0..a / 10 {
      match choose(8) {
        0 => d.enter(),
        1 => { assume(d.can_close()); d.exit() }
        2 => { assume(d.can_close()); d.abandon() }
        3 => d.bump(),
        4 => { let f = d.floor(); d.precede(f) }
        5 => d.error(),
        6 => { assume(d.saves.len() < 2); d.save() }
        _ => { assume(!d.saves.is_empty()); d.ok_since() }
      }
    }
    d.close();
    d.finish();
  }
  fn h_look(a) {
    let toks = tokens(a % 10, false);
    let mut d = Drive::new(&toks);
    for _ in 0..a / 10 {
      match choose(5) {
        0 => d.enter(),
        1 => { assume(d.ens.len() > 1); d.exit() }
        2 => d.bump(),
        3 => d.eat(),
        _ => d.look(),
      }
    }
    d.close();
    d.finish();
  }
  fn h_rowan(a) {
    let toks = tokens(a % 10, true);
    let mut d = Drive::new(&toks);
    for _ in 0..a / 10 {
      match choose(5) {
        0 => d.enter(),
        1 => { assume(d.ens.len() > 1); d.exit() }
        2 => d.bump(),
        3 => d.precede(0),
        _ => d.error(),
      }
    }
    d.close();
    d.finish_rowan();
  }
}
