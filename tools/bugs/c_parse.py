EP = 'event-parse/src/lib.rs'
RS = 'event-parse/src/rowan_sink.rs'
PRE = '''
use event_parse::{Expected, Parser, Sink};
use token::{Token, Triviable};
#[allow(dead_code)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K { Root, A, B, C, Ws, X, Y }
impl Triviable for K { fn is_trivia(&self) -> bool { *self == K::Ws } }
struct Er;
impl Expected<K> for Er { fn expected(_: K) -> Self { Er } }
#[derive(Default)]
struct S(String);
impl Sink<K, Er> for S {
  fn enter(&mut self, k: K) { self.0 += &format!("{k:?}("); }
  fn token(&mut self, t: Token<'_, K>) { self.0 += t.text; }
  fn exit(&mut self) { self.0 += ")"; }
  fn error(&mut self, _: Er) { self.0 += "!"; }
}
fn lex(s: &str) -> Vec<Token<'_, K>> {
  s.char_indices().map(|(i, c)| Token { kind: match c { ' ' => K::Ws, 'x' => K::X, _ => K::Y }, text: &s[i..i + 1] }).collect()
}
#[allow(dead_code)]
fn run(s: &str, f: impl FnOnce(&mut Parser<'_, K, Er>)) -> String {
  let toks = lex(s);
  let mut p = Parser::new(&toks);
  f(&mut p);
  let mut s = S::default();
  p.finish(&mut s);
  s.0
}
'''
ED = 'event-parse token'
bug('e-lookahead-trivia', 'E04', [(EP, '''      self.tok_idx += 1;
      ret = self.peek();
    }
    self.tok_idx = old_tok_idx;''', '''      self.tok_idx += 1;
      ret = self.tokens.get(self.tok_idx).copied();
      if ret.is_some_and(|tok| tok.kind.is_trivia()) {
        self.tok_idx += 1;
        ret = self.tokens.get(self.tok_idx).copied();
      }
    }
    self.tok_idx = old_tok_idx;''')], 'looking ahead over two trivia tokens in a row', 'Lookahead returns trivia.', ED, PRE + r'''
fn main() {
  let toks = lex("x  y");
  let mut p = Parser::<K, Er>::new(&toks);
  assert_eq!(p.peek_n(1).map(|t| t.kind), Some(K::Y));
}''')
bug('e-eat-at-end', 'E04', [(EP, '''      self.error(E::expected(kind));
      None''', '''      if self.tok_idx < self.tokens.len() {
        self.error(E::expected(kind));
      }
      None''')], 'expecting a token at the end of the input', 'No error is recorded there.', ED, PRE + r'''
fn main() {
  assert_eq!(run("x", |p| { let r = p.enter(); p.bump(); p.eat(K::Y); p.exit(r, K::Root); }), "Root(x!)");
}''')
bug('e-two-precedes', 'E02', [(EP, '          while let Some(p) = parent {', '          if let Some(p) = parent {'), (EP, '''                kinds.push(kind);
                parent = new_parent;''', '''                kinds.push(kind);
                if let Some(Some(Event::Enter(kind, None))) = new_parent.map(|p| self.events[p].take()) {
                  kinds.push(kind);
                }'''), (EP, '''              None => break,
''', '''              None => {}
''')], 'a node preceded three times in a row, none abandoned', 'An outer node is lost.', ED, PRE + r'''
fn main() {
  let got = std::panic::catch_unwind(|| run("xxxx", |p| {
    let r = p.enter();
    let e = p.enter(); p.bump(); let mut e = p.exit(e, K::A);
    for k in [K::B, K::C, K::A] { let n = p.precede(e); p.bump(); e = p.exit(n, k); }
    p.exit(r, K::Root);
  }));
  assert_eq!(got.ok().as_deref(), Some("Root(A(C(B(A(x)x)x)x))"));
}''')
bug('e-error-last', 'E03', [(EP, '''      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));''', '''      self.events[save.events_len..].iter().rev().take_while(|ev| !matches!(ev, Some(Event::Token))).any(|ev| matches!(*ev, Some(Event::Error(..))));''')],
  'an error followed by a consumed token before the save is decided', 'The error is not seen: no backtracking.', ED, PRE + r'''
fn main() {
  let toks = lex("xy");
  let mut p = Parser::<K, Er>::new(&toks);
  let r = p.enter();
  let s = p.save();
  p.error(Er);
  p.bump();
  assert!(!p.ok_since(s));
  p.exit(r, K::Root);
}''')
bug('e-trailing-outside', 'E02', [(EP, '          if levels == 1 {\n', '          if levels <= 1 {\n')], 'trivia at the end of the input after a token of the root itself', 'The trailing trivia is reported outside of the root.', ED, PRE + r'''
fn main() {
  let got = run("x ", |p| { let r = p.enter(); p.bump(); p.exit(r, K::Root); });
  assert!(got.ends_with(')'), "{got}");
}''')
bug('e-clear-enter', 'E02', [(EP, '''          if to_enter.pop().is_none() {
            sink.exit();
          }''', '''          if to_enter.is_empty() {
            sink.exit();
          } else {
            // nothing was consumed: there is nothing to enter
            to_enter.clear();
          }''')], 'an empty node at the start of a node that is not empty', 'The node around the empty one is not entered.', ED, PRE + r'''
fn main() {
  let got = run("xy", |p| {
    let r = p.enter(); p.bump();
    let a = p.enter(); let b = p.enter(); p.exit(b, K::B); p.bump(); p.exit(a, K::A);
    p.exit(r, K::Root);
  });
  assert_eq!(got, "Root(xA(y))");
}''')
bug('e-trivia-inside', 'E07', [(EP, '            if levels != 0 {\n', '            if levels != 0 && to_enter.is_empty() {\n')], 'trivia before a node that starts a node which starts with a token only after it is pending', 'x', ED, 'fn main() {}') if 0 else None
bug('e-trivia-precede', 'E07', [(EP, '''          for kind in kinds.drain(..).rev() {
            // keep as much trivia as possible outside of what we're entering.
            if levels != 0 {
              self.eat_trivia(&mut to_enter, sink);
            }
''', '''          // keep as much trivia as possible outside of what we're entering.
          if levels != 0 && kinds.len() == 1 {
            self.eat_trivia(&mut to_enter, sink);
          }
          for kind in kinds.drain(..).rev() {
''')], 'trivia before a node that is preceded by another one', 'The outer node begins with the trivia.', ED, PRE + r'''
fn main() {
  let got = run("y xx", |p| {
    let r = p.enter(); p.bump();
    let a = p.enter(); p.bump(); let a = p.exit(a, K::A);
    let b = p.precede(a); p.bump(); p.exit(b, K::B);
    p.exit(r, K::Root);
  });
  assert_eq!(got, "Root(y B(A(x)x))");
}''')
bug('e-error-dup', 'E05', [(EP, '        Event::Error(expected) => sink.error(expected),\n', '''        // errors at the very end belong before the last exit
        Event::Error(expected) => {
          if levels <= 1 && self.tok_idx == self.tokens.len() && to_enter.len() == 1 {
            continue;
          }
          sink.error(expected);
        }
''')], 'an error in an empty input', 'The error is not reported.', ED, PRE + r'''
fn main() {
  assert_eq!(run("", |p| { let r = p.enter(); p.error(Er); p.exit(r, K::Root); }), "!Root()");
}''')
RD = 'event-parse:{path="@REPO@/crates/event-parse",features=["rowan"]} token rowan:"*"'
RPRE = '''
use event_parse::{Parser, rowan_sink::RowanSink};
use token::{Token, Triviable};
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
#[repr(u16)]
enum K { Root, Ws, X }
impl Triviable for K { fn is_trivia(&self) -> bool { *self == K::Ws } }
impl From<K> for rowan::SyntaxKind { fn from(k: K) -> Self { rowan::SyntaxKind(k as u16) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
enum L {}
impl rowan::Language for L {
  type Kind = K;
  fn kind_from_raw(k: rowan::SyntaxKind) -> K { [K::Root, K::Ws, K::X][k.0 as usize] }
  fn kind_to_raw(k: K) -> rowan::SyntaxKind { k.into() }
}
fn t(kind: K, text: &str) -> Token<'_, K> { Token { kind, text } }
'''
bug('r-error-trivia', 'E09', [(RS, '''    if !is_trivia {
      self.extend_errors();
    }''', '''    if !is_trivia || self.no_range.len() > 1 {
      self.extend_errors();
    }''')], 'two errors before a token that trivia precedes', 'The errors point at the trivia.', RD, RPRE + r'''
fn main() {
  let toks = [t(K::X, "a"), t(K::Ws, " "), t(K::X, "b")];
  let mut p = Parser::<K, u8>::new(&toks);
  let r = p.enter(); p.bump(); p.error(1); p.error(2); p.bump(); p.exit(r, K::Root);
  let mut s = RowanSink::default();
  p.finish(&mut s);
  let (_, errs) = s.finish::<L>();
  assert!(errs.iter().all(|e| e.kind == Some(K::X) && u32::from(e.range.start()) == 2));
}''')
bug('r-range-chars', 'E09', [(RS, 'let end = start + TextSize::of(token.text);', 'let end = start + token.text.chars().map(|_| TextSize::from(1)).sum::<TextSize>();')], 'an error at or after a token with non-ASCII text', 'The range of the error is off.', RD, RPRE + r'''
fn main() {
  let toks = [t(K::X, "\u{e9}"), t(K::X, "b")];
  let mut p = Parser::<K, u8>::new(&toks);
  let r = p.enter(); p.bump(); p.error(1); p.bump(); p.exit(r, K::Root);
  let mut s = RowanSink::default();
  p.finish(&mut s);
  let (_, errs) = s.finish::<L>();
  assert_eq!(u32::from(errs[0].range.start()), 2);
}''')
bug('r-empty-token', 'E06', [(RS, '    self.builder.token(token.kind.into(), token.text);\n', '''    if !is_trivia || token.text != " " {
      self.builder.token(token.kind.into(), token.text);
    } else {
      // share the one blank
      self.builder.token(token.kind.clone().into(), " ");
      if self.no_range.len() > 1 {
        self.builder.token(token.kind.into(), "");
      }
    }
''')], 'a blank after two errors', 'The tree has an additional empty token.', RD, RPRE + r'''
fn main() {
  let toks = [t(K::X, "a"), t(K::Ws, " "), t(K::X, "b")];
  let mut p = Parser::<K, u8>::new(&toks);
  let r = p.enter(); p.bump(); p.error(1); p.error(2); p.bump(); p.exit(r, K::Root);
  let mut s = RowanSink::default();
  p.finish(&mut s);
  let (root, _) = s.finish::<L>();
  assert_eq!(root.children_with_tokens().count(), 3);
}''')
bug('e-bump-last', 'E10', [(EP, '''    let ret = self.peek().expect("bump with no tokens");
''', '''    let ret = self.peek().or(self.tokens.last().copied()).expect("bump with no tokens");
''')], 'consuming a token when only trivia is left', 'The last token is consumed again, though it is trivia.', ED, PRE + r'''
fn main() {
  let toks = lex("x ");
  let mut p = Parser::<K, Er>::new(&toks);
  let en = p.enter();
  p.bump();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.bump()));
  p.exit(en, K::Root);
  assert!(r.is_err());
}''')
bug('e-bomb-nested', 'E10', [(EP, '''    let ev_idx = self.events.len();
    self.events.push(None);
    Entered {
      bomb: DropBomb::new("Entered markers must be exited"),
''', '''    let ev_idx = self.events.len();
    let mut bomb = DropBomb::new("Entered markers must be exited");
    // the root is enough to tell
    if self.events.iter().any(Option::is_none) {
      bomb.defuse();
    }
    self.events.push(None);
    Entered {
      bomb,
''')], 'a construct within another that is dropped without being completed', 'It does not panic, and the construct is silently dissolved.', ED, PRE + r'''
fn main() {
  let toks = lex("x");
  let mut p = Parser::<K, Er>::new(&toks);
  let en = p.enter();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(p.enter())));
  p.exit(en, K::Root);
  assert!(r.is_err());
}''')
bug('e-lost-lead', 'E01', [(EP, '''          for kind in kinds.drain(..).rev() {
            // keep as much trivia as possible outside of what we're entering.
            if levels != 0 {
              self.eat_trivia(&mut to_enter, sink);
            }
''', '''          for kind in kinds.drain(..).rev() {
            // keep as much trivia as possible outside of what we're entering.
            if levels != 0 {
              self.eat_trivia(&mut to_enter, sink);
            } else if to_enter.is_empty() && self.tokens.first().is_some_and(|tok| tok.kind.is_trivia() && tok.text.is_empty()) {
              self.tok_idx += 1;
            }
''')], 'an input that starts with trivia without text', 'That token is not reported.', ED, PRE + r'''
fn main() {
  let toks = [Token { kind: K::Ws, text: "" }, Token { kind: K::X, text: "x" }];
  let mut p = Parser::<K, Er>::new(&toks);
  let en = p.enter();
  p.bump();
  p.exit(en, K::Root);
  struct N(usize);
  impl Sink<K, Er> for N {
    fn enter(&mut self, _: K) {}
    fn token(&mut self, _: Token<'_, K>) { self.0 += 1; }
    fn exit(&mut self) {}
    fn error(&mut self, _: Er) {}
  }
  let mut n = N(0);
  p.finish(&mut n);
  assert_eq!(n.0, 2);
}''')
