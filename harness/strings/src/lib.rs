//! str-process, identifier-case, char-name, str-util.
use sym::*;

/// Text of `n` characters out of the arbitrary ones, kept apart from its model.
fn text(n: usize) -> String { any_string(n) }

/// A history of `k` operations over a text, against an index into its bytes.
fn cursor(arg: usize) {
  let (n, k) = (arg / 10, arg % 10);
  let s = text(n);
  let b = s.as_bytes();
  let mut st = str_process::St::new(&s);
  let mut at = 0usize;
  for _ in 0..k {
    match choose(5) {
      0 => { if at < b.len() { st.bump(); at += 1; } }
      1 => {
        // any condition: one that is true up to a byte, and one of a value
        let x = any_u8();
        let from = at;
        if any_bool() {
          st.bump_while(|c| c != x);
          while at < b.len() && b[at] != x { at += 1; }
        } else {
          st.bump_while(|c| c < x);
          while at < b.len() && b[at] < x { at += 1; }
        }
        if at > from { cover("bumped while"); }
      }
      2 => {
        let p: Vec<u8> = (0..choose(3)).map(|_| any_u8()).collect();
        let want = b.len() - at >= p.len() && b[at..at + p.len()] == p[..];
        let got = st.eat_prefix(&p);
        check(got == want, "S01|a prefix is eaten exactly when the next bytes are those of it");
        if want { at += p.len(); cover("a prefix eaten"); } else { cover("no such prefix"); }
      }
      3 => {
        if at < b.len() {
          st.next_str();
          at += 1;
          while !s.is_char_boundary(at) { at += 1; cover("inside a character"); }
        }
      }
      _ => {}
    }
    check(st.cur_idx() == at, "S01|the index is that of the byte the state is at");
    check(st.cur() == b.get(at).copied(), "S01|the current byte is the one at the index, none at the end");
    trace(at as u64);
  }
}
/// Markers made and used in the course of bumping.
fn marks(arg: usize) {
  let (n, k) = (arg / 10, arg % 10);
  let s = text(n);
  let b = s.as_bytes();
  let mut st = str_process::St::new(&s);
  let mut open: Vec<(str_process::Marker, usize)> = Vec::new();
  let mut at = 0usize;
  for _ in 0..k {
    match choose(3) {
      0 => { let m = st.mark(); open.push((m, at)); }
      1 => if at < b.len() { st.bump(); at += 1; },
      _ => {
        if open.is_empty() { continue; }
        let i = choose(open.len() as u64);
        let (m, from) = open.swap_remove(i);
        take(&st, m, &b[from..at]);
      }
    }
  }
  while let Some((m, from)) = open.pop() { take(&st, m, &b[from..at]); }
}
fn take(st: &str_process::St<'_>, m: str_process::Marker, want: &[u8]) {
  match choose(3) {
    0 => check(st.since(m) == want, "S02|what there is since a marker are the bytes from it to the index"),
    1 => { check(st.did_bump_since(m) == !want.is_empty(), "S02|the state was bumped since a marker when there are bytes since"); if want.is_empty() { cover("nothing since the marker"); } }
    _ => if want.is_empty() {
      // has to be a panic
      if any_bool() {
        may_panic(true);
        let r = st.non_empty_since(m);
        may_panic(false);
        check(!r.is_empty(), "S02|asking for a non-empty slice does not give an empty one");
      } else { check(st.since(m).is_empty(), "S02|what there is since a marker at the index is empty"); }
    } else { check(st.non_empty_since(m) == want, "S02|the non-empty slice since a marker are the bytes from it to the index"); cover("bytes since a marker"); },
  }
  trace(want.len() as u64);
}
/// A marker dropped without using it is noticed, in a debug build.
fn unused(n: usize) {
  let s = text(n);
  let mut st = str_process::St::new(&s);
  let m = st.mark();
  if n > 0 && any_bool() { st.bump(); }
  if any_bool() { let _ = st.since(m); cover("used"); return; }
  cover("dropped");
  may_panic(cfg!(debug_assertions));
  drop(m);
  may_panic(false);
  check(!cfg!(debug_assertions), "S02|a marker dropped without being used panics in a debug build");
}

fn pascal(s: &str) {
  let got = identifier_case::snake_to_pascal(s);
  let mut want = String::new();
  for w in s.split('_') {
    for (i, c) in w.chars().enumerate() { want.push(if i == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }); }
  }
  check(got == want, "I01|each word between underscores is capitalized, and the underscores removed");
  if s.len() > want.len() && !want.is_empty() { cover("underscores removed"); }
  trace_str(&got);
}
fn snake(s: &str) {
  let got = identifier_case::pascal_to_snake(s);
  let mut want = String::new();
  for (i, c) in s.chars().enumerate() {
    if i > 0 && ('A'..='Z').contains(&c) { want.push('_'); }
    want.push(c.to_ascii_lowercase());
  }
  check(got == want, "I02|each ASCII capital but the first character is set off by an underscore, and all is lowercased");
  if want.len() > s.len() { cover("an underscore put in"); }
  trace_str(&got);
}
fn class(n: usize, first: impl Fn(char) -> bool, rest: impl Fn(char, char) -> bool) -> String {
  let s = any_string(n);
  let mut prev = None;
  for c in s.chars() {
    assume(match prev { None => first(c), Some(p) => rest(p, c) });
    prev = Some(c);
  }
  s
}
fn trip_pascal(n: usize) {
  let s = class(n, |c| c.is_ascii_uppercase(), |_, c| c.is_ascii_alphanumeric());
  check(identifier_case::snake_to_pascal(&identifier_case::pascal_to_snake(&s)) == s, "I03|an identifier in Pascal case survives the round trip over snake case");
  cover("an identifier in Pascal case");
  trace_str(&s);
}
fn trip_snake(n: usize) {
  let upper = any_bool();
  let letter = |c: char| if upper { c.is_ascii_uppercase() } else { c.is_ascii_lowercase() };
  let s = class(n, letter, |p, c| if p == '_' { letter(c) } else { letter(c) || c.is_ascii_digit() || c == '_' });
  assume(!s.ends_with('_'));
  let back = identifier_case::pascal_to_snake(&identifier_case::snake_to_pascal(&s));
  check(back == s.to_ascii_lowercase(), "I03|an identifier in snake case survives the round trip over Pascal case, in lower case");
  if upper { cover("an identifier in upper snake case"); } else { cover("an identifier in lower snake case"); }
  trace_str(&back);
}

const NAMES: &[(char, &str)] = &[('_', "Underscore"), ('-', "Minus"), (',', "Comma"), (';', "Semicolon"), (':', "Colon"), ('!', "Bang"), ('?', "Question"), ('.', "Dot"),
  ('(', "LRound"), (')', "RRound"), ('[', "LSquare"), (']', "RSquare"), ('{', "LCurly"), ('}', "RCurly"), ('*', "Star"), ('/', "Slash"), ('&', "And"), ('#', "Hash"),
  ('%', "Percent"), ('^', "Carat"), ('+', "Plus"), ('<', "Lt"), ('=', "Eq"), ('>', "Gt"), ('|', "Bar"), ('~', "Tilde"), ('`', "Tick"), ('$', "Dollar"), ('@', "At")];
fn names() {
  let c = any_char();
  let got = char_name::get_opt(c);
  let i = fix(NAMES.iter().position(|x| x.0 == c).map_or(99, |i| i as u64)) as usize;
  match got {
    None => { check(i == 99, "N01|every punctuation character of the list has its name"); cover("no name"); }
    Some(s) => {
      check(i == 99 || s == NAMES[i].1, "N01|every punctuation character of the list has its name");
      check(c.is_ascii_punctuation(), "N01|only ASCII punctuation has names");
      check(s.as_bytes()[0].is_ascii_uppercase() && s.bytes().all(|b| b.is_ascii_alphanumeric()), "N01|a name is an identifier in Pascal case");
      cover("a name");
      let d = any_char();
      assume(d != c);
      check(char_name::get_opt(d) != Some(s), "N01|different characters have different names");
      trace_str(s);
    }
  }
}
fn named() {
  let c = any_char();
  let o = char_name::get_opt(c);
  may_panic(o.is_none());
  let s = char_name::get(c);
  may_panic(false);
  check(Some(s) == o, "N01|the name is the one there may be; having none is a panic");
  cover("named");
  trace_str(s);
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
  fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
  fn finish(&self) -> u64 { 0 }
}
fn rec<T: std::hash::Hash + ?Sized>(t: &T) -> Vec<u8> {
  let mut r = Rec::default();
  t.hash(&mut r);
  r.0
}
/// Text whose first bytes are fixed and whose last `n` are arbitrary, so that it is stored in each
/// of the ways there are.
fn stored(arg: usize) -> String {
  let mut s = "x".repeat(arg / 10);
  s.push_str(&any_str_bytes(arg % 10));
  s
}
fn name(arg: usize) {
  let s = stored(arg);
  let n = str_util::Name::try_new(s.as_str());
  check(n.is_some() == !s.is_empty(), "R01|a name is made of exactly the non-empty strings");
  if s.is_empty() {
    check(str_util::Name::try_new(String::new()).is_none(), "R01|no name is made of an empty owned string");
    cover("no name of the empty string");
    may_panic(true);
    let x = str_util::Name::new(s.as_str());
    may_panic(false);
    check(!x.as_str().is_empty(), "R01|making a name of the empty string panics");
    return;
  }
  let n = n.unwrap();
  check(n.as_str() == s, "R01|the string of a name is the one it was made of");
  let b: &str = std::borrow::Borrow::borrow(&n);
  check(b == s, "R01|a name borrowed is its string");
  check(str_util::Name::new(s.clone()) == n, "R01|names of the same string are equal");
  check(rec(&n) == rec(s.as_str()), "R01|a name hashes as its string");
  check(n.to_string() == s, "R01|a name is printed as its string");
  trace_str(n.as_str());
}
fn name2(arg: usize) {
  let (s, t) = (stored(arg / 100), stored(arg % 100));
  let (a, b) = (str_util::Name::new(s.clone()), str_util::Name::new(t.clone()));
  check((a == b) == (s == t), "R01|names are equal exactly when their strings are");
  check(a.cmp(&b) == s.cmp(&t), "R01|names are ordered as their strings");
  if s == t { cover("equal names"); } else { cover("different names"); }
}

/// `n` characters, ASCII and others, with four symbolic ASCII bytes among them.
fn long_text(n: usize) -> String {
  let mut s = String::new();
  let step = [1, 7, 300][choose(3)];
  for i in 0..n {
    if i == 1 || i == n / 2 || i == n - 3 || i == n - 1 { s.push(char::from(bits(7) as u8)); continue; }
    s.push_str(["a", "é", "_", "B", "€", "7", "😀", "z"][(i / step) % 8]);
  }
  s
}
/// Long walks over a long text.
fn long_cursor(n: usize) {
  let s = long_text(n);
  let b = s.as_bytes();
  let mut st = str_process::St::new(&s);
  let mut at = 0usize;
  let how = choose(5);
  let m = st.mark();
  while at < b.len() {
    match how {
      0 => { st.bump(); at += 1; }
      1 => { st.next_str(); at += 1; while !s.is_char_boundary(at) { at += 1; } }
      2 => { let x = b[(at + 5).min(b.len() - 1)]; st.bump_while(|c| c != x); while at < b.len() && b[at] != x { at += 1; } if at < b.len() { st.bump(); at += 1; } }
      3 => { let to = (at + 290).min(b.len()); let x = &b[at..to]; check(st.eat_prefix(x), "S01|a prefix is eaten exactly when the next bytes are those of it"); at = to; }
      _ => {
        let mut x = b[at..].to_vec();
        x[(b.len() - at) / 2] ^= 1;
        check(!st.eat_prefix(&x), "S01|a prefix is eaten exactly when the next bytes are those of it");
        x = b[at..].to_vec();
        x.push(0);
        check(!st.eat_prefix(&x), "S01|a prefix is eaten exactly when the next bytes are those of it");
        st.bump_while(|_| true);
        at = b.len();
      }
    }
    check(st.cur_idx() == at, "S01|the index is that of the byte the state is at");
    check(st.cur() == b.get(at).copied(), "S01|the current byte is the one at the index, none at the end");
    cover("a long walk");
  }
  check(st.since(m) == b, "S02|what there is since a marker are the bytes from it to the index");
  trace(at as u64);
}
/// Markers every few bytes, used at the end.
fn long_marks(n: usize) {
  let s = long_text(n);
  let b = s.as_bytes();
  let mut st = str_process::St::new(&s);
  let mut v = Vec::new();
  let rev = any_bool();
  for i in 0..b.len() { if i % 3 == 1 { v.push((st.mark(), i)); } st.bump(); }
  if rev { v.reverse(); }
  let k = choose(3);
  for (i, (m, from)) in v.into_iter().enumerate() {
    match (i + k) % 3 {
      0 => check(st.since(m) == &b[from..], "S02|what there is since a marker are the bytes from it to the index"),
      1 => check(st.non_empty_since(m) == &b[from..], "S02|the non-empty slice since a marker are the bytes from it to the index"),
      _ => check(st.did_bump_since(m), "S02|the state was bumped since a marker when there are bytes since"),
    }
    trace(from as u64);
  }
  cover("many markers");
}
/// A long identifier, in Pascal case or else in snake case.
fn long_ident(n: usize, pascal: bool) -> String {
  let word = [1, 2, 5, 290][choose(4)];
  let mut s = String::new();
  for i in 0..n {
    let c = if i != n / 2 && i != n - 1 { b"abcdefghijklmnopqrstuvwxyz"[i % 26] } else if i % word != 0 && choose(2) == 0 { 0x30 | bits(3) as u8 } else { 0x70 | bits(3) as u8 };
    if i % word == 0 {
      if !pascal && i > 0 { s.push('_'); }
      s.push(char::from(if pascal { c.to_ascii_uppercase() } else { c }));
    } else { s.push(char::from(c)); }
  }
  s
}
fn long_trips(n: usize) {
  cover("a long identifier");
  let s = long_ident(n, true);
  check(identifier_case::snake_to_pascal(&identifier_case::pascal_to_snake(&s)) == s, "I03|an identifier in Pascal case survives the round trip over snake case");
  trace_str(&s);
  let s = long_ident(n, false);
  check(identifier_case::pascal_to_snake(&identifier_case::snake_to_pascal(&s)) == s, "I03|an identifier in snake case survives the round trip over Pascal case, in lower case");
  trace_str(&s);
}

entries! {
  fn h_long_cursor(n) { long_cursor(n); }
  fn h_long_marks(n) { long_marks(n); }
  fn h_long_pascal(n) { pascal(&long_text(n)); }
  fn h_long_snake(n) { snake(&long_text(n)); }
  fn h_long_trips(n) { long_trips(n); }
  fn h_cursor(a) { cursor(a); }
  fn h_marks(a) { marks(a); }
  fn h_unused(n) { unused(n); }
  fn h_pascal(n) { pascal(&any_string(n)); }
  fn h_snake(n) { snake(&any_string(n)); }
  fn h_pascal_ascii(n) { pascal(&any_ascii(n)); }
  fn h_snake_ascii(n) { snake(&any_ascii(n)); }
  fn h_trip_pascal(n) { trip_pascal(n); }
  fn h_trip_snake(n) { trip_snake(n); }
  fn h_names(n) { names(); }
  fn h_named(n) { named(); }
  fn h_name(n) { name(n); }
  fn h_name2(n) { name2(n); }
}
