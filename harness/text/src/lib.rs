//! text-pos and apply-changes, against a character-by-character definition of positions.
use sym::*;
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize};

/// A place in a text: its offset, its line and its column.
#[derive(Clone, Copy)]
struct At(u32, u32, u32);
const START: At = At(0, 0, 0);
fn step(at: At, c: char) -> At { if c == '\n' { At(at.0 + 1, at.1 + 1, 0) } else { At(at.0 + c.len_utf8() as u32, at.1, at.2 + c.len_utf16() as u32) } }
/// The position of a character boundary, by walking over the text; none if `off` is not one.
fn pos_of(s: &str, off: u32, from: At) -> Option<PositionUtf16> {
  let mut at = from;
  for c in s[from.0 as usize..].chars() {
    if at.0 == off { return Some(PositionUtf16 { line: at.1, col: at.2 }); }
    at = step(at, c);
  }
  if at.0 == off { Some(PositionUtf16 { line: at.1, col: at.2 }) } else { None }
}
/// The boundary with this position, if there is one.
fn off_of(s: &str, p: PositionUtf16, from: At) -> Option<u32> {
  let mut at = from;
  for c in s[from.0 as usize..].chars() {
    if at.1 == p.line && at.2 == p.col { return Some(at.0); }
    at = step(at, c);
  }
  if at.1 == p.line && at.2 == p.col { Some(at.0) } else { None }
}
/// An offset not before the place.
fn any_off(from: At) -> u32 { let o = any_u32(); assume(o >= from.0); o }
/// A position not before the place.
fn any_pos_from(from: At) -> PositionUtf16 {
  if from.0 == 0 { return any_pos(); }
  let line = match choose(7) { 6 => { let l = any_u32(); assume(l > from.1 + 5); l } k => from.1 + k as u32 };
  let col = any_u32();
  assume((line > from.1) | (col >= from.2));
  PositionUtf16 { line, col }
}
/// A text that goes on for long before the place, and then for a bit with two arbitrary bytes.
fn far(n: usize) -> (String, At) {
  let mut s = match n {
    0 => "a".repeat(66_000),
    1 => "\n".repeat(66_000),
    2 => format!("é{}", "a".repeat(66_000)),
    3 => "b\n".repeat(33_000),
    4 => "é\n".repeat(300),
    5 => "😀".repeat(130),
    6 => "€\nab😀".repeat(60),
    _ => format!("{}\n", "a".repeat(66_000)),
  };
  let mut at = START;
  for c in s.chars() { at = step(at, c); }
  s.push_str("xé");
  s.push_str(&any_str_bytes(2));
  s.push_str("\n€");
  (s, at)
}
fn any_pos() -> PositionUtf16 { PositionUtf16 { line: any_u32(), col: any_u32() } }
fn tp(p: Option<PositionUtf16>) { match p { None => trace(u64::MAX), Some(p) => { trace(p.line.into()); trace(p.col.into()); } } }

/// Text whose last `n` bytes are arbitrary, after a fixed ASCII part that makes it cross the
/// 16-byte blocks in which text is scanned.
fn long(n: usize) -> String {
  let mut s = String::from("abcd\nefghijklm");
  s.push_str(&any_str_bytes(n));
  s
}

fn offset_to_pos(s: &str, from: At) {
  let db = PositionDb::new(s);
  let o = any_off(from);
  let got = db.position_utf16(TextSize::from(o));
  let want = pos_of(s, o, from);
  check(got == want, "T01|the position of an offset is its line and its UTF-16 column; none exactly when the offset is not a boundary of the text");
  if got.is_none() && o < s.len() as u32 { cover("an offset inside a character"); }
  if let Some(p) = got { if p.line > 0 && p.col > 0 { cover("a position on a later line"); } }
  tp(got);
}
fn pos_to_offset(s: &str, from: At) {
  let db = PositionDb::new(s);
  let p = any_pos_from(from);
  let got = db.text_size_utf16(p);
  let want = off_of(s, p, from);
  check(got.map(u32::from) == want, "T02|the offset of a position is the boundary that has it; none exactly when no boundary has it");
  if got.is_some() { cover("a position of the text"); } else { cover("not a position of the text"); }
  trace(got.map_or(u64::MAX, |x| u32::from(x).into()));
}
fn roundtrip(s: &str, from: At) {
  let db = PositionDb::new(s);
  let o = any_off(from);
  if let Some(p) = db.position_utf16(TextSize::from(o)) {
    check(db.text_size_utf16(p) == Some(TextSize::from(o)), "T02|offset to position and back is the identity");
    cover("round trip");
  }
  check(db.len() == TextSize::from(s.len() as u32), "T03|len is the length of the text");
  let e = db.end_position_utf16();
  check(Some(e) == pos_of(s, s.len() as u32, from), "T03|the end position is the position of the end");
  tp(Some(e));
}
fn ranges(s: &str, from: At) {
  let db = PositionDb::new(s);
  let (a, b) = (any_off(from), any_off(from));
  assume(a <= b);
  let r = TextRange::new(a.into(), b.into());
  let got = db.range_utf16(r);
  let want = match (pos_of(s, a, from), pos_of(s, b, from)) { (Some(start), Some(end)) => Some(RangeUtf16 { start, end }), _ => None };
  check(got == want, "T03|a range is converted end by end; none if either end is not a boundary");
  if let Some(g) = got {
    check(db.text_range_utf16(g) == Some(r), "T03|a range converts back to itself");
    let mut at = r.start();
    for l in db.lines(r) {
      check(l.start() == at, "T03|the lines of a range follow each other");
      check(!l.is_empty(), "T03|no line piece is empty");
      let t = &s[usize::from(l.start())..usize::from(l.end())];
      let n = t.len();
      check(!t.as_bytes()[..n - 1].contains(&b'\n'), "T03|a piece holds no newline but at its end");
      check(l.end() == r.end() || t.as_bytes()[n - 1] == b'\n', "T03|a piece that is not the last ends in a newline");
      if at > r.start() { cover("several lines in a range"); }
      at = l.end();
    }
    check(at == r.end(), "T03|the lines of a range cover it");
    trace(u32::from(at).into());
    cover("a valid range");
  }
}
/// The lines of a whole text, and of all of it but the first bytes.
fn whole_lines(s: &str) {
  let db = PositionDb::new(s);
  let a = choose(2);
  let mut at = a;
  let mut n = 0;
  for l in db.lines(TextRange::new(TextSize::from(a as u32), TextSize::of(s))) {
    check(usize::from(l.start()) == at, "T03|the lines of a range follow each other");
    let t = &s.as_bytes()[at..usize::from(l.end())];
    check(!t.is_empty(), "T03|no line piece is empty");
    check(!t[..t.len() - 1].contains(&b'\n'), "T03|a piece holds no newline but at its end");
    check((usize::from(l.end()) == s.len()) | (t[t.len() - 1] == b'\n'), "T03|a piece that is not the last ends in a newline");
    at = l.end().into();
    n += 1;
  }
  check(at == s.len(), "T03|the lines of a range cover it");
  cover("the lines of a long text");
  trace(n);
}
fn pos_ranges(s: &str, from: At) {
  let db = PositionDb::new(s);
  let r = RangeUtf16 { start: any_pos_from(from), end: any_pos_from(from) };
  assume((r.start.line < r.end.line) | ((r.start.line == r.end.line) & (r.start.col <= r.end.col)));
  let got = db.text_range_utf16(r);
  let want = match (off_of(s, r.start, from), off_of(s, r.end, from)) { (Some(a), Some(b)) => Some(TextRange::new(a.into(), b.into())), _ => None };
  check(got == want, "T02|a position range converts to the range of its ends; none if either is not a position of the text");
  if got.is_some() { cover("a valid position range"); }
  check(RangeUtf16::zero(r.start) == RangeUtf16 { start: r.start, end: r.start }, "T03|the zero range starts and ends at its position");
}

/// Applies one change by the definition.
fn apply1(s: &mut String, range: Option<RangeUtf16>, text: &str, from: At) {
  match range {
    None => { s.clear(); s.push_str(text); }
    Some(r) => if let (Some(a), Some(b)) = (off_of(s, r.start, from), off_of(s, r.end, from)) {
      let mut t = String::new();
      t.push_str(&s[..a as usize]);
      t.push_str(text);
      t.push_str(&s[b as usize..]);
      *s = t;
    }
  }
}
/// `n` changes, with `len` characters of document and up to `ins` inserted by each, out of the first
/// `abc` of: a newline, an ASCII letter, a character of two UTF-16 units.
fn changes(n: usize, len: usize, ins: usize, abc: usize, kinds: bool) {
  let s = any_text(len, abc);
  let mut v = Vec::new();
  let mut want = s.clone();
  for _ in 0..n {
    let range = if kinds && any_bool() { cover("a full replacement"); None } else {
      let (a, b) = (any_pos(), any_pos());
      assume((a.line < b.line) | ((a.line == b.line) & (a.col <= b.col)));
      Some(RangeUtf16 { start: a, end: b })
    };
    let k = choose(ins as u64 + 1);
    let text = any_text(k, abc);
    if let Some(r) = range { if off_of(&want, r.start, START).is_some() && off_of(&want, r.end, START).is_some() { cover("a ranged change that applies"); } else { cover("a ranged change that is ignored"); } }
    apply1(&mut want, range, &text, START);
    v.push(apply_changes::Change { range, text });
  }
  let mut got = s;
  apply_changes::get(&mut got, v);
  check(got == want, "A01|the result is that of the changes applied one after another");
  trace_str(&got);
}
/// Changes far into a document.
fn far_changes(n: usize) {
  let (s, from) = far(n % 10);
  let mut want = s.clone();
  let mut v = Vec::new();
  for _ in 0..n / 10 {
    let a = any_pos_from(from);
    // nothing, or what is left
    let b = if any_bool() { a } else { pos_of(&want, want.len() as u32, from).unwrap() };
    assume((a.line < b.line) | ((a.line == b.line) & (a.col <= b.col)));
    let range = Some(RangeUtf16 { start: a, end: b });
    let text = any_text(choose(2), 3);
    apply1(&mut want, range, &text, from);
    v.push(apply_changes::Change { range, text });
  }
  let mut got = s;
  apply_changes::get(&mut got, v);
  check(got == want, "A01|the result is that of the changes applied one after another");
  cover("a change far into the document");
}
/// `n` changes of a document of some lines: most of them fixed, going back, forth and past the end, four of them
/// one of two.
fn many_changes(n: usize) {
  let s = "ab\ncd😀e\n\nfgh\ni\njkl\n".repeat(3);
  let mut want = s.clone();
  let mut v = Vec::new();
  let at = choose(3);
  for i in 0..n {
    let len = want.chars().count();
    let pick = if i % (n / 4) == at && any_bool() { 3 } else { 0 };
    // where the range starts and ends, in characters
    let a = match i % 5 { 0 => len, 1 | 2 => i * 7 % (len + 1), 3 => len.saturating_sub(i % 9), _ => len / 2 };
    let a = a.saturating_sub(pick);
    let b = match i % 4 { 0 | 1 => a, 2 => (a + 2).min(len), _ => (a + i % 6).min(len) };
    let pos = |k: usize| { let mut at = START; for c in want.chars().take(k) { at = step(at, c); } PositionUtf16 { line: at.1, col: at.2 } };
    let mut range = Some(RangeUtf16 { start: pos(a), end: pos(b) });
    if i % 11 == 10 { range = range.map(|r| RangeUtf16 { start: r.start, end: PositionUtf16 { line: r.end.line + 40, col: 0 } }); }
    let text = ["x", "\n", "", "y\nz", "😀", "w"][(i + i / 6) % 6].to_owned();
    apply1(&mut want, range, &text, START);
    v.push(apply_changes::Change { range, text });
  }
  let mut got = s;
  apply_changes::get(&mut got, v);
  check(got == want, "A01|the result is that of the changes applied one after another");
  cover("many changes");
}
/// Runs of equal characters: `a / 10` of them, each up to `a % 10` long.
fn runs(a: usize) -> String {
  let mut s = String::new();
  for _ in 0..a / 10 {
    let c = ['\n', 'a', 'é', '€', '😀'][choose(5)];
    for _ in 0..=choose(a as u64 % 10) { s.push(c); }
  }
  s
}
fn any_text(n: usize, abc: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    match choose(abc as u64) { 0 => s.push('\n'), 1 => s.push('a'), _ => s.push('😀') }
  }
  s
}

entries! {
  fn h_offset_to_pos(n) { offset_to_pos(&any_str_bytes(n), START) }
  fn h_pos_to_offset(n) { pos_to_offset(&any_str_bytes(n), START) }
  fn h_roundtrip(n) { roundtrip(&any_str_bytes(n), START) }
  fn h_ranges(n) { ranges(&any_str_bytes(n), START) }
  fn h_pos_ranges(n) { pos_ranges(&any_str_bytes(n), START) }
  fn h_long_offset_to_pos(n) { offset_to_pos(&long(n), START) }
  fn h_long_pos_to_offset(n) { pos_to_offset(&long(n), START) }
  fn h_long_ranges(n) { ranges(&long(n), START) }
  fn h_runs_offset_to_pos(a) { offset_to_pos(&runs(a), START) }
  fn h_runs_pos_to_offset(a) { pos_to_offset(&runs(a), START) }
  fn h_runs_roundtrip(a) { roundtrip(&runs(a), START) }
  fn h_runs_ranges(a) { ranges(&runs(a), START) }
  fn h_runs_pos_ranges(a) { pos_ranges(&runs(a), START) }
  fn h_far_offset_to_pos(n) { let (s, from) = far(n); offset_to_pos(&s, from) }
  fn h_far_pos_to_offset(n) { let (s, from) = far(n); pos_to_offset(&s, from) }
  fn h_far_roundtrip(n) { let (s, from) = far(n); roundtrip(&s, from) }
  fn h_far_ranges(n) { let (s, from) = far(n); ranges(&s, from) }
  fn h_far_lines(n) { let (s, _) = far(n); whole_lines(&s) }
  fn h_far_changes(n) { far_changes(n) }
  fn h_many_changes(n) { many_changes(n) }
  fn h_changes(a) { changes(a / 1000, a / 100 % 10, a / 10 % 10, a % 10, true) }
  fn h_ranged_changes(a) { changes(a / 1000, a / 100 % 10, a / 10 % 10, a % 10, false) }
}
