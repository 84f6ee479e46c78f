TP = 'text-pos/src/lib.rs'
AC = 'apply-changes/src/lib.rs'
TD = 'text-pos text-size-util'
bug('t-range-same-line', 'T03', [(TP, '''    Some(RangeUtf16 {
      start: self.position_to_utf16(range.start)?,
      end: self.position_to_utf16(range.end)?,
    })''', '''    let start = self.position_to_utf16(range.start)?;
    // most ranges are on one line: no need to look up the end as well.
    if range.start.line == range.end.line && range.start.col == start.col {
      let end = PositionUtf16 { line: start.line, col: start.col + (range.end.col - range.start.col) };
      return Some(RangeUtf16 { start, end });
    }
    Some(RangeUtf16 { start, end: self.position_to_utf16(range.end)? })''')],
  'a range on one line that starts before and ends after the first non-ASCII character of the line', 'The UTF-16 column of the end of the range counts bytes.', TD, r'''
use text_pos::{PositionDb, PositionUtf16};
fn main() {
  let db = PositionDb::new("ab\nx\u{e9}y\n");
  let r = db.range_utf16(text_size_util::TextRange::new(3.into(), 6.into())).unwrap();
  assert_eq!(r.start, PositionUtf16 { line: 1, col: 0 });
  assert_eq!(r.end, PositionUtf16 { line: 1, col: 2 });
}''')
bug('t-lines-blank', 'T03', [(TP, '    self.inner.lines(range)\n', '    self.inner.lines(range).filter(move |r| r.len() > TextSize::from(1) || *r == range)\n')],
  'a range of several lines one of which is blank or cut to one byte', 'Lines of one byte are missing from the lines of a range.', TD, r'''
use text_pos::PositionDb;
fn main() {
  let db = PositionDb::new("ab\n\ncd");
  let v: Vec<_> = db.lines(text_size_util::TextRange::new(0.into(), 6.into())).map(|r| (u32::from(r.start()), u32::from(r.end()))).collect();
  assert_eq!(v, [(0, 3), (3, 4), (4, 6)]);
}''')
bug('t-end-position', 'T03', [(TP, '''    let pos = self.position_utf8(self.len()).expect("len is in range");
''', '''    let all = TextRange::up_to(self.len());
    let last = self.inner.lines(all).last().unwrap_or(all);
    let pos = self.position_utf8(last.start()).expect("start of a line is in range");
    let pos = PositionUtf8 { line: pos.line, col: last.len().into() };
''')], 'a text that ends with a newline', 'The end position is on the last line with text and not on the empty one after it.', TD, r'''
use text_pos::{PositionDb, PositionUtf16};
fn main() {
  assert_eq!(PositionDb::new("ab\ncd").end_position_utf16(), PositionUtf16 { line: 1, col: 2 });
  let got = std::panic::catch_unwind(|| PositionDb::new("ab\n").end_position_utf16());
  assert_eq!(got.ok(), Some(PositionUtf16 { line: 1, col: 0 }));
}''')
bug('t-ascii-column', 'T01', [(TP, '''    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;
    Some(PositionUtf16 { line: wide.line, col: wide.col })''', '''    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;
    // a line on which wide columns fall behind by an even number of bytes has two-byte units only
    let col = if pos.col - wide.col == 6 { wide.col + 1 } else { wide.col };
    Some(PositionUtf16 { line: wide.line, col })''')],
  'a column after characters that together take six more bytes than UTF-16 units', 'The column is one too large there.', TD, r'''
use text_pos::{PositionDb, PositionUtf16};
fn main() {
  let db = PositionDb::new("\u{20ac}\u{20ac}\u{20ac}x");
  assert_eq!(db.position_utf16(9.into()), Some(PositionUtf16 { line: 0, col: 3 }));
}''')
bug('t-end-inside', 'T01', [(TP, '''    let lc = self.inner.try_line_col(text_size)?;
''', '''    // the end of the text is always a boundary
    let lc = self.inner.try_line_col(text_size.min(self.len()))?;
''')], 'an offset after the end of the text', 'An offset out of bounds gets the end position instead of none.', TD, r'''
use text_pos::PositionDb;
fn main() { assert_eq!(PositionDb::new("ab").position_utf16(3.into()), None); }''')
bug('t-next-line-start', 'T02', [(TP, '''    Some(TextRange::new(self.text_size_utf8(range.start)?, self.text_size_utf8(range.end)?))''', '''    let start = self.text_size_utf8(range.start)?;
    // the start of a line is the end of the one before, which is likely the line of the start
    let end = if range.end.col == 0 && range.end.line == range.start.line + 1 {
      start.max(self.inner.line(range.start.line)?.end())
    } else {
      self.text_size_utf8(range.end)?
    };
    Some(TextRange::new(start, end))''')], 'a range from the last line to column 0 of a line that does not exist', 'A range whose end is not in the text is converted.', TD, r'''
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
fn main() {
  let db = PositionDb::new("ab\ncd");
  let r = RangeUtf16 { start: PositionUtf16 { line: 1, col: 1 }, end: PositionUtf16 { line: 2, col: 0 } };
  assert_eq!(db.text_range_utf16(r), None);
  let r = RangeUtf16 { start: PositionUtf16 { line: 0, col: 1 }, end: PositionUtf16 { line: 1, col: 0 } };
  assert_eq!(db.text_range_utf16(r).map(|r| u32::from(r.len())), Some(2));
}''')
bug('t-surrogate', 'T02', [(TP, '''    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;
    Some(PositionUtf8 { line: lc.line, col: lc.col })''', '''    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;
    let at = PositionUtf8 { line: lc.line, col: lc.col };
    // between two surrogates: move to the end of the character
    let col = if lc.col % 4 == 3 && self.text_size_utf8(at).is_none() { lc.col + 1 } else { lc.col };
    Some(PositionUtf8 { line: lc.line, col })''')], 'a position between the two surrogates of a character at an offset within the line that is a multiple of four', 'Such a position is moved to the end of the character instead of being refused.', TD, r'''
use text_pos::{PositionDb, PositionUtf16};
fn main() {
  let db = PositionDb::new("\u{1f600}x");
  assert_eq!(db.text_size_utf16(PositionUtf16 { line: 0, col: 1 }), None);
}''')
bug('a-stale-same-line', 'A01', [(AC, 'if index_valid <= range.end.line {', 'if index_valid < range.end.line {')],
  'two ranged changes of which the second ends on the line on which the first starts, after it', 'The second change is placed with the index of the old text.', 'apply-changes text-pos', r'''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
use apply_changes::{get, Change};
fn main() {
  let mut s = String::from("abc\n");
  let ch = |a, b, t: &str| Change { range: Some(R { start: P { line: 0, col: a }, end: P { line: 0, col: b } }), text: t.to_owned() };
  get(&mut s, vec![ch(0, 0, "\u{e9}"), ch(1, 2, "X")]);
  assert_eq!(s, "\u{e9}Xbc\n");
}''')
bug('a-first-full', 'A01', [(AC, '.rposition(|change|', '.position(|change|')],
  'a list with two full replacements', 'The first full replacement wins.', 'apply-changes text-pos', r'''
use apply_changes::{get, Change};
fn main() {
  let mut s = String::from("abc");
  get(&mut s, vec![Change { range: None, text: "x".into() }, Change { range: None, text: "y".into() }]);
  assert_eq!(s, "y");
}''')
bug('a-valid-end', 'A01', [(AC, 'index_valid = range.start.line;', 'index_valid = range.end.line;')],
  'a change over several lines followed by one that ends on a line between its start and its end', 'The second change is placed with the index of the old text.', 'apply-changes text-pos', r'''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
use apply_changes::{get, Change};
fn main() {
  let mut s = String::from("a\nb\nc\n");
  get(&mut s, vec![
    Change { range: Some(R { start: P { line: 0, col: 1 }, end: P { line: 2, col: 0 } }), text: String::from("12345") },
    Change { range: Some(R { start: P { line: 0, col: 3 }, end: P { line: 0, col: 4 } }), text: String::from("-") },
  ]);
  assert_eq!(s, "a12-45c\n");
}''')
