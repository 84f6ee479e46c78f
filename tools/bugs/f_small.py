REL = '\n[profile.dev]\ndebug-assertions = false\noverflow-checks = false\n'
SPF = 'str-process/src/lib.rs'
bug('s-eat-part', 'S01', [(SPF, '''    let end = self.idx + prefix.len();
    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {
      self.idx = end;
      true
    } else {
      false
    }''', '''    for &b in prefix {
      if self.cur() != Some(b) {
        return false;
      }
      self.bump();
    }
    true''')], 'a prefix of which only the start is there', 'The start is eaten.', 'str-process', r'''
fn main() {
  let mut s = str_process::St::new("ab");
  assert!(!s.eat_prefix(b"ac"));
  assert_eq!(s.cur_idx(), 0);
}''')
bug('s-next-width', 'S01', [(SPF, '''    self.bump();
    loop {
      if self.s.is_char_boundary(self.idx) {
        break;
      }
      match self.cur() {
        Some(_) => self.bump(),
        None => unreachable!("got to the end without a valid str"),
      }
    }''', '''    self.idx += match self.cur() {
      Some(0xF0..) => 4,
      Some(0xE0..) => 3,
      Some(0xC0..) => 2,
      _ => 1,
    };''')], 'going to the next boundary from inside of a character', 'The index is not at a boundary.', 'str-process', r'''
fn main() {
  let mut s = str_process::St::new("\u{20AC}x");
  s.bump();
  s.next_str();
  assert_eq!(s.cur_idx(), 3);
}''')
bug('s-mark-end', 'S02', [(SPF, '''    m.bomb.defuse();
    self.idx > m.idx''', '''    m.bomb.defuse();
    self.cur().is_some() && self.idx > m.idx''')], 'asking whether the state was bumped, at the end of the text', 'It says no.', 'str-process', r'''
fn main() {
  let mut s = str_process::St::new("a");
  let m = s.mark();
  s.bump();
  assert!(s.did_bump_since(m));
}''')
bug('s-while-nul', 'S01', [(SPF, '''    while let Some(b) = self.cur() {
      if cond(b) {
        self.bump();
      } else {
        break;
      }
    }''', '''    let rest = &self.s.as_bytes()[self.idx..];
    if let Some(n) = rest.iter().position(|&b| !cond(b)) {
      self.idx += n;
    }''')], 'a condition that holds up to the end of the text', 'The state does not move.', 'str-process', r'''
fn main() {
  let mut s = str_process::St::new("aa");
  s.bump_while(|b| b == b'a');
  assert_eq!(s.cur_idx(), 2);
}''')
ICF = 'identifier-case/src/lib.rs'
bug('i-unicode-lower', 'I01', [(ICF, '''      ret.push(c.to_ascii_uppercase());
    } else {''', '''      ret.extend(c.to_uppercase());
    } else {''')], 'a word that starts with a letter outside of ASCII', 'It is converted to upper case.', 'identifier-case', r'''
fn main() { assert_eq!(identifier_case::snake_to_pascal("\u{e9}t\u{e9}"), "\u{e9}t\u{e9}"); }''')
bug('i-acronym', 'I02', [(ICF, '''  for c in cs {
    if c.is_ascii_uppercase() {
      ret.push('_');
    }''', '''  let mut after_digit = false;
  for c in cs {
    if c.is_ascii_uppercase() && !after_digit {
      ret.push('_');
    }
    after_digit = c.is_ascii_digit();''')], 'an upper-case letter after a digit', 'No underscore is put before it.', 'identifier-case', r'''
fn main() { assert_eq!(identifier_case::pascal_to_snake("Utf16Pos"), "utf16_pos"); }''')
bug('i-under-digit', 'I03', [(ICF, '''    if c == '_' {
      is_cap = true;''', '''    if c == '_' && !is_cap {
      is_cap = true;
    } else if c.is_ascii_digit() {
      is_cap = true;
      ret.push(c);
    } else if c == '_' {''')], 'a lower-case letter after a digit', 'It is converted to upper case.', 'identifier-case', r'''
fn main() { assert_eq!(identifier_case::snake_to_pascal(&identifier_case::pascal_to_snake("A1b")), "A1b"); }''')
bug('n-tick', 'N01', [('char-name/src/lib.rs', ''''`' => "Tick",''', ''''`' | '\\'' => "Tick",''')], 'a quote', 'It has the name of another character.', 'char-name', r'''
fn main() { assert!(char_name::get_opt('\'') != char_name::get_opt('`')); }''')
bug('r-blank', 'R01', [('str-util/src/lib.rs', '''(!s.is_empty()).then_some(Self(s))''', '''(!s.trim().is_empty()).then_some(Self(s))''')], 'a string of blanks only', 'No name is made of it.', 'str-util', r'''
fn main() { assert!(str_util::Name::try_new(" ").is_some()); }''')
bug('x-cast', 'X01', [('idx/src/lib.rs', '''Self(n.try_into().expect("couldn't convert to Idx"))''', '''debug_assert!(u32::try_from(n).is_ok(), "couldn't convert to Idx");
    Self(n as u32)''')], 'a number that needs more than 32 bits, in a release build', 'It is cut off silently.', 'idx', r'''
fn main() { assert!(std::panic::catch_unwind(|| idx::Idx::new(1 << 32)).is_err()); }''', REL)
bug('u-wrap', 'U01', [('uniq/src/lib.rs', '''    self.0 += 1;''', '''    self.0 = (self.0 + 1) % 0xff;''')], 'more than 255 identifiers', 'The identifiers repeat.', 'uniq', r'''
fn main() {
  let mut m = uniq::UniqMk::default();
  let a = m.mk();
  for _ in 0..300 { assert_ne!(m.mk(), a); }
}''')
bug('d-code-space', 'D01', [('diagnostic/src/lib.rs', '''match u16::from_str(s) {''', '''match u16::from_str(s.trim_end()) {''')], 'a number with blanks after it', 'It is read as a code.', 'diagnostic', r'''
fn main() { assert!("12 ".parse::<diagnostic::Code>().is_err()); }''')
bug('d-code-pad', 'D01', [('diagnostic/src/lib.rs', '''    self.0.fmt(f)''', '''    write!(f, "{:04}", self.0)''')], 'a code below 1000', 'It is printed with zeros before it.', 'diagnostic', r'''
fn main() { assert_eq!(diagnostic::Code::n(999).to_string(), "999"); }''')
bug('d-range-order', 'D02', [('text-pos/src/lib.rs', '''if self.start.line == self.end.line {''', '''if self.start.line == self.end.line || self.end.col == 0 {''')], 'a range over lines that ends at the start of one', 'The line of its end is left out.', 'text-pos', r'''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
fn main() { assert_eq!(R { start: P { line: 0, col: 0 }, end: P { line: 1, col: 0 } }.to_string(), "1:1-2:1"); }''')
bug('d-message-line', 'D03', [('diagnostic/src/lib.rs', '''write!(f, "{}: {}: {}", self.range, self.severity, self.message)''', '''write!(f, "{}: {}: {}", self.range, self.severity, self.message.trim_end())''')], 'a message that ends in a blank or a newline', 'The end of the message is not printed.', 'diagnostic text-pos', r'''
fn main() {
  let d = diagnostic::Diagnostic { range: text_pos::RangeUtf16::zero(text_pos::PositionUtf16 { line: 0, col: 0 }), message: "x\n".to_owned(), severity: diagnostic::Severity::Error };
  assert!(d.to_string().ends_with("x\n"));
}''')
SHOW = r'''
struct S<'a>(&'a [f64]);
impl std::fmt::Display for S<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_util::comma_seq(f, self.0.iter()) } }
'''
bug('m-options', 'M01', [('fmt-util/src/lib.rs', '''    f.write_str(sep)?;
    x.fmt(f)?;''', '''    write!(f, "{sep}{x}")?;''')], 'a sequence printed with options', 'They do not apply to the items after the first.', 'fmt-util', SHOW + r'''
fn main() { assert_eq!(format!("{:.1}", S(&[1.0, 2.0])), "1.0, 2.0"); }''')
bug('m-first-error', 'M01', [('fmt-util/src/lib.rs', '''  if let Some(x) = iter.next() {
    x.fmt(f)?;
  }''', '''  let mut res = Ok(());
  if let Some(x) = iter.next() {
    res = x.fmt(f);
  }'''), ('fmt-util/src/lib.rs', '''    x.fmt(f)?;
  }
  Ok(())''', '''    res = x.fmt(f);
  }
  res''')], 'an item that fails but for the last', 'The error is lost.', 'fmt-util', r'''
use std::fmt::{Display, Error, Formatter, Result, Write};
struct Bad(bool);
impl Display for Bad { fn fmt(&self, _: &mut Formatter<'_>) -> Result { if self.0 { Err(Error) } else { Ok(()) } } }
struct S;
impl Display for S { fn fmt(&self, f: &mut Formatter<'_>) -> Result { fmt_util::comma_seq(f, [Bad(true), Bad(false)].into_iter()) } }
fn main() { assert!(write!(String::new(), "{S}").is_err()); }''')
bug('h-set-dup', 'H01', [('fast-hash/src/lib.rs', '''    assert!(ret.insert(k));''', '''    let new = ret.insert(k);
    debug_assert!(new);''')], 'duplicates in a release build', 'They do not panic.', 'fast-hash', r'''
fn main() { assert!(std::panic::catch_unwind(|| fast_hash::set([1, 1])).is_err()); }''', REL)
bug('z-cast', 'Z01', [('text-size-util/src/lib.rs', '''TextSize::try_from(n).expect("could not make text size")''', '''TextSize::from(u32::try_from(n).unwrap_or(u32::MAX))''')], 'a number that needs more than 32 bits', 'It becomes the largest size.', 'text-size-util', r'''
fn main() { assert!(std::panic::catch_unwind(|| text_size_util::mk_text_size(1 << 32)).is_err()); }''')
bug('l-info-only', 'L02', [('elapsed/src/lib.rs', '''  log::info!("{msg}: {elapsed:?}");''', '''  if !elapsed.is_zero() {
    log::info!("{msg}: {elapsed:?}");
  }''')], 'a call that takes no time on the clock', 'Nothing is logged.', 'elapsed log:"0.4.20"', r'''
use std::sync::atomic::{AtomicU32, Ordering};
static N: AtomicU32 = AtomicU32::new(0);
struct Lg;
impl log::Log for Lg { fn enabled(&self, _: &log::Metadata<'_>) -> bool { true } fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, Ordering::Relaxed); } fn flush(&self) {} }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 { unsafe { *t = [1, 1]; } 0 }
fn main() {
  log::set_logger(&Lg).unwrap();
  log::set_max_level(log::LevelFilter::Info);
  elapsed::log("x", || ());
  assert_eq!(N.load(Ordering::Relaxed), 1);
}''')
bug('l-subsec', 'L01', [('elapsed/src/lib.rs', '''  (res, elapsed)
''', '''  (res, Duration::from_nanos(elapsed.subsec_nanos().into()))
''')], 'a call of more than a second', 'The seconds are lost.', 'elapsed', r'''
static mut N: i64 = 0;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 { unsafe { *t = [N, 1]; } 0 }
fn main() { assert_eq!(elapsed::time(|| unsafe { N = 2 }).1.as_secs(), 2); }''')
bug('w-twice', 'W01', [('always/src/lib.rs', '''    if !cond {
''', '''    if !$cond {
''')], 'a condition with an effect', 'The effect happens twice.', 'always log:"0.4.20"', r'''
fn main() {
  let mut n = 0;
  assert!(always::always!({ n += 1; n < 5 }));
  assert_eq!(n, 1);
}''')
bug('w-release-false', 'W01', [('always/src/lib.rs', '''      $crate::__log_error!($fmt $($arg)*);
    }
    cond''', '''      $crate::__log_error!($fmt $($arg)*);
    }
    true''')], 'a false condition in a release build', 'The result is true.', 'always log:"0.4.20"', r'''
fn main() { let n = std::env::args().count(); assert!(!always::always!(n > 100)); }''', REL)
bug('w-wrap', 'W02', [('always/src/convert.rs', '''      always!(false, "convert {n} to u32: {e}");
      u32::MAX''', '''      always!(false, "convert {n} to u32: {e}");
      n as u32''')], 'a number that needs more than 32 bits, in a release build', 'It is cut off.', 'always log:"0.4.20"', r'''
fn main() { assert_eq!(always::convert::usize_to_u32(1 << 32), u32::MAX); }''', REL)
KF = 'code-h2-md-map/src/lib.rs'
bug('k-crlf', 'K01', [(KF, '''md.lines()''', '''md.split_terminator('\\n')''')], 'lines that end in a carriage return and a newline', 'Headings are not found, and texts keep the carriage return.', 'code-h2-md-map', r'''
fn main() { assert_eq!(code_h2_md_map::get("## `a`\r\nb\r\n", |_| String::new())["a"], "\nb"); }''')
bug('k-tick', 'K01', [(KF, '''  if ret == "` ` `" {
    ret = "`";
  }''', '''  // code with backticks in it has blanks and more backticks around it
  if let Some(s) = ret.strip_prefix("` ").and_then(|s| s.strip_suffix(" `")) {
    ret = s;
  }''')], 'a heading of code in double backticks other than a single one', 'Its key is another.', 'code-h2-md-map', r'''
fn main() { assert!(code_h2_md_map::get("## `` x ``", |_| String::new()).contains_key("` x `")); }''')
bug('k-last-empty', 'K01', [(KF, '''  if let Some(key) = key {
    assert!(ret.insert(key, val).is_none());
  }
  ret''', '''  if let Some(key) = key {
    ret.entry(key).or_insert(val);
  }
  ret''')], 'the last heading is one that came before', 'It does not panic; its text is lost.', 'code-h2-md-map', r'''
fn main() { assert!(std::panic::catch_unwind(|| code_h2_md_map::get("## `a`\n## `a`\nx", |_| String::new())).is_err()); }''')
