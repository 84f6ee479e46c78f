//! What harnesses use to talk to the symbolic executor. With the `native` feature the same harness
//! runs as an ordinary program on given inputs, to replay a counterexample or a sampled path.

#[cfg(not(feature = "native"))]
mod rt {
  unsafe extern "C" {
    pub fn sym_input(width: u64) -> u64;
    pub fn sym_assume(b: bool);
    pub fn sym_assert(b: bool, p: *const u8, n: usize);
    pub fn sym_cover(p: *const u8, n: usize);
    pub fn sym_concretize(x: u64) -> u64;
    pub fn sym_trace(x: u64);
    pub fn sym_may_panic(b: bool);
  }
}
#[cfg(feature = "native")]
#[path = "native.rs"]
mod rt;
#[cfg(feature = "native")]
pub use rt::replay_main;

/// An arbitrary value of the given width in bits.
#[inline(always)]
pub fn bits(width: u64) -> u64 { unsafe { rt::sym_input(width) } }
#[inline(always)]
pub fn any_u8() -> u8 { bits(8) as u8 }
#[inline(always)]
pub fn any_u16() -> u16 { bits(16) as u16 }
#[inline(always)]
pub fn any_u32() -> u32 { bits(32) as u32 }
#[inline(always)]
pub fn any_u64() -> u64 { bits(64) }
#[inline(always)]
pub fn any_bool() -> bool { bits(1) != 0 }
/// An arbitrary value below `n`.
#[inline(always)]
pub fn below(n: u64) -> u64 {
  let w = 64 - (n - 1).leading_zeros() as u64;
  if w == 0 { return 0; }
  let x = bits(w);
  assume(x < n);
  x
}
/// An arbitrary choice below `n`, one path per value.
#[inline(always)]
pub fn choose(n: u64) -> usize { fix(below(n)) as usize }
/// Any Unicode scalar value.
#[inline(always)]
pub fn any_char() -> char {
  let x = bits(21) as u32;
  assume(x < 0xD800 || (x > 0xDFFF && x <= 0x10FFFF));
  unsafe { char::from_u32_unchecked(x) }
}
#[inline(always)]
pub fn assume(b: bool) { unsafe { rt::sym_assume(b) } }
#[inline(always)]
pub fn check(b: bool, msg: &'static str) { unsafe { rt::sym_assert(b, msg.as_ptr(), msg.len()) } }
/// Marks a situation the exploration must reach (otherwise the check is vacuous and fails).
#[inline(always)]
pub fn cover(msg: &'static str) { unsafe { rt::sym_cover(msg.as_ptr(), msg.len()) } }
/// One path per feasible value.
#[inline(always)]
pub fn fix(x: u64) -> u64 { unsafe { rt::sym_concretize(x) } }
/// Records a value of the run, compared between the symbolic and the native execution.
#[inline(always)]
pub fn trace(x: u64) { unsafe { rt::sym_trace(x) } }
#[inline(always)]
pub fn may_panic(b: bool) { unsafe { rt::sym_may_panic(b) } }

/// An arbitrary string of exactly `n` scalar values, each encoded in as many bytes as `widths`
/// picks: one path per choice of encoded lengths, the contents symbolic.
pub fn any_string(n: usize) -> String {
  let mut v = Vec::with_capacity(4 * n);
  for _ in 0..n { push_any_char(&mut v); }
  unsafe { String::from_utf8_unchecked(v) }
}
/// Pushes the UTF-8 encoding of an arbitrary scalar value (the encoded length is concrete).
pub fn push_any_char(v: &mut Vec<u8>) {
  match choose(4) {
    0 => v.push(bits(7) as u8),
    1 => {
      let (a, b) = (bits(5) as u8, bits(6) as u8);
      assume(a >= 2);
      v.extend_from_slice(&[0xC0 | a, 0x80 | b]);
    }
    2 => {
      let (a, b, c) = (bits(4) as u8, bits(6) as u8, bits(6) as u8);
      assume((a != 0) | (b >= 0x20));
      assume((a != 13) | (b < 0x20));
      v.extend_from_slice(&[0xE0 | a, 0x80 | b, 0x80 | c]);
    }
    _ => {
      let (a, b, c, d) = (bits(3) as u8, bits(6) as u8, bits(6) as u8, bits(6) as u8);
      assume(a <= 4);
      assume((a != 0) | (b >= 0x10));
      assume((a != 4) | (b < 0x10));
      v.extend_from_slice(&[0xF0 | a, 0x80 | b, 0x80 | c, 0x80 | d]);
    }
  }
}
/// An arbitrary string whose encoding has exactly `n` bytes.
pub fn any_str_bytes(n: usize) -> String {
  let mut v = Vec::with_capacity(n + 4);
  while v.len() < n {
    push_any_char(&mut v);
    assume(v.len() <= n);
  }
  unsafe { String::from_utf8_unchecked(v) }
}
/// An arbitrary ASCII string of length `n`.
pub fn any_ascii(n: usize) -> String {
  let mut v = Vec::with_capacity(n);
  for _ in 0..n { v.push(bits(7) as u8); }
  unsafe { String::from_utf8_unchecked(v) }
}
pub fn trace_str(s: &str) {
  trace(s.len() as u64);
  for b in s.bytes() { trace(b.into()); }
}

/// A map key whose hash is the same for all values, so that a hash table's layout stays concrete and
/// only key equality is symbolic.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Key(pub u8);
impl std::hash::Hash for Key {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u8(0); }
}

/// Declares the entry points of a harness.
#[macro_export]
macro_rules! entries {
  ($($(#[$m:meta])* fn $n:ident($a:ident) $b:block)*) => {
    $( $(#[$m])* #[unsafe(no_mangle)] pub extern "C" fn $n($a: u64) { let $a = $a as usize; let _ = $a; $b } )*
    #[allow(dead_code)]
    pub static ENTRIES: &[(&str, extern "C" fn(u64))] = &[$((stringify!($n), $n)),*];
  };
}

/// The keys of std's hash maps are the same in every run.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
  for i in 0..n { unsafe { p.add(i).write(0x5a ^ (i as u8).wrapping_mul(29)); } }
  n as isize
}
