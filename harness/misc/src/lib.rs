//! idx, uniq, diagnostic, fmt-util, fast-hash, text-size-util, elapsed, always, code-h2-md-map.
use std::fmt::{self, Display, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use sym::*;

// --- a clock made of inputs

/// Seconds and nanoseconds.
static NOW: std::sync::Mutex<(u64, u64)> = std::sync::Mutex::new((1, 5));
/// 0: stands still; 1: every reading is later than or the same as the one before.
static RUNS: AtomicU64 = AtomicU64::new(0);
fn now() -> (u64, u64) { *NOW.lock().unwrap() }
fn tick(d: (u64, u64)) {
  let mut t = NOW.lock().unwrap();
  let ns = t.1 + d.1;
  *t = if ns >= 1_000_000_000 { (t.0 + d.0 + 1, ns - 1_000_000_000) } else { (t.0 + d.0, ns) };
}
fn any_time() -> (u64, u64) {
  let d = (bits(34), bits(30));
  assume(d.1 < 1_000_000_000);
  d
}
/// From `a` to `b`, which is not earlier.
fn minus(b: (u64, u64), a: (u64, u64)) -> (u64, u64) { if b.1 >= a.1 { (b.0 - a.0, b.1 - a.1) } else { (b.0 - a.0 - 1, b.1 + 1_000_000_000 - a.1) } }

/// The clock on the wall (0) may be set at any time.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32 {
  if clock == 0 {
    let n = any_time();
    unsafe { *ts = [n.0 as i64, n.1 as i64]; }
    return 0;
  }
  if RUNS.load(Ordering::Relaxed) == 1 { tick(any_time()); }
  let n = now();
  unsafe { *ts = [n.0 as i64, n.1 as i64]; }
  0
}

// --- a logger that keeps what it is given

struct Keep;
static KEPT: std::sync::Mutex<Vec<(log::Level, String)>> = std::sync::Mutex::new(Vec::new());
static TEXTS: AtomicU64 = AtomicU64::new(1);
impl log::Log for Keep {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
  fn log(&self, r: &log::Record<'_>) {
    let t = if TEXTS.load(Ordering::Relaxed) == 1 { r.args().to_string() } else { String::new() };
    KEPT.lock().unwrap().push((r.level(), t));
  }
  fn flush(&self) {}
}
fn logger(max: log::LevelFilter) {
  let _ = log::set_logger(&Keep);
  log::set_max_level(max);
}
fn kept() -> Vec<(log::Level, String)> { std::mem::take(&mut *KEPT.lock().unwrap()) }

fn parts(d: std::time::Duration) -> (u64, u64) { (d.as_secs(), d.subsec_nanos().into()) }

fn timed() {
  let (inside, x) = (any_time(), any_u32());
  let mut calls = 0;
  let (r, d) = elapsed::time(|| { calls += 1; tick(inside); x });
  check(r == x, "L01|timing a call gives its result");
  check(calls == 1, "L01|timing a call makes it exactly once");
  check(parts(d) == inside, "L01|the duration is the time that passed during the call");
  if inside.0 > 0 { cover("more than a second"); }
  trace(parts(d).0);
  trace(parts(d).1);
}
fn timed_running() {
  RUNS.store(1, Ordering::Relaxed);
  let before = now();
  let (mut c1, mut c2) = ((0, 0), (0, 0));
  let inside = any_time();
  let ((), d) = elapsed::time(|| { c1 = now(); tick(inside); c2 = now(); });
  let after = now();
  check(parts(d) >= minus(c2, c1), "L01|the duration is at least the time spent in the call");
  check(parts(d) <= minus(after, before), "L01|the duration is at most the time since before the call");
  cover("a running clock");
  trace(parts(d).0);
  trace(parts(d).1);
}
fn logged() {
  let levels = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace];
  let max = levels[choose(6)];
  // the call may change the level
  let before = if any_bool() { max } else { cover("the level changes during the call"); levels[choose(6)] };
  logger(before);
  let times = [(0, 0), (0, 1), (0, 999), (0, 1_000), (0, 1_500_000), (0, 999_999_999), (1, 0), (61, 1)];
  let inside = times[choose(8)];
  let msg = any_str_bytes(choose(3));
  let x = any_u32();
  let mut calls = 0;
  let r = elapsed::log(&msg, || { calls += 1; check(KEPT.lock().unwrap().is_empty(), "L02|nothing is logged before the call returns"); log::set_max_level(max); tick(inside); x });
  check(r == x, "L02|logging a call gives its result");
  check(calls == 1, "L02|logging a call makes it exactly once");
  let k = kept();
  if max < log::LevelFilter::Info { check(k.is_empty(), "L02|nothing is logged below the info level"); cover("not logged"); return; }
  check(k.len() == 1 && k[0].0 == log::Level::Info, "L02|one message is logged, at the info level");
  check(k[0].1 == format!("{msg}: {:?}", std::time::Duration::new(inside.0, inside.1 as u32)), "L02|the message and the duration are logged");
  cover("logged");
  trace_str(&k[0].1);
}

fn always_() {
  logger(log::LevelFilter::Trace);
  let c = any_bool();
  let mut evals = 0;
  let with_text = any_bool();
  let x = any_u8();
  may_panic(cfg!(debug_assertions) && !c);
  let r = if with_text { always::always!({ evals += 1; c }, "x is {}", fix(u64::from(x & 3))) } else { always::always!({ evals += 1; c }) };
  may_panic(false);
  check(evals == 1, "W01|the condition is evaluated exactly once");
  check(r == c, "W01|the condition is the result");
  check(c || !cfg!(debug_assertions), "W01|a false condition panics in a debug build");
  let k = kept();
  if c { check(k.is_empty(), "W01|nothing is logged for a true condition"); cover("true"); }
  else {
    cover("false, in a release build");
    check(k.len() == 1 && k[0].0 == log::Level::Error, "W01|a false condition is logged once, as an error");
    if with_text { check(k[0].1 == format!("x is {}", x & 3), "W01|the text given is what is logged"); } else { check(k[0].1.starts_with("assertion failed: "), "W01|the condition is what is logged"); }
  }
}
fn converts() {
  logger(log::LevelFilter::Trace);
  TEXTS.store(0, Ordering::Relaxed);
  let n = any_u64() as usize;
  let fits = n <= u32::MAX as usize;
  may_panic(cfg!(debug_assertions) && !fits);
  let r = always::convert::usize_to_u32(n);
  may_panic(false);
  check(fits || !cfg!(debug_assertions), "W02|a number that does not fit panics in a debug build");
  check(r == if fits { n as u32 } else { u32::MAX }, "W02|a number that fits converts to itself, another to the largest one");
  let k = kept();
  check(k.len() == usize::from(!fits) && k.iter().all(|k| k.0 == log::Level::Error), "W02|exactly a number that does not fit is logged as an error");
  if fits { cover("fits"); } else { cover("does not fit, in a release build"); }
  let m = any_u32();
  check(always::convert::u32_to_usize(m) == m as usize, "W02|every 32-bit number converts to itself");
  check(kept().is_empty(), "W02|nothing is logged for a 32-bit number");
  trace(r.into());
}

fn idx_() {
  let n = any_u64() as usize;
  may_panic(n > u32::MAX as usize);
  let i = idx::Idx::new(n);
  may_panic(false);
  check(n <= u32::MAX as usize, "X01|an index is made of exactly the numbers of 32 bits");
  check(i.to_usize() == n, "X01|an index converts back to its number");
  let m = any_u32();
  let j = idx::Idx::new_u32(m);
  check(j.to_usize() == m as usize, "X01|an index of a 32-bit number converts back to it");
  check((i == j) == (n == m as usize), "X01|indices are equal exactly when their numbers are");
  check(i.cmp(&j) == n.cmp(&(m as usize)), "X01|indices are ordered as their numbers");
  if i == j { cover("equal indices"); } else { cover("different indices"); }
  trace(j.to_usize() as u64);
}
fn idx_map(k: usize) {
  let mut m: nohash_hasher::IntMap<idx::Idx, usize> = nohash_hasher::IntMap::default();
  let mut model: Vec<(u32, usize)> = Vec::new();
  for v in 0..k {
    let n = fix(u64::from(bits(2) as u32)) as u32;
    let old = model.iter().position(|x| x.0 == n).map(|p| model.remove(p).1);
    check(m.insert(idx::Idx::new_u32(n), v) == old, "X01|indices work as keys of the map made for them");
    model.push((n, v));
  }
  check(m.len() == model.len(), "X01|a map by index has an entry for each number");
}

fn uniqs(k: usize) {
  let mut mk = uniq::UniqMk::default();
  let mut seen = Vec::new();
  for _ in 0..k { seen.push(mk.mk()); }
  // any two of them
  let (i, j) = (below(k as u64) as usize, below(k as u64) as usize);
  let (a, b) = (seen[i], seen[j]);
  check((a == b) == (i == j), "U01|unique identifiers are equal to themselves only");
  check((a.cmp(&b) == std::cmp::Ordering::Equal) == (i == j), "U01|the order of unique identifiers is that of equality");
  check((rec(&a) == rec(&b)) == (i == j), "U01|unique identifiers hash as they are equal");
  if k <= 4 { check((a.to_string() == b.to_string()) == (i == j), "U01|different unique identifiers are printed differently"); }
  cover("unique identifiers");
  trace(u64::from(a == b));
}
/// A long history: each is new among all before it.
fn uniqs_long(k: usize) {
  let mut mk = uniq::UniqMk::default();
  let mut seen = std::collections::BTreeSet::new();
  // a copy made anywhere is still the same
  let at = choose(3) * (k / 3);
  let mut copy = None;
  for i in 0..k {
    let u = mk.mk();
    check(seen.insert(u), "U01|an identifier differs from all made before");
    if i == at { copy = Some(u); }
  }
  check(seen.contains(&copy.unwrap()), "U01|a copy is equal to the identifier");
  check(seen.len() == k, "U01|as many identifiers as were made");
  cover("a long history");
}
/// So many that nothing smaller than 32 bits counts them.
fn uniqs_many(bits: usize) {
  let mut mk = uniq::UniqMk::default();
  let mut seen = Vec::new();
  let mut last = None;
  for i in 0..(1u32 << bits) + 3 {
    let u = mk.mk();
    check(last != Some(u), "U01|an identifier differs from all made before");
    last = Some(u);
    // those around powers of two
    if i.wrapping_add(2).is_power_of_two() || i.wrapping_add(1).is_power_of_two() || i < 2 || i.is_power_of_two() || (i - 1).is_power_of_two() { seen.push(u); }
  }
  seen.push(mk.mk());
  for (i, a) in seen.iter().enumerate() { for b in &seen[..i] { check(a != b, "U01|an identifier differs from all made before"); } }
  cover("a very long history");
}
#[derive(Default)]
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
  fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
  fn finish(&self) -> u64 { 0 }
}
fn rec<T: std::hash::Hash + ?Sized>(t: &T) -> Vec<u8> {
  let mut r = Rec::default();
  t.hash(&mut r);
  r.0
}

/// The number a text of digits denotes.
fn digits(s: &[u8]) -> Option<u64> {
  let mut n = 0u64;
  for b in s { if !b.is_ascii_digit() { return None; } n = n * 10 + u64::from(b - b'0'); }
  if s.is_empty() { None } else { Some(n) }
}
fn code_parse(n: usize) {
  let s = any_str_bytes(n);
  let got = s.parse::<diagnostic::Code>();
  let t = s.as_bytes();
  let want = digits(t.strip_prefix(b"+").unwrap_or(t)).filter(|n| *n <= 65535);
  match (&got, want) {
    (Ok(c), Some(n)) => { check(c.as_i32() == n as i32, "D01|a code is the number of its digits"); check(*c == diagnostic::Code::n(n as u16), "D01|a code read is the code of the number"); trace(n); cover("a code"); }
    (Err(e), None) => { check(std::error::Error::source(e).is_some(), "D01|the error has its cause"); trace(1 << 20); cover("not a code"); }
    _ => check(false, "D01|exactly the decimal numbers of 16 bits are codes"),
  }
}
fn code_print(arg: usize) {
  // one path for each twelve high bits, the low ones symbolic: those around which the count of digits
  // changes and one in 32 others, or all
  let hi = if arg == 0 { if any_bool() { [0, 6, 62, 624, 4095][choose(5)] } else { (choose(128) as u64) << 5 | 21 } } else { fix(bits(6)) << 6 | fix(bits(6)) };
  let n = (hi << 4) as u16 | bits(4) as u16;
  let c = diagnostic::Code::n(n);
  check(c.as_i32() == i32::from(n), "D01|a code is the number it was made of");
  let s = c.to_string();
  check(digits(s.as_bytes()) == Some(n.into()) && (s.len() == 1 || s.as_bytes()[0] != b'0'), "D01|a code is printed as its decimal number");
  check(s.parse::<diagnostic::Code>().ok() == Some(c), "D01|a code printed reads back as itself");
  let m = any_u16();
  let d = diagnostic::Code::n(m);
  check((c == d) == (n == m) && c.cmp(&d) == n.cmp(&m), "D01|codes are equal and ordered as their numbers");
  cover("a code printed");
  trace_str(&s);
}
/// Numbers around which the count of digits changes, and the largest.
fn coord() -> u32 {
  let around = [0, 9, 98, 999, 99_999, 999_999_998, u32::MAX - 2];
  let base = around[choose(7)];
  base + below(3) as u32
}
fn show() {
  let a = text_pos::PositionUtf16 { line: coord(), col: coord() };
  let one = |n: u32| (u64::from(n) + 1).to_string();
  check(a.to_string() == format!("{}:{}", one(a.line), one(a.col)), "D02|a position is printed as its line and column, counted from one");
  if a.line == u32::MAX || a.col == u32::MAX { cover("the largest line or column"); }
  trace_str(&a.to_string());
}
fn few() -> u32 { [0, 9, u32::MAX][choose(3)] }
fn show_range() {
  let p = text_pos::PositionUtf16 { line: few(), col: few() };
  let q = text_pos::PositionUtf16 { line: few(), col: few() };
  let r = text_pos::RangeUtf16 { start: p, end: q };
  let one = |n: u32| (u64::from(n) + 1).to_string();
  let want = if p.line == q.line { cover("a range on one line"); format!("{}:{}-{}", one(p.line), one(p.col), one(q.col)) } else { cover("a range over lines"); format!("{}:{}-{}:{}", one(p.line), one(p.col), one(q.line), one(q.col)) };
  check(r.to_string() == want, "D02|a range is printed as its start and its end, the line of the end left out when it is that of the start");
  trace_str(&want);
}
fn show_diagnostic() {
  let p = text_pos::PositionUtf16 { line: 3, col: [0, 7][choose(2)] };
  let r = text_pos::RangeUtf16 { start: p, end: p };
  let mut message = any_string(choose(3));
  if any_bool() { message.push_str(&"x\né".repeat(100)); }
  let severity = if any_bool() { diagnostic::Severity::Warning } else { diagnostic::Severity::Error };
  let sv = match severity { diagnostic::Severity::Warning => "warning", diagnostic::Severity::Error => "error" };
  check(severity.to_string() == sv, "D03|a severity is printed as its name");
  check(diagnostic::Severity::Warning < diagnostic::Severity::Error, "D03|an error is more severe than a warning");
  let d = diagnostic::Diagnostic { range: r, message: message.clone(), severity };
  let want = format!("{r}: {sv}: {message}");
  check(d.to_string() == want, "D03|a diagnostic is printed as its range, its severity and its message");
  if severity == diagnostic::Severity::Error { cover("an error"); } else { cover("a warning"); }
  trace_str(&want);
}

/// An item that prints given text, or fails.
struct Item { text: String, fails: bool }
impl Display for Item {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if self.fails { return Err(fmt::Error); }
    f.write_str(&self.text)?;
    if f.alternate() { f.write_str("#")?; }
    Ok(())
  }
}
/// A sink that fails after some writes.
struct Sink { out: String, left: usize, failed: bool, after: bool }
impl Write for Sink {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.failed { self.after = true; }
    if self.left == 0 { self.failed = true; return Err(fmt::Error); }
    self.left -= 1;
    self.out.push_str(s);
    Ok(())
  }
}
struct Seq<'a> { items: &'a [Item], sep: Option<&'a str> }
impl Display for Seq<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self.sep { Some(s) => fmt_util::sep_seq(f, s, self.items.iter()), None => fmt_util::comma_seq(f, self.items.iter()) }
  }
}
fn seps(k: usize) {
  let n = choose(k as u64 + 1);
  let alt = any_bool();
  let bad = choose(n as u64 + 1);
  let items: Vec<Item> = (0..n).map(|i| Item { text: any_str_bytes(1), fails: i == bad }).collect();
  let sep = if any_bool() { Some(any_str_bytes(choose(3))) } else { None };
  let seq = Seq { items: &items, sep: sep.as_deref() };
  let s = sep.as_deref().unwrap_or(", ");
  let mut want = String::new();
  for i in 0..bad.min(n) {
    if i > 0 { want.push_str(s); }
    want.push_str(&items[i].text);
    if alt { want.push('#'); }
  }
  if bad > 0 && bad < n { want.push_str(s); }
  let limit = if any_bool() { choose(4) } else { 100 };
  let mut out = Sink { out: String::new(), left: limit, failed: false, after: false };
  let r = if alt { write!(out, "{seq:#}") } else { write!(out, "{seq}") };
  check(r.is_ok() == (bad == n && !out.failed), "M01|printing fails exactly when an item or the sink does");
  check(!out.after, "M01|nothing is written after a failure");
  if out.failed { check(want.starts_with(&out.out), "M01|what is written before a failure is the start of it all"); cover("the sink fails"); }
  else { check(out.out == want, "M01|the items are printed in order with the separator between them, up to the one that fails"); }
  if bad < n { cover("an item fails"); } else if n > 1 { cover("several items"); }
  trace_str(&out.out);
}

/// `n` items, of different lengths, one of which may fail; the sink may fail at any of some writes.
fn long_seps(n: usize) {
  let alt = any_bool();
  let some = [n, 0, 1, n / 2, n - 1, 256];
  let bad = some[choose(6)].min(n);
  let sep = [None, Some(String::new()), Some("; ".repeat(150)), Some(any_str_bytes(1))][choose(4)].clone();
  let items: Vec<Item> = (0..n).map(|i| Item { text: if i == n / 3 { any_str_bytes(1) } else { "é".repeat(i % 5) }, fails: i == bad }).collect();
  let seq = Seq { items: &items, sep: sep.as_deref() };
  let s = sep.as_deref().unwrap_or(", ");
  let mut want = String::new();
  for i in 0..bad {
    if i > 0 { want.push_str(s); }
    want.push_str(&items[i].text);
    if alt { want.push('#'); }
  }
  if bad > 0 && bad < n { want.push_str(s); }
  let limit = [usize::MAX, n / 2, 2 * n - 3, 510][choose(4)];
  let mut out = Sink { out: String::new(), left: limit, failed: false, after: false };
  let r = if alt { write!(out, "{seq:#}") } else { write!(out, "{seq}") };
  check(r.is_ok() == (bad == n && !out.failed), "M01|printing fails exactly when an item or the sink does");
  check(!out.after, "M01|nothing is written after a failure");
  if out.failed { check(want.starts_with(&out.out), "M01|what is written before a failure is the start of it all"); cover("the sink fails"); }
  else { check(out.out == want, "M01|the items are printed in order with the separator between them, up to the one that fails"); }
  if bad < n { cover("an item fails"); } else { cover("many items"); }
  trace(out.out.len() as u64);
}

fn hashes<const N: usize>() {
  let ks: [Key; N] = std::array::from_fn(|_| Key(any_u8()));
  let vs: [u8; N] = std::array::from_fn(|_| any_u8());
  let mut dup = false;
  for i in 0..N { for j in 0..i { dup |= ks[i] == ks[j]; } }
  if dup { cover("duplicates"); } else { cover("no duplicates"); }
  let q = Key(any_u8());
  may_panic(dup);
  if any_bool() {
    let m = fast_hash::map(std::array::from_fn::<_, N, _>(|i| (ks[i], vs[i])));
    may_panic(false);
    check(!dup, "H01|duplicate keys panic");
    check(m.len() == N, "H01|a map has as many entries as were given");
    for i in 0..N { check(m.get(&ks[i]) == Some(&vs[i]), "H01|a map has the entries given"); }
    check(m.contains_key(&q) == ks.contains(&q), "H01|a map has no other entries");
  } else {
    let m = fast_hash::set(ks);
    may_panic(false);
    check(!dup, "H01|duplicate elements panic");
    check(m.len() == N, "H01|a set has as many elements as were given");
    check(m.contains(&q) == ks.contains(&q), "H01|a set has exactly the elements given");
  }
}
/// As many fixed elements, of which two may be equal.
fn many_hashes<const N: usize>() {
  if any_bool() { rustc_hash::spread(); }
  let mut ks: [u32; N] = std::array::from_fn(|i| (i as u32).wrapping_mul(2_654_435_761));
  let (i, j) = (choose(6), choose(7));
  let at = [0, 1, N / 2, N / 2 + 1, N - 2, N - 1];
  if j < 6 { ks[at[j]] = ks[at[i]]; }
  let dup = j < 6 && i != j;
  may_panic(dup);
  if any_bool() {
    let m = fast_hash::map(ks.map(|k| (k, k ^ 5)));
    may_panic(false);
    check(!dup, "H01|duplicate keys panic");
    check(m.len() == N, "H01|a map has as many entries as were given");
    for k in &ks { check(m.get(k) == Some(&(k ^ 5)), "H01|a map has the entries given"); }
  } else {
    let m = fast_hash::set(ks);
    may_panic(false);
    check(!dup, "H01|duplicate elements panic");
    check(m.len() == N, "H01|a set has as many elements as were given");
    for k in &ks { check(m.contains(k), "H01|a set has exactly the elements given"); }
  }
  cover("many elements");
}
fn capacity(max: usize) {
  let n = choose(max as u64 + 1);
  let m: fast_hash::FxHashMap<u8, u8> = fast_hash::map_with_capacity(n);
  let s: fast_hash::FxHashSet<u8> = fast_hash::set_with_capacity(n);
  check(m.is_empty() && s.is_empty(), "H01|a map or set with a capacity is empty");
  check(m.capacity() >= n && s.capacity() >= n, "H01|a map or set has the capacity asked for");
  trace(n as u64);
}

fn sizes() {
  let n = any_u64() as usize;
  may_panic(n > u32::MAX as usize);
  let t = text_size_util::mk_text_size(n);
  may_panic(false);
  check(n <= u32::MAX as usize, "Z01|a text size is made of exactly the numbers of 32 bits");
  check(usize::from(t) == n, "Z01|a text size is the number it was made of");
  let (a, b) = (any_u32(), any_u32());
  assume(a <= b);
  let r = text_size_util::TextRange::new(a.into(), b.into());
  let w = text_size_util::WithRange { val: any_u8(), range: r };
  let x = any_u32();
  let v = w.wrap(x);
  check(v.val == x && v.range == r && w.range == r, "Z01|wrapping a value gives it the range");
  cover("a text size");
  trace(n as u64);
}

/// One line: a heading of code, something like it, or other text.
fn line(md: &mut String, full: bool) -> Option<String> {
  let key = match choose(if full { 6 } else { 3 }) {
    0 => { let k = any_str_bytes(1); assume(k != "\n" && k != "\r"); md.push_str("## `"); md.push_str(&k); md.push('`'); Some(k) }
    1 => { let k = any_str_bytes(1); assume(k != "\n" && k != "\r"); md.push_str(&k); None }
    2 => { md.push_str("## `` ` ``"); Some("`".to_owned()) }
    3 => { md.push_str("## ``"); Some(String::new()) }
    4 => { let k = any_str_bytes(1); assume(k != "\n" && k != "\r" && k != "`"); md.push_str("## `x"); md.push_str(&k); None }
    _ => None,
  };
  key
}
fn headings(arg: usize) {
  let (n, full) = (arg % 10, arg >= 10);
  let mut md = String::new();
  let mut want: Vec<(String, String)> = Vec::new();
  let mut dup = false;
  let start = any_str_bytes(1);
  for i in 0..n {
    let at = md.len();
    let key = line(&mut md, full);
    let text = md[at..].to_owned();
    let last = i + 1 == n;
    // an empty last line without an end is no line
    let end = if last { choose(3) } else { choose(2) };
    md.push_str(["\n", "\r\n", ""][end]);
    if end == 2 && text.is_empty() { continue; }
    match key {
      Some(k) => { dup |= want.iter().any(|x| x.0 == k); want.push((k.clone(), format!("{k}{start}"))); }
      None => if let Some(l) = want.last_mut() { l.1.push('\n'); l.1.push_str(&text); cover("text below a heading"); } else { cover("text before the first heading"); },
    }
  }
  may_panic(dup);
  if dup { cover("a heading twice"); }
  let got = code_h2_md_map::get(&md, |k| format!("{k}{start}"));
  may_panic(false);
  check(!dup, "K01|a heading that comes twice panics");
  check(got.len() == want.len(), "K01|there are as many entries as headings");
  for (k, v) in &want { check(got.get(k.as_str()) == Some(v), "K01|the entry of a heading is its start and the lines below it"); }
  trace(got.len() as u64);
}
/// Many headings and lines, two of the keys with a symbolic byte.
fn long_headings(n: usize) {
  let mut md = String::new();
  let mut want: Vec<(String, String)> = Vec::new();
  let mut dup = false;
  let (per, end) = ([0, 1, 3, 290][choose(4)], ["\n", "\r\n"][choose(2)]);
  for i in 0..n {
    if i % (per + 1) == 0 {
      let k = if i == 0 || i + per + 1 >= n { let c = any_u8(); assume(c.is_ascii_graphic() & (c != b'`')); char::from(c).to_string() } else { format!("key{i}") };
      dup |= want.last().is_some() && want[0].0 == k;
      md.push_str(&format!("## `{k}`"));
      want.push((k.clone(), format!("<{k}>")));
    } else {
      let text = ["", "text", "### `sub`", "## code", " ## `x`", "## `"][i % 6];
      md.push_str(text);
      let l = want.last_mut().unwrap();
      l.1.push('\n');
      l.1.push_str(text);
    }
    md.push_str(end);
  }
  may_panic(dup);
  if dup { cover("a heading twice"); }
  let got = code_h2_md_map::get(&md, |k| format!("<{k}>"));
  may_panic(false);
  check(!dup, "K01|a heading that comes twice panics");
  check(got.len() == want.len(), "K01|there are as many entries as headings");
  for (k, v) in &want { check(got.get(k.as_str()) == Some(v), "K01|the entry of a heading is its start and the lines below it"); }
  cover("a long document");
  trace(got.len() as u64);
}
/// Arbitrary bytes at the end of a line that starts like a heading: it is one exactly when the line ends in a backtick.
fn heading_like(n: usize) {
  let pre = ["## `", "## ", "##`", ""][choose(4)];
  let k = any_str_bytes(n);
  assume(!k.contains('\n') && !k.contains('\r'));
  let l = format!("{pre}{k}");
  let key = if l.len() >= 5 && l.as_bytes()[..4] == *b"## `" && l.as_bytes()[l.len() - 1] == b'`' { Some(&l[4..l.len() - 1]) } else { None };
  let key = key.map(|k| if k == "` ` `" { "`" } else { k });
  let got = code_h2_md_map::get(&l, |_| String::new());
  check(got.len() == usize::from(key.is_some()), "K01|a line is a heading exactly when it is code at level two");
  if let Some(k) = key { check(got.get(k).is_some_and(|v| v.is_empty()), "K01|the key of a heading is its code"); cover("a heading"); } else { cover("not a heading"); }
  trace(got.len() as u64);
}



entries! {
  fn h_long_seps(n) { long_seps(n); }
  fn h_long_headings(n) { long_headings(n); }
  fn h_timed(n) { timed(); }
  fn h_timed_running(n) { timed_running(); }
  fn h_logged(n) { logged(); }
  fn h_always(n) { always_(); }
  fn h_converts(n) { converts(); }
  fn h_idx(n) { idx_(); }
  fn h_idx_map(n) { idx_map(n); }
  fn h_uniqs(n) { uniqs(n); }
  fn h_uniqs_long(n) { uniqs_long(n); }
  fn h_uniqs_many(n) { uniqs_many(n); }
  fn h_code_parse(n) { code_parse(n); }
  fn h_code_print(n) { code_print(n); }
  fn h_show(n) { show(); }
  fn h_show_range(n) { show_range(); }
  fn h_show_diagnostic(n) { show_diagnostic(); }
  fn h_seps(n) { seps(n); }
  fn h_hashes(n) { match n { 0 => hashes::<0>(), 1 => hashes::<1>(), 2 => hashes::<2>(), 3 => hashes::<3>(), _ => hashes::<4>() } }
  fn h_many_hashes(n) { match n { 0 => many_hashes::<20>(), 1 => many_hashes::<300>(), _ => many_hashes::<3000>() } }
  fn h_capacity(n) { capacity(n); }
  fn h_sizes(n) { sizes(); }
  fn h_headings(n) { headings(n); }
  fn h_heading_like(n) { heading_like(n); }
}
