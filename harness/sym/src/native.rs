//! Replay: `replay ENTRY ARG w:v,w:v,...`. Exit 0: ran to the end; 10: an assertion failed;
//! 11: an assumption does not hold; 12: panicked where allowed; 13: panicked; 14: wrong inputs.
use std::cell::RefCell;

#[derive(Default)]
struct St { inputs: Vec<(u64, u64)>, at: usize, trace: Vec<u64>, may_panic: bool }
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }

fn done(code: i32) -> ! {
  let t: Vec<String> = ST.with(|s| s.borrow().trace.iter().map(|x| x.to_string()).collect());
  println!("TRACE {}", t.join(","));
  use std::io::Write;
  let _ = std::io::stdout().flush();
  std::process::exit(code)
}
pub unsafe fn sym_input(width: u64) -> u64 {
  let x = ST.with(|s| {
    let mut s = s.borrow_mut();
    let i = s.at;
    s.at += 1;
    s.inputs.get(i).copied()
  });
  match x {
    Some((w, v)) if w == width => v,
    _ => { println!("REPLAY input mismatch (width {width}, have {x:?})"); done(14) }
  }
}
/// The environment at the start: the harness may stand in for it later.
static PROP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub unsafe fn sym_assume(b: bool) { if !b { println!("REPLAY assumption does not hold"); done(11) } }
pub unsafe fn sym_assert(b: bool, p: *const u8, n: usize) {
  let m = unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap() };
  // an assertion tagged for other properties than the one checked is skipped
  if let (Some((ids, _)), Some(want)) = (m.split_once('|'), PROP.get()) { if !ids.split(',').any(|x| x == want) { return; } }
  if !b {
    println!("REPLAY assertion failed: {}", m);
    done(10)
  }
}
pub unsafe fn sym_cover(_: *const u8, _: usize) {}
pub unsafe fn sym_concretize(x: u64) -> u64 { x }
pub unsafe fn sym_trace(x: u64) { ST.with(|s| s.borrow_mut().trace.push(x)) }
pub unsafe fn sym_may_panic(b: bool) { ST.with(|s| s.borrow_mut().may_panic = b) }

/// A clock whose readings are inputs.
#[cfg(feature = "native")]
pub fn clock_reading() -> (u64, u64) { unsafe { (sym_input(34), sym_input(30)) } }

pub fn replay_main(entries: &[(&str, extern "C" fn(u64))]) {
  if let Ok(p) = std::env::var("SYM_PROP") { let _ = PROP.set(p); }
  let a: Vec<String> = std::env::args().collect();
  // `replay -` reads one run per line and forks nothing: each line is re-executed by the caller
  let (name, arg, ins) = (&a[1], a[2].parse::<u64>().unwrap(), a.get(3).cloned().unwrap_or_default());
  let inputs = ins.split(',').filter(|x| !x.is_empty()).map(|x| { let (w, v) = x.split_once(':').unwrap(); (w.parse().unwrap(), v.parse().unwrap()) }).collect();
  ST.with(|s| s.borrow_mut().inputs = inputs);
  let f = entries.iter().find(|e| e.0 == name).expect("entry").1;
  std::panic::set_hook(Box::new(|i| {
    let ok = ST.with(|s| s.borrow().may_panic);
    println!("REPLAY panic{}: {i}", if ok { " (allowed)" } else { "" });
    done(if ok { 12 } else { 13 })
  }));
  f(arg);
  done(0)
}
