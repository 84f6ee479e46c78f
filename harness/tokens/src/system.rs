//! A system made of inputs: the libc functions that std calls are defined here, natively too, so that nothing touches
//! real files.
use std::ffi::{CStr, c_char, c_int};
use std::sync::{Mutex, MutexGuard};
use sym::*;

pub struct Sys {
  /// `OUT_DIR`, ending in a NUL byte
  pub out_dir: Option<Vec<u8>>,
  /// the files there are
  pub files: Vec<(Vec<u8>, Vec<u8>)>,
  /// which files are open
  pub open: [Option<usize>; 4],
  pub at: [usize; 4],
  /// the calls until one fails, and how
  pub fault: Option<(usize, i32)>,
  pub short: bool,
  pub interrupts: u32,
}
static SYS: Mutex<Option<Sys>> = Mutex::new(None);
pub fn sys() -> MutexGuard<'static, Option<Sys>> { match SYS.lock() { Ok(g) => g, Err(e) => e.into_inner() } }
#[cfg(feature = "native")]
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; }
unsafe extern "C" { fn __errno_location() -> *mut c_int; }
fn fail(e: i32) -> c_int { unsafe { *__errno_location() = e; } -1 }
const FD: c_int = 1000;
const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
const EBADF: i32 = 9;
const EFAULT: i32 = 14;
const APPEND: c_int = 0o2000;
const ENFILE: i32 = 23;
const ENOSYS: i32 = 38;
const CREAT: c_int = 0o100;
const TRUNC: c_int = 0o1000;
unsafe fn text<'a>(p: *const c_char) -> &'a [u8] { unsafe { CStr::from_ptr(p) }.to_bytes() }
impl Sys {
  /// Does this call fail? From then on it may panic.
  fn fails(&mut self) -> Option<i32> {
    match &mut self.fault {
      Some((0, e)) => { may_panic(true); cover("the system fails"); Some(*e) }
      Some((n, _)) => { *n -= 1; None }
      None => None,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const u8 {
  let g = sys();
  if unsafe { text(name) } != b"OUT_DIR" { return std::ptr::null(); }
  g.as_ref().and_then(|s| s.out_dir.as_ref()).map_or(std::ptr::null(), |v| v.as_ptr())
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _: u32) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) };
  if let Some(e) = s.fails() { return fail(e); }
  let path = unsafe { text(path) };
  let i = match s.files.iter().position(|x| x.0 == path) {
    Some(i) => i,
    None => { if flags & CREAT == 0 { return fail(ENOENT); } s.files.push((path.to_vec(), vec![])); s.files.len() - 1 }
  };
  if flags & TRUNC != 0 { s.files[i].1.clear(); }
  let Some(fd) = s.open.iter().position(Option::is_none) else { return fail(ENFILE) };
  s.open[fd] = Some(i);
  s.at[fd] = if flags & APPEND != 0 { s.files[i].1.len() } else { 0 };
  FD + fd as c_int
}
fn file(s: &Sys, fd: c_int) -> Option<usize> { s.open.get(fd.checked_sub(FD)? as usize).copied().flatten() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return 0 };
  if file(s, fd).is_none() { return fail(EBADF); }
  s.open[(fd - FD) as usize] = None;
  0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
  // what replaying prints
  #[cfg(feature = "native")]
  if fd < 3 { return unsafe { syscall(1, fd, buf, n) } as isize; }
  let mut g = sys();
  let Some(s) = g.as_mut() else { return n as isize };
  let Some(i) = file(s, fd) else { return fail(EBADF) as isize };
  if s.interrupts > 0 && choose(2) == 1 { s.interrupts -= 1; cover("an interrupt"); return fail(EINTR) as isize; }
  if let Some(e) = s.fails() { return fail(e) as isize; }
  let k = if s.short && n > 1 { cover("a short write"); [1, n - 1, n][choose(3)] } else { n };
  let (v, at) = (&mut s.files[i].1, &mut s.at[(fd - FD) as usize]);
  if v.len() < *at + k { v.resize(*at + k, 0); }
  v[*at..*at + k].copy_from_slice(unsafe { std::slice::from_raw_parts(buf, k) });
  *at += k;
  k as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) as isize };
  let Some(i) = file(s, fd) else { return fail(EBADF) as isize };
  if let Some(e) = s.fails() { return fail(e) as isize; }
  let at = &mut s.at[(fd - FD) as usize];
  let k = n.min(s.files[i].1.len() - *at);
  unsafe { std::ptr::copy_nonoverlapping(s.files[i].1[*at..].as_ptr(), buf, k); }
  *at += k;
  k as isize
}
/// What is asked is whether it is open.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(_: c_int, _: c_int, _: c_int) -> c_int { 0 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, _: i64, _: c_int) -> i64 { sys().as_ref().map_or(0, |s| s.at[(fd - FD) as usize] as i64) }
/// The words of `struct statx`; the mode is at byte 28, the size at byte 40.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, _: c_int, _: u32, buf: *mut u8) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) };
  if buf.is_null() || path.is_null() { return fail(EFAULT); }
  let p = unsafe { text(path) };
  let i = if p.is_empty() { file(s, fd) } else { s.files.iter().position(|x| x.0 == p) };
  let Some(i) = i else { return fail(ENOENT) };
  unsafe {
    std::ptr::write_bytes(buf, 0, 256);
    buf.add(28).cast::<u16>().write_unaligned(0o100644);
    buf.add(40).cast::<u64>().write_unaligned(s.files[i].1.len() as u64);
  }
  0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, _: c_int) -> c_int {
  let g = sys();
  let Some(s) = g.as_ref() else { return fail(ENOSYS) };
  if s.files.iter().any(|x| x.0 == unsafe { text(path) }) { 0 } else { fail(ENOENT) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) };
  let Some(i) = file(s, fd) else { return fail(EBADF) };
  if let Some(e) = s.fails() { return fail(e); }
  s.files[i].1.resize(n as usize, 0);
  0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(_: c_int) -> c_int { let mut g = sys(); g.as_mut().and_then(Sys::fails).map_or(0, fail) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) };
  let Some(i) = s.files.iter().position(|x| x.0 == unsafe { text(path) }) else { return fail(ENOENT) };
  if let Some(e) = s.fails() { return fail(e); }
  s.files.swap_remove(i);
  0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) };
  if let Some(e) = s.fails() { return fail(e); }
  let (from, to) = unsafe { (text(from), text(to)) };
  let Some(i) = s.files.iter().position(|x| x.0 == from) else { return fail(ENOENT) };
  let x = s.files.swap_remove(i).1;
  s.files.retain(|f| f.0 != to);
  s.files.push((to.to_vec(), x));
  0
}

/// There is one thread.
#[cfg(not(feature = "native"))]
mod thread {
  use super::*;
  use std::ffi::c_void;
  use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering::Relaxed};
  static LAST: AtomicU32 = AtomicU32::new(0);
  static VALUES: [AtomicPtr<c_void>; 64] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 64];
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn pthread_key_create(key: *mut u32, _: *mut c_void) -> c_int { unsafe { *key = LAST.fetch_add(1, Relaxed) + 1; } 0 }
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn pthread_key_delete(_: u32) -> c_int { 0 }
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn pthread_getspecific(key: u32) -> *mut c_void { VALUES[key as usize].load(Relaxed) }
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn pthread_setspecific(key: u32, p: *mut c_void) -> c_int { VALUES[key as usize].store(p, Relaxed); 0 }
}
