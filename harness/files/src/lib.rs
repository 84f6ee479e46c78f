//! The real file system of paths, over a system made of inputs: the libc functions that std calls are
//! defined here, natively too, so that nothing touches real files.
use paths::*;
use std::ffi::{CStr, OsString, c_char, c_int, c_void};
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::{Mutex, MutexGuard};
use sym::*;

/// What there is: one file or directory at `path`, and a current directory.
struct Sys {
  path: Vec<u8>,
  /// the error of opening it, of asking for it, or of the current directory
  fails: Option<i32>,
  content: Vec<u8>,
  at: usize,
  /// the number of bytes read after which reading fails
  bad_read: Option<(usize, i32)>,
  /// interrupts that may still come
  interrupts: u32,
  /// are reads short?
  short: bool,
  /// what the system says is the size of the file
  size: u64,
  mode: u16,
  link: bool,
  cwd: Vec<u8>,
  names: Vec<Vec<u8>>,
  bad_entry: Option<(usize, i32)>,
  entry: Box<[u64; 40]>,
  open: i32,
}
static SYS: Mutex<Option<Sys>> = Mutex::new(None);
fn sys() -> MutexGuard<'static, Option<Sys>> { match SYS.lock() { Ok(g) => g, Err(e) => e.into_inner() } }
fn blank(path: &[u8]) -> Sys {
  Sys { path: path.to_vec(), fails: None, content: vec![], at: 0, bad_read: None, interrupts: 0, short: false, size: 0, mode: 0, link: false, cwd: vec![], names: vec![], bad_entry: None, entry: Box::new([0; 40]), open: 0 }
}
unsafe extern "C" { fn __errno_location() -> *mut c_int; }
fn fail(e: i32) -> c_int { unsafe { *__errno_location() = e; } -1 }
const FD: c_int = 1000;
const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EBADF: i32 = 9;
const EACCES: i32 = 13;
const EFAULT: i32 = 14;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const ERANGE: i32 = 34;
const ENOSYS: i32 = 38;
fn is_dir(s: &Sys) -> bool { s.mode & 0o170000 == 0o040000 }
unsafe fn text<'a>(p: *const c_char) -> &'a [u8] { unsafe { CStr::from_ptr(p) }.to_bytes() }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _: u32) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) };
  if unsafe { text(path) } != s.path { return fail(ENOENT); }
  if flags & 3 != 0 { return fail(EACCES); }
  if let Some(e) = s.fails { return fail(e); }
  s.open += 1;
  FD
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(_: c_int) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return 0 };
  s.open -= 1;
  0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) as isize };
  if fd != FD { return fail(EBADF) as isize; }
  if is_dir(s) { return fail(EISDIR) as isize; }
  if s.interrupts > 0 && choose(2) == 1 { s.interrupts -= 1; cover("an interrupt"); return fail(EINTR) as isize; }
  if let Some((k, e)) = s.bad_read { if s.at >= k { return fail(e) as isize; } }
  let mut k = n.min(s.content.len() - s.at);
  if s.short && k > 1 { k = choose(2) * (k - 1) + 1; }
  unsafe { std::ptr::copy_nonoverlapping(s.content[s.at..].as_ptr(), buf, k); }
  s.at += k;
  k as isize
}
/// What is asked is whether it is open.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(_: c_int, _: c_int, _: c_int) -> c_int { 0 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(_: c_int, _: i64, _: c_int) -> i64 { sys().as_ref().map_or(0, |s| s.at as i64) }
/// The words of `struct statx`; the mode is at byte 28, the size at byte 40.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, _: u32, buf: *mut u8) -> c_int {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return fail(ENOSYS) };
  if buf.is_null() || path.is_null() { return fail(EFAULT); }
  let p = unsafe { text(path) };
  if !(fd == FD && p.is_empty()) {
    if p != s.path { return fail(ENOENT); }
    if let Some(e) = s.fails { return fail(e); }
  }
  let mode = if s.link && flags & 0x100 != 0 { 0o120777 } else { s.mode };
  unsafe {
    std::ptr::write_bytes(buf, 0, 256);
    buf.add(28).cast::<u16>().write_unaligned(mode);
    buf.add(40).cast::<u64>().write_unaligned(s.size);
  }
  0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, _: c_int) -> c_int {
  let g = sys();
  let Some(s) = g.as_ref() else { return fail(ENOSYS) };
  if unsafe { text(path) } != s.path { return fail(ENOENT); }
  s.fails.map_or(0, fail)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn faccessat(_: c_int, path: *const c_char, m: c_int, _: c_int) -> c_int { unsafe { access(path, m) } }
unsafe extern "C" { fn malloc(n: usize) -> *mut u8; }
/// Everything is behind a link from elsewhere.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(_: *const c_char, _: *mut c_char) -> *mut u8 {
  let g = sys();
  if let Some(e) = g.as_ref().map_or(Some(ENOSYS), |s| s.fails) { fail(e); return std::ptr::null_mut(); }
  unsafe { let p = malloc(6); std::ptr::copy_nonoverlapping(b"/real\0".as_ptr(), p, 6); p }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
  let mut g = sys();
  let Some(s) = g.as_mut() else { fail(ENOSYS); return std::ptr::null_mut() };
  if let Some(e) = s.fails { fail(e); return std::ptr::null_mut(); }
  if s.cwd.len() + 1 > n { fail(ERANGE); cover("a long current directory"); return std::ptr::null_mut(); }
  unsafe {
    std::ptr::copy_nonoverlapping(s.cwd.as_ptr(), buf, s.cwd.len());
    *buf.add(s.cwd.len()) = 0;
  }
  buf
}
/// The environment says nothing about the system, and may say anything.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(_: *const c_char) -> *const c_char { if sys().is_some() { c"/elsewhere".as_ptr() } else { std::ptr::null() } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
  let mut g = sys();
  let no = |e| { fail(e); std::ptr::null_mut() };
  let Some(s) = g.as_mut() else { return no(ENOSYS) };
  if unsafe { text(path) } != s.path { return no(ENOENT); }
  if let Some(e) = s.fails { return no(e); }
  if !is_dir(s) { return no(ENOTDIR); }
  s.open += 1;
  s.at = 0;
  s.entry.as_mut_ptr().cast()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(_: *mut c_void) -> *mut c_void {
  let mut g = sys();
  let Some(s) = g.as_mut() else { return std::ptr::null_mut() };
  if let Some((k, e)) = s.bad_entry { if s.at == k { fail(e); return std::ptr::null_mut(); } }
  if s.at == s.names.len() { return std::ptr::null_mut(); }
  let n = s.names[s.at].clone();
  s.at += 1;
  let p = s.entry.as_mut_ptr().cast::<u8>();
  unsafe {
    std::ptr::write_bytes(p, 0, 320);
    std::ptr::copy_nonoverlapping(n.as_ptr(), p.add(19), n.len());
  }
  p.cast()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(_: *mut c_void) -> c_int { FD + 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(_: *mut c_void) -> c_int { if let Some(s) = sys().as_mut() { s.open -= 1; } 0 }

fn os(v: &[u8]) -> PathBuf { PathBuf::from(OsString::from_vec(v.to_vec())) }
fn bytes(p: &Path) -> &[u8] { p.as_os_str().as_bytes() }
/// One of the errors there are: an arbitrary number that is not zero.
/// A call that is interrupted is called again: that is no error, and for ever another matter.
fn any_errno() -> i32 { let e = bits(7) as i32; assume((e != 0) & (e != EINTR)); e }
/// A path of `n` arbitrary bytes, `far` others before them.
fn any_path(n: usize, far: bool) -> Vec<u8> {
  let mut v = if far { vec![b'p'; 400] } else { vec![] };
  for _ in 0..n { v.push(any_u8()); }
  v
}
fn same(e: &io::Error, want: i32) -> bool { e.raw_os_error() == Some(want) }

fn reads(n: usize, faults: bool) {
  let path = any_path(if faults { 1 } else { 2 }, !faults && any_bool());
  let content = any_bytes(n);
  let mut s = blank(&path);
  s.mode = if choose(2) == 0 { 0o100644 } else { 0o040755 };
  let dir = is_dir(&s);
  s.content = content.clone();
  s.size = if choose(2) == 0 { n as u64 } else { 0 };
  if faults {
    s.short = choose(2) == 0;
    s.interrupts = choose(2) as u32;
    match choose(3) {
      0 => { s.fails = Some(any_errno()); }
      1 => { s.bad_read = Some((choose(n as u64 + 1), any_errno())); }
      _ => {}
    }
  }
  let (fails, bad) = (s.fails, s.bad_read);
  *sys() = Some(s);
  let nul = path.contains(&0);
  let fs = RealFileSystem::default();
  let as_string = choose(2) == 0;
  let got: io::Result<Vec<u8>> = if as_string { fs.read_to_string(&os(&path)).map(String::into_bytes) } else { fs.read_to_bytes(&os(&path)) };
  check(sys().as_ref().unwrap().open == 0, "F07|every file opened is closed");
  // reading at the end may come upon the error or not be tried
  match got {
    Ok(x) => {
      check(!nul, "F07|a path with a NUL byte cannot be read");
      check(fails.is_none() && !dir, "F07|what cannot be opened or read cannot be read");
      check(bad.is_none(), "F07|an error of reading is passed on");
      check(x == content, "F07|reading a file gives all its bytes, and no others");
      if as_string { check(std::str::from_utf8(&content).is_ok(), "F07|only UTF-8 is read as a string"); cover("a string read"); } else { cover("bytes read"); }
      for b in &x { trace((*b).into()); }
    }
    Err(e) => {
      if nul { check(e.kind() == io::ErrorKind::InvalidInput, "F07|a path with a NUL byte is no input"); cover("a NUL in a path"); return; }
      if let Some(x) = fails { check(same(&e, x), "F07|an error of opening is passed on"); cover("an error of opening"); return; }
      if dir { check(same(&e, EISDIR), "F07|a directory is no file to read"); cover("reading a directory"); return; }
      if let Some((k, x)) = bad {
        if as_string && std::str::from_utf8(&content[..k]).is_err() { check(same(&e, x) || e.kind() == io::ErrorKind::InvalidData, "F07|an error of reading is passed on"); return; }
        check(same(&e, x), "F07|an error of reading is passed on"); cover("an error of reading"); return;
      }
      check(as_string, "F07|a file that can be read is read");
      check(std::str::from_utf8(&content).is_err(), "F07|UTF-8 is read as a string");
      check(e.kind() == io::ErrorKind::InvalidData, "F07|other bytes are no string");
      cover("no string");
    }
  }
}
fn any_bytes(n: usize) -> Vec<u8> { (0..n).map(|_| any_u8()).collect() }
/// A long file, read in pieces.
fn reads_long(n: usize) {
  let mut s = blank(b"/f");
  s.mode = 0o100644;
  s.content = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
  s.content[n / 2] = bits(7) as u8;
  s.size = [0, n as u64, n as u64 / 2, 2 * n as u64][choose(4)];
  let want = s.content.clone();
  *sys() = Some(s);
  let fs = RealFileSystem::default();
  let x = if choose(2) == 0 { fs.read_to_string(Path::new("/f")).map(String::into_bytes) } else { fs.read_to_bytes(Path::new("/f")) };
  check(x.is_ok_and(|x| x == want), "F07|reading a file gives all its bytes, and no others");
  cover("a long file read");
}
fn files(n: usize) {
  let path = any_path(n, any_bool());
  let mut s = blank(&path);
  s.mode = any_u16();
  s.link = any_bool();
  if any_bool() { s.fails = Some(any_errno()); }
  let want = !path.contains(&0) && s.fails.is_none() && s.mode & 0o170000 == 0o100000;
  *sys() = Some(s);
  check(RealFileSystem::default().is_file(&os(&path)) == want, "F08|a path is a file exactly when the system knows it as a regular file, links followed");
  if want { cover("a file"); } else { cover("no file"); }
  trace(u64::from(want));
}
fn current(arg: usize) {
  let mut s = blank(b"");
  let far = arg >= 10;
  for _ in 0..if far { 300 } else { 0 } { s.cwd.extend_from_slice(b"/d/"); }
  for _ in 0..arg % 10 { let c = any_u8(); assume(c != 0); s.cwd.push(c); }
  let e = any_errno();
  // an error that asks for a larger buffer is none
  if any_bool() { assume(e != ERANGE); s.fails = Some(e); }
  let (cwd, fails) = (s.cwd.clone(), s.fails);
  *sys() = Some(s);
  match RealFileSystem::default().current_dir() {
    Ok(x) => {
      check(fails.is_none(), "F09|an error of asking for the current directory is passed on");
      check(cwd.first() == Some(&b'/'), "F09|only an absolute path is a current directory");
      let mut segs: Vec<&[u8]> = vec![];
      for s in cwd.split(|b| *b == b'/') { if s == b".." { segs.pop(); } else if !s.is_empty() && s != b"." { segs.push(s); } }
      let mut want = vec![];
      for s in segs { want.push(b'/'); want.extend_from_slice(s); }
      if want.is_empty() { want.push(b'/'); }
      check(bytes(x.as_path()) == want, "F09|the current directory is the normal form of what the system says");
      cover("a current directory");
      trace(want.len() as u64);
    }
    Err(x) => match fails {
      Some(e) => { check(same(&x, e), "F09|an error of asking for the current directory is passed on"); cover("no current directory"); }
      None => { check(cwd.first() != Some(&b'/'), "F09|an absolute path is a current directory"); cover("not an absolute path"); }
    },
  }
}
fn dirs(n: usize, long: bool) {
  let path = if long { b"/d".to_vec() } else { any_path(1, false) };
  let mut s = blank(&path);
  s.mode = if long || choose(2) == 0 { 0o040755 } else { 0o100644 };
  let dir = is_dir(&s);
  let dots = if long { 2 } else { choose(3) };
  for i in 0..n {
    if i == dots { s.names.push(b".".to_vec()); s.names.push(b"..".to_vec()); }
    if long { s.names.push(format!("n{i}").into_bytes()); continue; }
    let mut v = vec![];
    for _ in 0..1 + choose(2) { let c = any_u8(); assume((c != 0) & (c != b'/')); v.push(c); }
    assume(v != b"." && v != b"..");
    s.names.push(v);
  }
  match choose(3) {
    0 => s.fails = Some(any_errno()),
    1 => s.bad_entry = Some((choose(s.names.len().min(4) as u64 + 1), any_errno())),
    _ => {}
  }
  let (fails, bad) = (s.fails, s.bad_entry);
  let mut want: Vec<PathBuf> = s.names.iter().filter(|x| x[..] != b"."[..] && x[..] != b".."[..]).map(|x| os(&path).join(os(x))).collect();
  *sys() = Some(s);
  let nul = path.contains(&0);
  let got = RealFileSystem::default().read_dir(&os(&path));
  check(sys().as_ref().unwrap().open == 0, "F10|every directory opened is closed");
  match got {
    Ok(v) => {
      check(!nul && dir && fails.is_none(), "F10|only a directory that can be opened is read");
      check(bad.is_none(), "F10|an error of reading a directory is passed on");
      check(v.len() == want.len(), "F10|there are as many paths as entries but for the dots");
      for p in &v {
        let i = want.iter().position(|w| w == p);
        check(i.is_some(), "F10|each path is that of the directory with the name of an entry");
        if let Some(i) = i { want.swap_remove(i); }
      }
      if v.len() > 1 { cover("entries"); }
      trace(v.len() as u64);
    }
    Err(e) => {
      if nul { check(e.kind() == io::ErrorKind::InvalidInput, "F10|a path with a NUL byte is no input"); return; }
      if let Some(x) = fails { check(same(&e, x), "F10|an error of opening a directory is passed on"); cover("an error of opening"); return; }
      if !dir { check(same(&e, ENOTDIR), "F10|only a directory can be read"); return; }
      match bad { Some((_, x)) => { check(same(&e, x), "F10|an error of reading a directory is passed on"); cover("an error of an entry"); } None => check(false, "F10|a directory that can be read is read") }
    }
  }
}

entries! {
  fn h_reads(n) { reads(n, false); }
  fn h_read_faults(n) { reads(n, true); }
  fn h_reads_long(n) { reads_long(n); }
  fn h_files(n) { files(n); }
  fn h_current(n) { current(n); }
  fn h_dirs(n) { dirs(n, false); }
  fn h_dirs_long(n) { dirs(n, true); }
}
