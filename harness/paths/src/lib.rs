//! paths, against a byte-by-byte definition of clean paths (Unix).
use paths::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use sym::*;

fn bytes(p: &Path) -> &[u8] { p.as_os_str().as_bytes() }
fn any_bytes(n: usize) -> Vec<u8> { (0..n).map(|_| any_u8()).collect() }
/// `n` bytes, the first a slash.
fn any_abs(n: usize) -> Vec<u8> {
  let mut v = vec![b'/'];
  for _ in 1..n { v.push(any_u8()); }
  v
}
fn path(v: &[u8]) -> PathBuf { PathBuf::from(OsString::from_vec(v.to_vec())) }
/// One path of the exploration per place of the slashes and dots.
fn split(v: &[u8]) -> Vec<&[u8]> { v.split(|b| *b == b'/').collect() }

/// The definition: what is left of the segments after removing empty ones and `.`, and with each
/// `..` the one before it.
fn clean(v: &[u8]) -> Vec<u8> {
  let mut segs: Vec<&[u8]> = Vec::new();
  for s in split(v) {
    if s == b".." { segs.pop(); } else if !s.is_empty() && s != b"." { segs.push(s); }
  }
  let mut out = Vec::new();
  for s in segs { out.push(b'/'); out.extend_from_slice(s); }
  if out.is_empty() { out.push(b'/'); }
  out
}
fn tb(v: &[u8]) { trace(v.len() as u64); for b in v { trace((*b).into()); } }
fn is_clean(v: &[u8]) -> bool {
  v == b"/" || (v.len() > 1 && v[0] == b'/' && split(&v[1..]).iter().all(|s| !s.is_empty() && s != b"." && s != b".."))
}

fn new_is(v: &[u8]) {
  let got = CleanPathBuf::new(path(v));
  check(got.is_some() == (v.first() == Some(&b'/')), "F01|a clean path is made of exactly the absolute paths");
  let Some(got) = got else { cover("not absolute"); return };
  let want = clean(v);
  check(bytes(got.as_path()) == want, "F01|the clean path is the normal form of the path");
  check(is_clean(bytes(got.as_path())), "F01|the clean path is clean");
  if v.len() > want.len() { cover("not clean already"); }
  check(bytes(got.as_clean_path().as_path()) == want, "F01|the borrowed path is the same");
  let again = CleanPathBuf::new(got.as_path());
  check(again.as_ref() == Some(&got), "F01|a clean path is its own normal form");
  check(bytes(got.as_clean_path().to_owned().as_path()) == want, "F01|the owned path of a borrowed one is the same");
  tb(&want);
  check(bytes(&got.into_path_buf()) == want, "F01|the path buffer of it is the same");
}
fn push_is(base: &[u8], rel: &[u8]) {
  let b = CleanPathBuf::new(path(base)).unwrap();
  let mut whole = if rel.first() == Some(&b'/') { cover("an absolute path pushed"); Vec::new() } else { cover("a relative path pushed"); let mut x = base.to_vec(); x.push(b'/'); x };
  whole.extend_from_slice(rel);
  let want = clean(&whole);
  let mut p = b.clone();
  p.push(path(rel));
  check(bytes(p.as_path()) == want, "F02|pushing a path gives the normal form of the whole");
  let j = b.as_clean_path().join(path(rel));
  check(j == p, "F02|joining gives what pushing gives");
  check(bytes(b.as_path()) == clean(base), "F02|joining leaves the path as it is");
  if rel.first() != Some(&b'/') && want.len() < clean(base).len() { cover("a parent pushed"); }
  tb(&want);
}
fn parent_is(v: &[u8]) {
  let b = CleanPathBuf::new(path(v)).unwrap();
  let mut up = v.to_vec();
  up.extend_from_slice(b"/..");
  let root = bytes(b.as_path()) == b"/";
  match b.as_clean_path().parent() {
    None => { check(root, "F02|only the root has no parent"); cover("the root"); }
    Some(p) => {
      check(!root, "F02|the root has no parent");
      check(bytes(p.as_path()) == clean(&up), "F02|the parent is the path without its last segment");
      tb(bytes(p.as_path()));
      cover("a parent");
    }
  }
}

/// Records what is written to a hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
  fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
  fn finish(&self) -> u64 { 0 }
}
fn rec<T: std::hash::Hash + ?Sized>(t: &T) -> Vec<u8> {
  let mut r = Rec::default();
  t.hash(&mut r);
  r.0
}
fn borrow_is(v: &[u8], w: &[u8]) {
  use std::borrow::Borrow;
  let (a, b) = (CleanPathBuf::new(path(v)).unwrap(), CleanPathBuf::new(path(w)).unwrap());
  let eq = clean(v) == clean(w);
  check((a == b) == eq, "F03|clean paths are equal when they are the same bytes");
  let (ac, bc): (&CleanPath, &CleanPath) = (a.borrow(), b.borrow());
  let (ap, bp): (&Path, &Path) = (a.borrow(), b.borrow());
  check((ac == bc) == eq, "F03|borrowed clean paths are equal when the owned ones are");
  check((ap == bp) == eq, "F03|paths are equal when the clean ones are");
  check(a.cmp(&b) == ac.cmp(bc) && a.cmp(&b) == ap.cmp(bp), "F03|borrowed paths are ordered as the owned ones are");
  check((a.cmp(&b) == std::cmp::Ordering::Equal) == eq, "F03|the order is that of equality");
  check(rec(&a) == rec(ac) && rec(&a) == rec(ap), "F03|borrowed paths hash as the owned ones do");
  if eq && v != w { cover("equal clean paths of different paths"); }
  if !eq { cover("different clean paths"); }
}

/// A clean path out of a family of symbolic ones, of three shapes.
fn some_path() -> CleanPathBuf {
  let mut v = Vec::new();
  let c = || { let c = any_u8(); assume((c != b'/') & (c != b'.')); c };
  match choose(3) {
    0 => v.push(b'/'),
    1 => v.extend_from_slice(&[b'/', c()]),
    _ => v.extend_from_slice(&[b'/', c(), b'/', c()]),
  }
  CleanPathBuf::new(path(&v)).unwrap()
}
/// Interns `n` paths and checks the identifiers against a list of them.
fn fill(st: &mut Store, n: usize) -> Vec<(CleanPathBuf, PathId)> {
  let mut seen: Vec<(CleanPathBuf, PathId)> = Vec::new();
  for _ in 0..n {
    let p = some_path();
    let id = if any_bool() { st.get_id(p.as_clean_path()) } else { st.get_id_owned(p.clone()) };
    for (q, i) in &seen {
      check((*i == id) == (*q == p), "F04|two paths have the same identifier exactly when they are equal");
      check((i.cmp(&id) == std::cmp::Ordering::Equal) == (*i == id), "F04|the order of identifiers is that of equality");
      if *q == p { cover("a path seen before"); }
    }
    seen.push((p, id));
    for (q, i) in &seen { check(st.get_path(*i) == q.as_clean_path(), "F04,F05|the path of an identifier is the one it was given for"); }
  }
  seen
}
fn ids(n: usize) {
  let mut st = Store::new();
  let seen = fill(&mut st, n);
  // the identifiers are keys of maps and sets
  let mut m: PathMap<usize> = PathMap::default();
  let mut set: PathSet = PathSet::default();
  for (k, (p, i)) in seen.iter().enumerate() {
    let w = i.wrap(k);
    check(w.path == *i && w.val == k, "F04|wrapping pairs a value with the identifier");
    let old = m.insert(w.path, w.val);
    let first = seen[..k].iter().rposition(|(q, _)| q == p);
    check(old == first, "F04|a map by identifier has one entry for a path");
    check(set.insert(*i) == first.is_none(), "F04|a set of identifiers has one element for a path");
  }
}
fn combines(arg: usize) {
  let (n, m) = (arg / 10, arg % 10);
  let mut a = Store::new();
  let before = fill(&mut a, n);
  let mut b = Store::new();
  let other = fill(&mut b, m);
  let mut calls: Vec<(PathId, PathId)> = Vec::new();
  a.combine(b, &mut |x, y| calls.push((x, y)));
  for (p, i) in &before { check(a.get_path(*i) == p.as_clean_path(), "F05|identifiers given before are still those of their paths"); }
  let mut distinct = 0;
  for (k, (p, i)) in other.iter().enumerate() {
    let new = a.get_id(p.as_clean_path());
    let c: Vec<&(PathId, PathId)> = calls.iter().filter(|c| c.0 == *i).collect();
    check(c.len() == 1, "F05|each identifier of the other store is reported once");
    check(c[0].1 == new, "F05|an identifier is reported with the one of the same path");
    check(a.get_path(c[0].1) == p.as_clean_path(), "F05|every path of the other store is in the result");
    if before.iter().any(|(q, _)| q == p) { cover("a path of both stores"); } else { cover("a path of the other store only"); }
    if !other[..k].iter().any(|(q, _)| q == p) { distinct += 1; }
    trace(u64::from(new == *i));
  }
  check(calls.len() == distinct, "F05|only the identifiers of the other store are reported");
  for (p, i) in &before { check(a.get_id(p.as_clean_path()) == *i, "F05|the identifiers of the paths there before are unchanged"); }
  // a path in neither store is a new one
  let p = some_path();
  let known = before.iter().chain(&other).any(|(q, _)| *q == p);
  let id = a.get_id_owned(p.clone());
  let taken = before.iter().any(|(_, i)| *i == id) || calls.iter().any(|c| c.1 == id);
  check(taken == known, "F05|a path of neither store gets an identifier of its own");
}

/// A query path, not necessarily clean.
fn memory(arg: usize) {
  let (n, len) = (arg / 10, arg % 10);
  let mut inner = BTreeMap::new();
  let mut files: Vec<(CleanPathBuf, String)> = Vec::new();
  for _ in 0..n {
    let p = some_path();
    let c = any_string(choose(2));
    files.retain(|(q, _)| *q != p);
    files.push((p.clone(), c.clone()));
    inner.insert(p, c);
  }
  let fs = MemoryFileSystem::new(inner);
  let q = if len == 0 { path(b"") } else { path(&any_bytes(len)) };
  // the segments of the query, without empty ones and `.`; a path with `..` or a relative one is none of the stored ones
  let qb = bytes(&q).to_vec();
  let segs: Vec<&[u8]> = split(&qb).into_iter().filter(|s| !s.is_empty() && s != b".").collect();
  let abs = qb.first() == Some(&b'/');
  let fsegs = |p: &CleanPathBuf| -> Vec<Vec<u8>> { split(bytes(p.as_path())).into_iter().filter(|s| !s.is_empty()).map(<[u8]>::to_vec).collect() };
  let file = files.iter().find(|(p, _)| abs && fsegs(p) == segs);
  check(fs.is_file(&q) == file.is_some(), "F06|a path is a file exactly when it is stored");
  match (fs.read_to_string(&q), file) {
    (Ok(x), Some((_, c))) => { check(x == *c, "F06|reading a file gives its contents"); cover("a file read"); trace_str(&x); }
    (Err(e), None) => { check(e.kind() == std::io::ErrorKind::NotFound, "F06|reading anything else fails as not found"); cover("no such file"); }
    _ => check(false, "F06|exactly the files stored can be read"),
  }
  match (fs.read_to_bytes(&q), file) {
    (Ok(x), Some((_, c))) => check(x == c.as_bytes(), "F06|the bytes of a file are those of its contents"),
    (Err(e), None) => check(e.kind() == std::io::ErrorKind::NotFound, "F06|reading the bytes of anything else fails as not found"),
    _ => check(false, "F06|exactly the files stored can be read as bytes"),
  }
  check(matches!(fs.current_dir(), Ok(x) if bytes(x.as_path()) == b"/"), "F06|the current directory is the root");
  if abs {
    match fs.read_dir(&q) {
      Err(_) => check(false, "F06|a directory can be read"),
      Ok(got) => {
        let want: Vec<&CleanPathBuf> = files.iter().map(|x| &x.0).filter(|p| { let s = fsegs(p); s.len() > segs.len() && s[..segs.len()] == segs[..] }).collect();
        check(got.len() == want.len(), "F06|as many entries as files below the directory");
        for w in &want { check(got.iter().any(|g| bytes(g) == bytes(w.as_path())), "F06|every file below the directory is an entry"); }
        if !want.is_empty() { cover("entries below a directory"); }
        trace(got.len() as u64);
      }
    }
  }
}

/// A long path of `n` segments or so, with two symbolic bytes in it; `true`: absolute.
fn long_path(n: usize) -> Vec<u8> {
  let mut v = Vec::new();
  let mut seg = |s: &[u8]| { v.push(b'/'); v.extend_from_slice(s); };
  let name = |i: usize| format!("s{i}");
  match choose(7) {
    // long names
    0 => { let mut s = vec![b'x'; n]; s[n / 2] = any_u8(); s.push(any_u8()); seg(&s); }
    // many names, then up again
    1 => { for i in 0..n { seg(name(i).as_bytes()); } for _ in 0..n / 2 { seg(b".."); } seg(&[any_u8(), any_u8()]); }
    // up beyond the root
    2 => { seg(&[any_u8()]); for _ in 0..n { seg(b".."); } seg(&[any_u8()]); }
    // nothing but empty ones and dots
    3 => { seg(&[any_u8()]); for i in 0..n { seg(if i % 3 == 0 { b"" } else { b"." }); } seg(&[any_u8()]); }
    // down and up all the time
    4 => { for i in 0..n { seg(name(i).as_bytes()); seg(b".."); if i % 16 == 0 { seg(b"q"); } } seg(&[any_u8(), b'.']); }
    // names that begin with dots
    5 => { for i in 0..n { seg(&vec![b'.'; 3 + i % 5]); } seg(&[any_u8(), any_u8()]); }
    // everything
    _ => { for i in 0..n { match i % 7 { 0 => seg(b""), 1 => seg(b"."), 3 => seg(b".."), 5 => seg(&[255, 0, b'.']), _ => seg(name(i).as_bytes()) } } seg(&[any_u8()]); }
  }
  v
}
/// `n` paths, some of them again, the same or in reverse.
fn many_paths(n: usize) -> Vec<CleanPathBuf> {
  let (step, again) = (choose(3) + 1, any_bool());
  let mut v = Vec::new();
  for i in 0..n {
    let k = match step { 1 => i, 2 => i / 2, _ => n - i + i % 3 };
    v.push(CleanPathBuf::new(path(format!("/d{}/f{}", k % 3, k).as_bytes())).unwrap());
  }
  if again { v.push(v[0].clone()); v.push(v[n / 2].clone()); }
  v
}
fn fill_many(st: &mut Store, v: &[CleanPathBuf]) -> Vec<PathId> {
  let ids: Vec<PathId> = v.iter().enumerate().map(|(i, p)| if i % 2 == 0 { st.get_id(p.as_clean_path()) } else { st.get_id_owned(p.clone()) }).collect();
  for (i, x) in ids.iter().enumerate() {
    check(st.get_path(*x) == v[i].as_clean_path(), "F04,F05|the path of an identifier is the one it was given for");
    for j in 0..i { check((*x == ids[j]) == (v[i] == v[j]), "F04|two paths have the same identifier exactly when they are equal"); }
  }
  cover("many paths");
  ids
}
fn many_combined(n: usize) {
  let (v, w) = (many_paths(n), many_paths(n));
  let (mut a, mut b) = (Store::new(), Store::new());
  let (x, y) = (fill_many(&mut a, &v), fill_many(&mut b, &w));
  let mut calls: Vec<(PathId, PathId)> = Vec::new();
  a.combine(b, &mut |x, y| calls.push((x, y)));
  for (p, i) in v.iter().zip(&x) { check(a.get_path(*i) == p.as_clean_path(), "F05|identifiers given before are still those of their paths"); }
  let mut distinct = 0;
  for (k, (p, i)) in w.iter().zip(&y).enumerate() {
    let new = a.get_id(p.as_clean_path());
    let mut c = calls.iter().filter(|c| c.0 == *i);
    check(c.next().is_some_and(|c| c.1 == new), "F05|an identifier is reported with the one of the same path");
    check(c.next().is_none(), "F05|each identifier of the other store is reported once");
    check(a.get_path(new) == p.as_clean_path(), "F05|every path of the other store is in the result");
    if !w[..k].contains(p) { distinct += 1; }
  }
  check(calls.len() == distinct, "F05|only the identifiers of the other store are reported");
  for (p, i) in v.iter().zip(&x) { check(a.get_id(p.as_clean_path()) == *i, "F05|the identifiers of the paths there before are unchanged"); }
  trace(distinct as u64);
}
/// More paths than fit in a small number.
fn huge(n: usize) {
  rustc_hash::spread();
  let p = |k: usize| CleanPathBuf::new(path(format!("/f{k}").as_bytes())).unwrap();
  let owned = any_bool();
  let mut st = Store::new();
  let mut ids = Vec::new();
  for k in 0..n { ids.push(if owned { st.get_id_owned(p(k)) } else { st.get_id(p(k).as_clean_path()) }); }
  for (k, i) in ids.iter().enumerate() { check(st.get_path(*i).as_path().as_os_str().len() == p(k).as_path().as_os_str().len(), "F04|the path of an identifier is the one it was given for"); }
  for k in (0..n).step_by(97).chain([1, 255, 256, 1023, 4096, 65_535, 65_536, n - 1]) {
    let k = k.min(n - 1);
    check(st.get_path(ids[k]) == p(k).as_clean_path(), "F04,F05|the path of an identifier is the one it was given for");
    check(st.get_id(p(k).as_clean_path()) == ids[k] && st.get_id_owned(p(k)) == ids[k], "F04|a path has the same identifier again");
  }
  let mut set = paths::PathSet::default();
  for i in &ids { check(set.insert(*i), "F04|different paths have different identifiers"); }
  cover("very many paths");
  trace(set.len() as u64);
}
/// Combining stores of which one has more paths than fit in a small number.
fn huge_combine(n: usize) {
  rustc_hash::spread();
  let p = |k: usize| CleanPathBuf::new(path(format!("/f{k}").as_bytes())).unwrap();
  let (mut a, mut b) = (Store::new(), Store::new());
  let (na, nb) = if choose(2) == 0 { (n, 40) } else { (40, n) };
  // every third path of the larger one, and more
  let ka = |k: usize| k * if na < nb { 3 } else { 1 };
  let kb = |k: usize| k * if na < nb { 1 } else { 3 } + if na < nb { 0 } else { n - 60 };
  let ia: Vec<PathId> = (0..na).map(|k| a.get_id_owned(p(ka(k)))).collect();
  let ib: Vec<PathId> = (0..nb).map(|k| b.get_id_owned(p(kb(k)))).collect();
  let mut calls: Vec<(PathId, PathId)> = Vec::new();
  a.combine(b, &mut |x, y| calls.push((x, y)));
  check(calls.len() == nb, "F05|each identifier of the other store is reported once");
  let map: paths::PathMap<PathId> = calls.iter().copied().collect();
  check(map.len() == nb, "F05|each identifier of the other store is reported once");
  for k in (0..nb).step_by(nb / 40) {
    let Some(new) = map.get(&ib[k]) else { check(false, "F05|an identifier is reported with the one of the same path"); return };
    check(a.get_path(*new) == p(kb(k)).as_clean_path(), "F05|an identifier is reported with the one of the same path");
  }
  for k in (0..na).step_by(na / 40) {
    check(a.get_path(ia[k]) == p(ka(k)).as_clean_path() && a.get_id_owned(p(ka(k))) == ia[k], "F05|identifiers given before are still those of their paths");
  }
  cover("very many paths");
}
fn many_files(n: usize) {
  let v = many_paths(n);
  let mut inner = BTreeMap::new();
  for (i, p) in v.iter().enumerate() { inner.insert(p.clone(), format!("{i}é")); }
  let last = |p: &CleanPathBuf| v.iter().rposition(|q| q == p);
  let fs = MemoryFileSystem::new(inner);
  for p in &v {
    let i = last(p).unwrap();
    check(fs.is_file(p.as_path()), "F06|a path is a file exactly when it is stored");
    check(matches!(fs.read_to_string(p.as_path()), Ok(x) if x == format!("{i}é")), "F06|reading a file gives its contents");
    check(matches!(fs.read_to_bytes(p.as_path()), Ok(x) if x == format!("{i}é").as_bytes()), "F06|the bytes of a file are those of its contents");
  }
  for dir in ["/", "/d0", "/d1", "/d2", "/d", "/d3", "/d1/"] {
    check(!fs.is_file(Path::new(dir)), "F06|a path is a file exactly when it is stored");
    let want: Vec<&CleanPathBuf> = { let mut w: Vec<_> = v.iter().filter(|p| p.as_path().starts_with(dir)).collect(); w.sort(); w.dedup(); w };
    let mut got = fs.read_dir(Path::new(dir)).unwrap_or_default();
    got.sort();
    check(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g == w.as_path()), "F06|every file below the directory is an entry");
    trace(got.len() as u64);
  }
}

entries! {
  fn h_long_new(n) { new_is(&long_path(n)); }
  fn h_long_push(n) { let b = long_path(n); let r = long_path(n); if any_bool() { push_is(&b, &r); } else { push_is(&b, &r[1..]); } }
  fn h_long_parent(n) { parent_is(&long_path(n)); }
  fn h_long_borrow(n) { let a = long_path(n); let mut b = a.clone(); match choose(3) { 0 => b.push(any_u8()), 1 => { b.pop(); } _ => b.extend_from_slice(b"/x/..") } borrow_is(&a, &b); }
  fn h_many_ids(n) { let v = many_paths(n); fill_many(&mut Store::new(), &v); }
  fn h_many_combine(n) { many_combined(n); }
  fn h_huge(n) { huge(n); }
  fn h_huge_combine(n) { huge_combine(n); }
  fn h_many_files(n) { many_files(n); }
  fn h_new(n) { new_is(&any_bytes(n)); }
  fn h_new_abs(n) { new_is(&any_abs(n)); }
  fn h_push(a) { let b = any_abs(a / 10); let r = any_bytes(a % 10); push_is(&b, &r); }
  fn h_parent(n) { parent_is(&any_abs(n)); }
  fn h_borrow(a) { borrow_is(&any_abs(a / 10), &any_abs(a % 10)); }
  fn h_ids(n) { ids(n); }
  fn h_combine(a) { combines(a); }
  fn h_memory(a) { memory(a); }
}
