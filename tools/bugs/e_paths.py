PP = 'paths/src/lib.rs'
CP = 'fn c(s: &str) -> paths::CleanPathBuf { paths::CleanPathBuf::new(s).unwrap() }\n'
bug('f-parent-twice', 'F01', [(PP, """    for component in components {
      match component {
""", """    let mut popped = false;
    for component in components {
      let parent = component == Component::ParentDir;
      // the last segment is gone already
      if std::mem::replace(&mut popped, parent) && parent {
        continue;
      }
      match component {
""")], 'two `..` in a row', 'Only one segment is removed.', 'paths', CP + r"""
fn main() { assert_eq!(c("/a/b/../../d").as_path(), std::path::Path::new("/d")); }""")
bug('f-push-fast', 'F02', [(PP, '''    self.0.push(path);
    *self = Self::new_unchecked(self.as_path());''', '''    let path = path.as_ref();
    let clean = path.components().all(|c| matches!(c, Component::Normal(_)));
    self.0.push(path);
    if !clean {
      *self = Self::new_unchecked(self.as_path());
    }''')], 'pushing a relative path with a `.` or an empty segment inside, or nothing', 'The result is not clean.', 'paths', CP + r'''
fn main() {
  let mut p = c("/a");
  p.push("b/./c");
  assert_eq!(p.as_path().as_os_str(), "/a/b/c");
}''')
bug('f-hash-bytes', 'F03', [(PP, '''#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct CleanPathBuf(PathBuf);
''', '''#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
#[repr(transparent)]
pub struct CleanPathBuf(PathBuf);

impl std::hash::Hash for CleanPathBuf {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    // clean paths are equal when their bytes are
    self.0.as_os_str().hash(state);
  }
}
''')], 'asking a map with clean paths as keys for a borrowed path', 'The path is not found.', 'paths', CP + r'''
fn main() {
  let m = std::collections::HashMap::from([(c("/a/b"), 1)]);
  assert_eq!(m.get(std::path::Path::new("/a/b")), Some(&1));
}''')
bug('f-last-id', 'F04', [(PP, '''    if let Some(x) = self.path_to_id.get(path) {
      *x
    } else {
      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.to_owned());
      self.path_to_id.insert(path.to_owned(), id);
      id
    }''', '''    if let Some(x) = self.path_to_id.get(path) {
      return *x;
    }
    let id = PathId(idx::Idx::new(self.id_to_path.len()));
    self.id_to_path.push(path.to_owned());
    if path.parent().is_some() {
      self.path_to_id.insert(path.to_owned(), id);
    }
    id''')], 'the root asked for twice, by borrowed path', 'It has two identifiers.', 'paths', CP + r'''
fn main() {
  let mut s = paths::Store::new();
  let a = s.get_id(c("/").as_clean_path());
  assert_eq!(s.get_id(c("/").as_clean_path()), a);
}''')
bug('f-combine-empty', 'F05', [(PP, '''    for (idx, path) in other.id_to_path.into_iter().enumerate() {''', '''    if self.id_to_path.is_empty() {
      // nothing changes
      *self = other;
      return;
    }
    for (idx, path) in other.id_to_path.into_iter().enumerate() {''')], 'combining into an empty store', 'No identifiers are reported.', 'paths', CP + r'''
fn main() {
  let (mut a, mut b) = (paths::Store::new(), paths::Store::new());
  b.get_id_owned(c("/x"));
  let mut n = 0;
  a.combine(b, &mut |_, _| n += 1);
  assert_eq!(n, 1);
}''')
bug('f-combine-base', 'F05', [(PP, '''      let new = self.get_id_owned(path);
      f(old, new);''', '''      let new = match self.path_to_id.get(&path) {
        Some(&x) => x,
        None => {
          self.get_id_owned(path);
          PathId(idx::Idx::new(base + idx))
        }
      };
      f(old, new);'''), (PP, '''    for (idx, path) in other.id_to_path.into_iter().enumerate() {
''', '''    let base = self.id_to_path.len();
    for (idx, path) in other.id_to_path.into_iter().enumerate() {
''')], 'a path only the other store has, after one that both have', 'It is reported with the wrong identifier.', 'paths', CP + r'''
fn main() {
  let (mut a, mut b) = (paths::Store::new(), paths::Store::new());
  a.get_id_owned(c("/x"));
  b.get_id_owned(c("/x"));
  b.get_id_owned(c("/y"));
  let mut last = None;
  a.combine(b, &mut |_, n| last = Some(n));
  assert_eq!(last, Some(a.get_id_owned(c("/y"))));
}''')
bug('f-dir-prefix', 'F06', [(PP, '''(p.starts_with(path) && p != path).then''', '''let below = |a: &[u8], b: &[u8]| a.starts_with(b) && a.len() > b.len();
      below(p.as_os_str().as_encoded_bytes(), path.as_os_str().as_encoded_bytes()).then''')], 'reading a directory whose name is the start of that of another file', 'The other file is an entry.', 'paths', CP + r'''
use paths::FileSystem;
fn main() {
  let fs = paths::MemoryFileSystem::new([(c("/ab"), String::new())].into());
  assert!(fs.read_dir(std::path::Path::new("/a")).unwrap().is_empty());
}''')
bug('f-file-dots', 'F06', [(PP, '''    self.inner.contains_key(path)
''', '''    CleanPathBuf::new(path).is_some_and(|p| self.inner.contains_key(&p))
''')], 'asking whether a path with `..` is a file', 'It is said to be a file, but cannot be read.', 'paths', CP + r'''
use paths::FileSystem;
fn main() {
  let fs = paths::MemoryFileSystem::new([(c("/a"), String::new())].into());
  let p = std::path::Path::new("/b/../a");
  assert_eq!(fs.is_file(p), fs.read_to_string(p).is_ok());
}''')
SCRATCH = r'''
use paths::FileSystem;
use std::{fs, path::PathBuf};
struct Scratch(PathBuf);
impl Scratch {
  fn new() -> Scratch {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    fs::create_dir(&d).unwrap();
    Scratch(d)
  }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }
'''
bug('f-read-bom', 'F07', [(PP, '''    std::fs::read_to_string(path)
''', '''    let mut ret = std::fs::read_to_string(path)?;
    if ret.starts_with('\\u{feff}') {
      ret.drain(..3);
    }
    Ok(ret)
''')], 'a file that starts with a byte order mark', 'It is not among what is read, so that all offsets are wrong.', 'paths', SCRATCH + r'''
fn main() {
  let d = Scratch::new();
  let f = d.0.join("f");
  fs::write(&f, "\u{feff}x").unwrap();
  assert_eq!(paths::RealFileSystem::default().read_to_string(&f).unwrap(), "\u{feff}x");
}''')
bug('f-read-size', 'F07', [(PP, '''    std::fs::read(path)
''', '''    use std::io::Read as _;
    let mut file = std::fs::File::open(path)?;
    let mut ret = vec![0u8; usize::try_from(file.metadata()?.len()).unwrap_or_default()];
    file.read_exact(&mut ret)?;
    Ok(ret)
''')], 'a file whose size the system does not know, like those of /proc', 'It is read as empty.', 'paths', r'''
use paths::FileSystem;
fn main() { assert!(!paths::RealFileSystem::default().read_to_bytes("/proc/self/cmdline".as_ref()).unwrap().is_empty()); }''')
bug('f-real-link', 'F08', [(PP, '''    path.is_file()
''', '''    std::fs::symlink_metadata(path).is_ok_and(|m| m.is_file())
''')], 'a symbolic link to a file', 'It is said to be no file.', 'paths', SCRATCH + r'''
fn main() {
  let d = Scratch::new();
  fs::write(d.0.join("f"), "").unwrap();
  std::os::unix::fs::symlink("f", d.0.join("g")).unwrap();
  assert!(paths::RealFileSystem::default().is_file(&d.0.join("g")));
}''')
bug('f-real-pipe', 'F08', [(PP, '''    path.is_file()
''', '''    path.exists() && !path.is_dir()
''')], 'a path that is neither a file nor a directory', 'It is said to be a file.', 'paths', r'''
use paths::FileSystem;
fn main() { assert!(!paths::RealFileSystem::default().is_file("/dev/null".as_ref())); }''')
bug('f-cwd-gone', 'F09', [(PP, '''std::env::current_dir()?) {''', '''std::env::current_dir().unwrap_or_else(|_| PathBuf::from("/"))) {''')], 'a current directory that was removed', 'The current directory is said to be the root.', 'paths', SCRATCH + r'''
fn main() {
  {
    let d = Scratch::new();
    std::env::set_current_dir(&d.0).unwrap();
  }
  assert!(paths::RealFileSystem::default().current_dir().is_err());
}''')
bug('f-entry-gone', 'F10', [(PP, '''std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()''', '''Ok(std::fs::read_dir(path)?.flatten().map(|x| x.path()).collect())''')], 'an error of reading a directory after it was opened', 'The entries before it are said to be all.', 'paths', SCRATCH + r'''
unsafe extern "C" { fn __errno_location() -> *mut i32; }
#[unsafe(no_mangle)]
pub extern "C" fn readdir64(_: *mut u8) -> *mut u8 { unsafe { *__errno_location() = 5; } std::ptr::null_mut() }
fn main() {
  let d = Scratch::new();
  let r = paths::RealFileSystem::default().read_dir(&d.0);
  // nothing is in it, but that is not known
  assert!(r.is_err());
}''')
bug('f-entry-twice', 'F10', [(PP, '''std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()''', '''let mut ret = std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect::<std::io::Result<Vec<_>>>()?;
    // no matter in what order the system has them
    ret.sort_unstable();
    ret.dedup_by(|a, b| a.file_stem() == b.file_stem());
    Ok(ret)''')], 'two files of a directory with the same name but for the extension', 'Only one of them is an entry.', 'paths', SCRATCH + r'''
fn main() {
  let d = Scratch::new();
  fs::write(d.0.join("a.x"), "").unwrap();
  fs::write(d.0.join("a.y"), "").unwrap();
  assert_eq!(paths::RealFileSystem::default().read_dir(&d.0).unwrap().len(), 2);
}''')
