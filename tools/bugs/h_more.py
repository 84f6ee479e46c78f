bug('c-clone-flat', 'C03', [(CM, '''#[derive(Debug, Clone)]
pub struct ChainMap<K, V> {
  stack: Vec<Rc<FxHashMap<K, V>>>,
}
''', '''#[derive(Debug)]
pub struct ChainMap<K, V> {
  stack: Vec<Rc<FxHashMap<K, V>>>,
}

impl<K: Hash + Eq + Clone, V: Clone> Clone for ChainMap<K, V> {
  fn clone(&self) -> Self {
    // many layers are slow to get from, so the clone has only one
    if self.stack.len() > 3 {
      let layers = self.stack.iter().rev();
      layers.flat_map(|m| m.iter()).map(|(k, v)| (k.clone(), v.clone())).collect()
    } else {
      Self { stack: self.stack.clone() }
    }
  }
}
''')], 'cloning after more than three layers were added, two of them for one key', 'The clone has the oldest value of the key.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::default();
  for i in 0..4 { m.insert(i % 3, i); }
  assert_eq!(m.clone().get(&0), Some(&3));
}''')
bug('c-own-lone', 'C03', [(CM, '''    Rc::make_mut(self.stack.first_mut().unwrap())''', '''    let one = self.stack.first_mut().unwrap();
    if Rc::strong_count(one) > 2 {
      *one = Rc::new((**one).clone());
    }
    // SAFETY: nobody else has it, or it was made just now
    unsafe { &mut *Rc::as_ptr(one).cast_mut() }''')], 'changing one of exactly two clones of a consolidated map', 'The change is seen in the other.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::from([(1, 1)]);
  let c = m.clone();
  *m.get_mut(&1).unwrap() = 2;
  assert_eq!(c.get(&1), Some(&1));
}''')
TG = 'topo-sort/src/graph.rs'
bug('g-pending-once', 'G01', [(TG, '''  let mut visitor = Visitor { graph, order: Vec::new() };''', '''  let mut visitor = Visitor { graph, order: Vec::new(), pending: BTreeSet::new() };'''), (TG, '''  order: Vec<T>,
}
''', '''  order: Vec<T>,
  /// The neighbors that are in the work already.
  pending: BTreeSet<T>,
}
'''), (TG, '''      work.extend(ns.iter().copied());''', '''      self.pending.remove(&value);
      work.extend(ns.iter().copied().filter(|&n| self.pending.insert(n)));''')], 'a node that is a neighbour of another and of one of the other\'s later neighbours', 'It comes after one that has it as a neighbour.', 'topo-sort', r'''
fn main() {
  let g: topo_sort::graph::Graph<u32> = [(1, [].into()), (2, [1].into()), (3, [1, 2].into())].into();
  let o = topo_sort::graph::get(&g).unwrap();
  let at = |n| o.iter().position(|&x| x == n).unwrap();
  assert!(at(1) < at(2));
}''')
bug('g-empty-capacity', 'G04', [('topo-sort/src/lib.rs', '''impl<T> Set for HashSet<T, rustc_hash::FxBuildHasher>
where
  T: Hash + Eq,
{
  type Elem = T;

  fn contains(&self, value: &Self::Elem) -> bool {
    self.contains(value)
  }

  fn insert(&mut self, value: Self::Elem) -> bool {
    self.insert(value)
  }

  fn remove(&mut self, value: &Self::Elem) -> bool {
    self.remove(value)
  }

  fn is_empty(&self) -> bool {
    self.is_empty()
  }
}
''', '''impl<T> Set for HashSet<T, rustc_hash::FxBuildHasher>
where
  T: Hash + Eq,
{
  type Elem = T;

  fn contains(&self, value: &Self::Elem) -> bool {
    self.contains(value)
  }

  fn insert(&mut self, value: Self::Elem) -> bool {
    self.insert(value)
  }

  fn remove(&mut self, value: &Self::Elem) -> bool {
    let ret = self.remove(value);
    // keep the memory in bounds
    if self.len() < self.capacity() / 8 {
      self.shrink_to_fit();
      self.clear();
    }
    ret
  }

  fn is_empty(&self) -> bool {
    self.is_empty()
  }
}
''')], 'removing from an `FxHashSet` that once had many more elements', 'The remaining elements are gone, too.', 'topo-sort fast-hash', r'''
use topo_sort::Set;
fn main() {
  let mut s = fast_hash::set_with_capacity::<u32>(0);
  for i in 0..20 { Set::insert(&mut s, i); }
  for i in 0..18 { Set::remove(&mut s, &i); }
  assert!(Set::contains(&s, &18) && Set::contains(&s, &19));
}''')
bug('e-empty-token', 'E01', [(EP, '''    sink.token(tok);
    self.tok_idx += 1;''', '''    // a token without text is only there for the parser
    if !tok.text.is_empty() {
      sink.token(tok);
    }
    self.tok_idx += 1;''')], 'a token whose text is empty', 'The sink does not get it.', ED, PRE + r'''
fn main() {
  let toks = [Token { kind: K::X, text: "x" }, Token { kind: K::Y, text: "" }];
  let mut p = Parser::<K, Er>::new(&toks);
  let e = p.enter(); p.bump(); p.bump(); p.exit(e, K::Root);
  struct N(u32);
  impl Sink<K, Er> for N { fn enter(&mut self, _: K) {} fn token(&mut self, _: Token<'_, K>) { self.0 += 1; } fn exit(&mut self) {} fn error(&mut self, _: Er) {} }
  let mut n = N(0);
  p.finish(&mut n);
  assert_eq!(n.0, 2);
}''')
bug('e-error-count', 'E03', [(EP, '''  events: Vec<Option<Event<K, E>>>,
}
''', '''  events: Vec<Option<Event<K, E>>>,
  /// How many errors there were.
  errors: usize,
}
'''), (EP, '''events: Vec::new() }''', '''events: Vec::new(), errors: 0 }'''), (EP, '''events_len: self.events.len() }''', '''events_len: self.events.len(), errors: self.errors }'''),
  (EP, '''    let error_since =
      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));''', '''    let error_since = self.errors > save.errors;'''), (EP, '''    self.events.push(Some(Event::Error(error)));''', '''    self.events.push(Some(Event::Error(error)));
    self.errors += 1;'''), (EP, '''  events_len: usize,
}
''', '''  events_len: usize,
  errors: usize,
}
''')], 'deciding a save after an inner one was restored to', 'The errors that were undone count for the outer save.', ED, PRE + r'''
fn main() {
  run("xy", |p| {
    let e = p.enter();
    let a = p.save();
    let b = p.save();
    p.error(Er);
    assert!(!p.ok_since(b));
    p.bump();
    assert!(p.ok_since(a));
    p.bump();
    p.exit(e, K::Root);
  });
}''')
bug('e-error-same', 'E05', [(EP, '''    self.events.push(Some(Event::Error(error)));''', '''    // more errors at the same place do not help
    if !matches!(self.events.last(), Some(Some(Event::Error(_)))) {
      self.events.push(Some(Event::Error(error)));
    }''')], 'two errors without anything in between', 'The second is not reported.', ED, PRE + r'''
fn main() {
  assert_eq!(run("x", |p| { let e = p.enter(); p.error(Er); p.error(Er); p.bump(); p.exit(e, K::Root); }).matches('!').count(), 2);
}''')
bug('e-trivia-merge', 'E06', [(RS, '''  no_range: Vec<E>,
}
''', '''  no_range: Vec<E>,
  /// Trivia not yet in the tree.
  trivia: Option<(SyntaxKind, String)>,
}

impl<K, E> RowanSink<K, E> {
  fn flush(&mut self) {
    if let Some((kind, text)) = self.trivia.take() {
      self.builder.token(kind, &text);
    }
  }
}
'''), (RS, '''    self.extend_errors();
    let root''', '''    self.extend_errors();
    self.flush();
    let root'''), (RS, '''      no_range: Vec::new(),
    }''', '''      no_range: Vec::new(),
      trivia: None,
    }'''), (RS, '''    self.builder.start_node(kind.into());''', '''    self.flush();
    self.builder.start_node(kind.into());'''), (RS, '''    self.builder.finish_node();''', '''    self.flush();
    self.builder.finish_node();'''), (RS, '''    self.builder.token(token.kind.into(), token.text);
''', '''    let raw: SyntaxKind = token.kind.into();
    match &mut self.trivia {
      Some((kind, text)) if is_trivia && *kind == raw => text.push_str(token.text),
      _ => {
        self.flush();
        if is_trivia {
          self.trivia = Some((raw, token.text.to_owned()));
        } else {
          self.builder.token(raw, token.text);
        }
      }
    }
''')], 'two trivia tokens of the same kind in a row', 'They are one token in the tree.', RD, RPRE + r'''
fn main() {
  let toks = [t(K::X, "a"), t(K::Ws, " "), t(K::Ws, " "), t(K::X, "b")];
  let mut p = Parser::<K, u8>::new(&toks);
  let r = p.enter(); p.bump(); p.bump(); p.exit(r, K::Root);
  let mut s = RowanSink::default();
  p.finish(&mut s);
  let (root, _) = s.finish::<L>();
  assert_eq!(root.children_with_tokens().count(), 4);
}''')
bug('e-lead-chain', 'E07', [(EP, '''          for kind in kinds.drain(..).rev() {
            // keep as much trivia as possible outside of what we're entering.
            if levels != 0 {
              self.eat_trivia(&mut to_enter, sink);
            }
''', '''          // keep as much trivia as possible outside of what we're entering.
          if levels != 0 {
            self.eat_trivia(&mut to_enter, sink);
          }
          for kind in kinds.drain(..).rev() {
''')], 'trivia at the start, and a root that precedes its first node', 'The trivia is in that node.', ED, PRE + r'''
fn main() {
  assert_eq!(run(" x", |p| { let e = p.enter(); p.bump(); let e = p.exit(e, K::A); let e = p.precede(e); p.exit(e, K::Root); }), "Root( A(x))");
}''')
bug('e-eat-inline', 'E08', [(EP, '''    if self.at(kind) {
      Some(self.bump())
    } else {''', '''    if let Some(tok) = self.peek().filter(|tok| tok.kind == kind) {
      self.events.push(Some(Event::Token));
      self.tok_idx += 1;
      Some(tok)
    } else {''')], 'a node whose tokens were all consumed by kind', 'It is said to be empty.', ED, PRE + r'''
fn main() {
  run("x", |p| { let e = p.enter(); p.eat(K::X); assert!(!p.exit(e, K::Root).is_empty()); });
}''')
bug('p-split-take', 'P02', [(PA, '''let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con);''', '''let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con).take(5);''')], 'more than five patterns of a type whose wildcard is split by the patterns there are', 'What only the later ones match is said to be missing.', 'pattern-match', r'''
use pattern_match::{Lang, Pat, Result, check};
#[derive(Debug, Clone, PartialEq)]
enum C { Any, N(u32), Other(Vec<u32>) }
enum L {}
impl Lang for L {
  type Cx = ();
  type PatIdx = u32;
  type Con = C;
  type Ty = ();
  fn any() -> C { C::Any }
  fn split<'a, I: Iterator<Item = &'a C>>(_: &mut (), _: &(), con: &C, cons: I, _: usize) -> Result<Vec<C>> {
    if *con != C::Any { return Ok(vec![con.clone()]); }
    let ns: Vec<u32> = cons.filter_map(|c| match c { C::N(n) => Some(*n), _ => None }).collect();
    let mut ret: Vec<C> = ns.iter().map(|&n| C::N(n)).collect();
    ret.push(C::Other(ns));
    Ok(ret)
  }
  fn get_arg_tys(_: &mut (), _: &(), _: &C) -> Result<Vec<()>> { Ok(vec![]) }
  fn covers(l: &C, r: &C) -> bool { *l == C::Any || l == r }
}
fn main() {
  let c = check::<L>(&mut (), (0..6).map(|n| Pat::zero(C::N(n), n)).collect(), ()).unwrap();
  let [Pat { raw: pattern_match::RawPat::Con(c), .. }] = &c.missing[..] else { panic!() };
  assert_eq!(c.con, C::Other((0..6).collect()));
}''')
bug('p-any-args', 'P04', [(PA, '''    if !pat.args.is_empty() {
      return Err(CheckError("pat args was not empty"));
    }
    let tys = L::get_arg_tys(cx, ty, val_con)?;
''', '''    let tys = L::get_arg_tys(cx, ty, val_con)?;
    if pat.args.len() > tys.len() {
      return Err(CheckError("pat args was not empty"));
    }
''')], 'a wildcard with arguments, at a type whose constructors have as many', 'It is taken as without.', 'pattern-match', PLANG + r'''
fn main() { assert!(check::<L>(&mut 0, vec![Pat::con(C::Any, vec![z(C::No, 0)], 1)], T::Pair).is_err()); }''')
bug('p-show-one', 'P05', [(PT, '''        let Some(fst) = iter.next() else { return f.write_str("<NEVER>") };
        write!(f, "{fst}")?;''', '''        let Some(fst) = iter.next() else { return f.write_str("<NEVER>") };
        // alternatives of alternatives are not worth a bar each
        if let (RawPat::Or(inner), 1) = (&fst.raw, pats.len()) {
          return inner.iter().try_for_each(|pat| write!(f, "{pat}"));
        }
        write!(f, "{fst}")?;''')], 'a single alternative that consists of alternatives', 'There are no bars between them.', 'pattern-match', PLANG + r'''
fn main() { assert_eq!(Pat::<L>::or(vec![Pat::or(vec![z(C::No, 0), z(C::Yes, 1)], 2)], 3).to_string(), "No | Yes"); }''')
bug('f-lossy', 'F01', [(PP, '''        Component::Normal(c) => ret.push(c),''', '''        Component::Normal(c) => ret.push(c.to_string_lossy().as_ref()),''')], 'a path that is not UTF-8', 'Its bytes are replaced.', 'paths', r'''
use std::os::unix::ffi::OsStrExt as _;
fn main() {
  let p = std::path::Path::new(std::ffi::OsStr::from_bytes(b"/a\xff"));
  assert_eq!(paths::CleanPathBuf::new(p).unwrap().as_path(), p);
}''')
bug('f-push-lead', 'F02', [(PP, '''    self.0.push(path);
    *self = Self::new_unchecked(self.as_path());''', '''    let path = path.as_ref();
    if path.is_absolute() {
      *self = Self::new_unchecked(path);
      return;
    }
    let mut cs = path.components();
    while let Ok(rest) = cs.as_path().strip_prefix("..") {
      self.0.pop();
      cs = rest.components();
    }
    if cs.as_path().components().next().is_some() {
      self.0.extend(cs);
    }''')], 'pushing a path with a `..` after something else', 'It stays in the path.', 'paths', CP + r'''
fn main() {
  let mut p = c("/a");
  p.push("../b/../d");
  assert_eq!(p.as_path().as_os_str(), "/d");
}''')
bug('f-eq-folded', 'F03', [(PP, '''#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct CleanPath(Path);
''', '''#[derive(Debug, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct CleanPath(Path);

impl PartialOrd for CleanPath {
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(other))
  }
}

impl Ord for CleanPath {
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    // clean paths compare as their bytes
    self.0.as_os_str().cmp(other.0.as_os_str())
  }
}
''')], 'borrowed clean paths, one with a segment that another one of the same directory continues with a byte below the slash', 'They are ordered differently than the owned ones, so a sorted map does not find them.', 'paths', CP + r'''
fn main() {
  let (a, b) = (c("/a/b"), c("/a-b"));
  assert_eq!(a.cmp(&b), a.as_clean_path().cmp(b.as_clean_path()));
}''')
bug('f-id-short', 'F04', [(PP, '''      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.clone());
      self.path_to_id.insert(path, id);
      id''', '''      let id = PathId(idx::Idx::new(self.path_to_id.len()));
      // the root is known to everyone
      if path.parent_known() {
        self.path_to_id.insert(path.clone(), id);
      }
      self.id_to_path.push(path);
      id'''), (PP, '''impl CleanPathBuf {
  /// Makes a new''', '''impl CleanPathBuf {
  fn parent_known(&self) -> bool {
    self.as_path().parent().is_some()
  }

  /// Makes a new''')], 'the owned root path, and then another', 'Both have the same identifier.', 'paths', CP + r'''
fn main() {
  let mut s = paths::Store::new();
  assert!(s.get_id_owned(c("/")) != s.get_id_owned(c("/a")));
}''')
bug('f-cwd-logical', 'F09', [(PP, '''    match CleanPathBuf::new(std::env::current_dir()?) {''', '''    // like `pwd` does, so that symbolic links are kept
    let dir = match std::env::var_os("PWD") {
      Some(dir) if Path::new(&dir).is_absolute() => PathBuf::from(dir),
      _ => std::env::current_dir()?,
    };
    match CleanPathBuf::new(dir) {''')], 'an environment that does not go with the directory', 'It is the directory of the environment.', 'paths', r'''
use paths::FileSystem as _;
fn main() {
  std::env::set_current_dir("/").unwrap();
  unsafe { std::env::set_var("PWD", "/tmp") };
  assert_eq!(paths::RealFileSystem::default().current_dir().unwrap().as_path(), std::path::Path::new("/"));
}''')
bug('s-since-empty', 'S02', [(SPF, '''    let start = m.idx;
    m.bomb.defuse();
    &self.s.as_bytes()[start..self.idx]''', '''    let ret = &self.s.as_bytes()[m.idx..self.idx];
    if !ret.is_empty() {
      m.bomb.defuse();
    }
    ret''')], 'asking for an empty slice in a debug build', 'It panics.', 'str-process', r'''
fn main() {
  let s = str_process::St::new("a");
  assert_eq!(s.since(s.mark()), b"");
}''')
bug('i-digit-cap', 'I01', [(ICF, '''      is_cap = false;
      ret.push(c.to_ascii_uppercase());''', '''      // the first letter of the word
      is_cap = c.is_ascii_digit();
      ret.push(c.to_ascii_uppercase());''')], 'a word that starts with a digit', 'The letter after it is in upper case.', 'identifier-case', r'''
fn main() { assert_eq!(identifier_case::snake_to_pascal("a_2d"), "A2d"); }''')
bug('i-double', 'I02', [(ICF, '''    if c.is_ascii_uppercase() {
      ret.push('_');''', '''    if c.is_ascii_uppercase() && !ret.ends_with('_') {
      ret.push('_');''')], 'an underscore before an upper-case letter', 'None is added.', 'identifier-case', r'''
fn main() { assert_eq!(identifier_case::pascal_to_snake("A_B"), "a__b"); }''')
bug('n-pair', 'N01', [('char-name/src/lib.rs', ''''/' => "Slash",''', ''''/' | '\\u{2044}' => "Slash",''')], 'a slash for fractions', 'It has the name of the slash.', 'char-name', r'''
fn main() { assert!(char_name::get_opt('\u{2044}').is_none()); }''')
bug('r-hash', 'R01', [('str-util/src/lib.rs', '''#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Name(SmolStr);
''', '''#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Name(SmolStr);

impl std::hash::Hash for Name {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    state.write(self.0.as_bytes());
  }
}
''')], 'looking a name up in a map by its string', 'It is not found.', 'str-util', r'''
fn main() {
  let m = std::collections::HashSet::from([str_util::Name::new("a")]);
  assert!(m.contains("a"));
}''')
bug('x-saturate', 'X01', [('idx/src/lib.rs', '''    Self(n.try_into().expect("couldn't convert to Idx"))''', '''    assert!(n <= 1 << 32, "couldn't convert to Idx");
    Self(n.try_into().unwrap_or(u32::MAX))''')], 'the first number that does not fit', 'It becomes the last one that does.', 'idx', r'''
fn main() { assert!(std::panic::catch_unwind(|| idx::Idx::new(1 << 32)).is_err()); }''')
bug('u-tag', 'U01', [('uniq/src/lib.rs', '''    let ret = Uniq(self.0);''', '''    // the high byte is left for the user
    let ret = Uniq(self.0 & 0x00ff_ffff);''')], 'more than 16777216 identifiers', 'They begin anew.', 'uniq', r'''
fn main() {
  let mut m = uniq::UniqMk::default();
  let a = m.mk();
  for _ in 1..1 << 24 { m.mk(); }
  assert!(m.mk() != a);
}''')
bug('d-empty-range', 'D02', [('text-pos/src/lib.rs', '''    if self.start.line == self.end.line {
''', '''    if self.start == self.end {
      fmt::Display::fmt(&self.start, f)
    } else if self.start.line == self.end.line {
''')], 'an empty range', 'Its end is left out.', 'text-pos', r'''
fn main() {
  let p = text_pos::PositionUtf16 { line: 1, col: 2 };
  assert_eq!(text_pos::RangeUtf16 { start: p, end: p }.to_string(), "2:3-3");
}''')
bug('d-no-message', 'D03', [('diagnostic/src/lib.rs', '''    write!(f, "{}: {}: {}", self.range, self.severity, self.message)''', '''    write!(f, "{}: {}", self.range, self.severity)?;
    for (idx, line) in self.message.split('\\n').enumerate() {
      write!(f, "{}{line}", if idx == 0 { ": " } else { "\\n  " })?;
    }
    Ok(())''')], 'a message of more than one line', 'The lines after the first have blanks before them.', 'diagnostic text-pos', r'''
fn main() {
  let d = diagnostic::Diagnostic { range: text_pos::RangeUtf16::zero(text_pos::PositionUtf16 { line: 0, col: 0 }), message: "x\ny".to_owned(), severity: diagnostic::Severity::Error };
  assert!(d.to_string().ends_with(": error: x\ny"));
}''')
bug('h-debug-map', 'H01', [('fast-hash/src/lib.rs', '''  let mut ret = map_with_capacity(xs.len());
  for (k, v) in xs {
    assert!(ret.insert(k, v).is_none());
  }
  ret''', '''  let ret: FxHashMap<K, V> = xs.into_iter().collect();
  debug_assert_eq!(ret.len(), N);
  ret''')], 'two equal keys, in a release build', 'The first is lost silently.', 'fast-hash', r'''
fn main() { assert!(std::panic::catch_unwind(|| fast_hash::map([(1, 2), (1, 3)])).is_err()); }''', REL)
bug('z-len', 'Z01', [('text-size-util/src/lib.rs', '''  TextSize::try_from(n).expect("could not make text size")''', '''  // sizes are differences, too, so half of them have to do
  TextSize::new(u32::try_from(n & (usize::MAX >> 1)).expect("could not make text size"))''')], 'a number with the highest bit set', 'It does not panic.', 'text-size-util', r'''
fn main() { assert!(std::panic::catch_unwind(|| text_size_util::mk_text_size((usize::MAX >> 1) + 2)).is_err()); }''')
bug('l-wall', 'L01', [('elapsed/src/lib.rs', '''use std::time::{Duration, Instant};
''', '''use std::time::{Duration, SystemTime};
'''), ('elapsed/src/lib.rs', '''  let start = Instant::now();
  let res = f();
  let elapsed = Instant::now().duration_since(start);''', '''  let start = SystemTime::now();
  let res = f();
  let elapsed = start.elapsed().unwrap_or_default();''')], 'the clock on the wall being set during the call', 'The duration is another.', 'elapsed', r'''
static mut N: i64 = 0;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 { unsafe { *t = [if c == 0 { 5 } else { 5 + N }, 1]; } 0 }
fn main() { assert_eq!(elapsed::time(|| unsafe { N = 2 }).1.as_secs(), 2); }''')
bug('l-level-before', 'L02', [('elapsed/src/lib.rs', '''  let (ret, elapsed) = time(f);
  log::info!("{msg}: {elapsed:?}");
  ret''', '''  if !log::log_enabled!(log::Level::Info) {
    return f();
  }
  let (ret, elapsed) = time(f);
  log::info!("{msg}: {elapsed:?}");
  ret''')], 'a call that turns the log on', 'Nothing is logged.', 'elapsed log:"0.4.20"', r'''
use std::sync::atomic::{AtomicU32, Ordering};
static N: AtomicU32 = AtomicU32::new(0);
struct Lg;
impl log::Log for Lg { fn enabled(&self, _: &log::Metadata<'_>) -> bool { true } fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, Ordering::Relaxed); } fn flush(&self) {} }
fn main() {
  log::set_logger(&Lg).unwrap();
  log::set_max_level(log::LevelFilter::Off);
  elapsed::log("x", || log::set_max_level(log::LevelFilter::Info));
  assert_eq!(N.load(Ordering::Relaxed), 1);
}''')
bug('w-quiet', 'W02', [('always/src/convert.rs', '''      always!(false, "convert {n} to u32: {e}");
      u32::MAX''', '''      debug_assert!(false, "convert {n} to u32: {e}");
      u32::MAX''')], 'a number that does not fit, in a release build', 'Nothing is logged.', 'always log:"0.4.20"', r'''
use std::sync::atomic::{AtomicU32, Ordering};
static N: AtomicU32 = AtomicU32::new(0);
struct Lg;
impl log::Log for Lg { fn enabled(&self, _: &log::Metadata<'_>) -> bool { true } fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, Ordering::Relaxed); } fn flush(&self) {} }
fn main() {
  log::set_logger(&Lg).unwrap();
  log::set_max_level(log::LevelFilter::Info);
  let _ = always::convert::usize_to_u32(1 << 32);
  assert_eq!(N.load(Ordering::Relaxed), 1);
}''', REL)
gen('y-alt-range', 'Y05', [(GA, '''        matches!(kind, #(#kinds)|*)''', '''        [#(#kinds),*].iter().any(|&k| k == kind) || (SK::#last as u16) < (kind as u16) && (kind as u16) < SK::#first as u16'''), (GA, '''  quote! {
    pub enum #name {
      #(#defs ,)*
    }
    impl AstNode''', '''  let first = ident(&cx.grammar[unwrap_node(rules.first().unwrap())].name);
  let last = ident(&cx.grammar[unwrap_node(rules.last().unwrap())].name);
  quote! {
    pub enum #name {
      #(#defs ,)*
    }
    impl AstNode''')], 'alternatives whose kinds come in the opposite order, with another between', 'The other one is said to be castable.', r"""Root = B Zed A Zed = 'x' Alt = A | B A = 'a' B = 'b'""", r'''
fn main() {
  use rowan::ast::AstNode;
  assert!(Alt::can_cast(SK::A) && Alt::can_cast(SK::B) && !Alt::can_cast(SK::Zed));
}''')
gen('y-alt-lower', 'Y06', [(GA, '''    let text = cx.grammar[tok].name.as_str();''', '''    let text = cx.grammar[tok].name.to_ascii_lowercase();''')], 'a keyword with upper-case letters among alternatives', 'Its text is in lower case.', r"""Root = Lit Lit = 'Self' | 'in'""", r'''
fn main() { assert_eq!(LitKind::SelfKw.to_str(), "Self"); }''')
