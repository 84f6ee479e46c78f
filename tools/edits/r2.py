# edits that keep the behaviour: paths, pattern-match, small crates
import sys
R=sys.argv[1]+'/crates/'
def ed(f,*prs):
    s=open(R+f).read()
    for o,n in prs:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    open(R+f,'w').write(s)
def cut(f,a,b,n):
    s=open(R+f).read()
    assert s.count(a)==1,(f,a,s.count(a))
    i=s.index(a); j=s.index(b,i)
    open(R+f,'w').write(s[:i]+n+s[j:])
ed('paths/src/lib.rs',
('''    if let Some(x) = self.path_to_id.get(path) {
      *x
    } else {
      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.to_owned());
      self.path_to_id.insert(path.to_owned(), id);
      id
    }''','''    match self.path_to_id.get(path) {
      Some(x) => *x,
      None => self.insert_new(path.to_owned()),
    }'''),
('''    if let Some(x) = self.path_to_id.get(&path) {
      *x
    } else {
      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.clone());
      self.path_to_id.insert(path, id);
      id
    }
  }''','''    if let Some(&id) = self.path_to_id.get(&path) {
      return id;
    }
    self.insert_new(path)
  }

  fn insert_new(&mut self, path: CleanPathBuf) -> PathId {
    let id = PathId(idx::Idx::new(self.id_to_path.len()));
    let old = self.path_to_id.insert(path.clone(), id);
    debug_assert!(old.is_none());
    self.id_to_path.push(path);
    id
  }'''),
('''    for (idx, path) in other.id_to_path.into_iter().enumerate() {
      let old = PathId(idx::Idx::new(idx));
      let new = self.get_id_owned(path);
      f(old, new);
    }''','''    let mut next = 0usize;
    other.id_to_path.into_iter().for_each(|path| {
      let new = self.get_id_owned(path);
      f(PathId(idx::Idx::new(next)), new);
      next += 1;
    });'''),
('''    let mut components = path.components().peekable();
    let mut ret = if let Some(&c @ Component::Prefix(..)) = components.peek() {
      components.next();
      PathBuf::from(c.as_os_str())
    } else {
      PathBuf::new()
    };

    for component in components {
      match component {
        Component::Prefix(..) => unreachable!("prefix can only occur at start"),
        Component::RootDir => ret.push(component.as_os_str()),
        Component::CurDir => {}
        Component::ParentDir => {
          // ignore if we have no parent
          ret.pop();
        }
        Component::Normal(c) => ret.push(c),
      }
    }

    Self(ret)''','''    let mut start = PathBuf::new();
    let mut names = Vec::<&std::ffi::OsStr>::new();
    for component in path.components() {
      match component {
        Component::Normal(name) => names.push(name),
        Component::ParentDir => drop(names.pop()),
        Component::CurDir => {}
        Component::Prefix(..) | Component::RootDir => start.push(component),
      }
    }
    start.extend(names);
    Self(start)'''),
('''    self.0.push(path);
    *self = Self::new_unchecked(self.as_path());''','''    let joined = self.0.join(path.as_ref());
    self.0 = Self::new_unchecked(&joined).0;'''),
('''    let mut ret = self.to_owned();
    ret.push(other);
    ret''','''    CleanPathBuf::new_unchecked(&self.as_path().join(other))'''),
('''    match CleanPathBuf::new(std::env::current_dir()?) {
      Some(x) => Ok(x),
      None => Err(std::io::Error::other("path from `std::env::current_dir` was not absolute")),
    }''','''    let dir = std::env::current_dir()?;
    CleanPathBuf::new(dir).ok_or_else(|| {
      std::io::Error::other("path from `std::env::current_dir` was not absolute")
    })'''),
('''    std::fs::read_to_string(path)''','''    use std::io::Read as _;
    let mut ret = String::new();
    std::fs::File::open(path)?.read_to_string(&mut ret)?;
    Ok(ret)'''),
('''    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()''','''    let mut ret = Vec::new();
    for entry in std::fs::read_dir(path)? {
      let entry = entry?;
      ret.push(entry.path());
    }
    Ok(ret)'''),
('''    path.is_file()''','''    match std::fs::metadata(path) {
      Ok(m) => m.is_file(),
      Err(_) => false,
    }'''),
('''    match self.inner.get(path) {
      Some(x) => Ok(x.clone()),
      None => Err(std::io::Error::from(std::io::ErrorKind::NotFound)),
    }''','''    self.inner.get(path).cloned().ok_or_else(|| std::io::ErrorKind::NotFound.into())'''),
('''    self.read_to_string(path).map(String::into_bytes)''','''    match self.inner.get(path) {
      Some(x) => Ok(x.as_bytes().to_vec()),
      None => Err(std::io::ErrorKind::NotFound.into()),
    }'''),
('''    let iter = self.inner.keys().filter_map(|pb| {
      let p = pb.as_path();
      (p.starts_with(path) && p != path).then(|| pb.to_owned().into_path_buf())
    });
    Ok(iter.collect())''','''    let mut ret = Vec::new();
    for pb in self.inner.keys() {
      if pb.as_path() == path || !pb.as_path().starts_with(path) {
        continue;
      }
      ret.push(pb.as_path().to_path_buf());
    }
    Ok(ret)'''),
('''    self.inner.contains_key(path)''','''    self.inner.keys().any(|p| p.as_path() == path)'''),
)
# pattern-match
cut('pattern-match/src/alg.rs','/// Adds all the pat indices','#[derive(Debug)]\nstruct Useful','''/// Adds all the pat indices in the Pat to the set.
fn get_pat_indices<L: Lang>(ac: &mut FxHashSet<L::PatIdx>, pat: &Pat<L>) {
  let mut todo = vec![pat];
  while let Some(pat) = todo.pop() {
    ac.extend(pat.idx);
    match &pat.raw {
      RawPat::Con(con_pat) => todo.extend(&con_pat.args),
      RawPat::Or(pats) => todo.extend(pats),
    }
  }
}

''')
ed('pattern-match/src/alg.rs',
('''    RawPat::Or(or_pats) => {
      let mut m = mtx.clone();
      for pat in or_pats {
        let mut val = val.clone();
        val.push((pat, ty.clone()));
        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);
        m.push(val.into_iter().map(|(x, _)| x).collect());
      }
    }
    RawPat::Con(con_pat) => {
      let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con);
      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {
        let mut m = Matrix::<L>::default();
        for row in mtx.non_empty_rows() {
          let new = specialize(cx, &ty, &row.con_pat, &con)?;
          if let Some(new) = new {
            let mut pats = row.pats.clone();
            pats.extend(new.into_iter().map(|(x, _)| x));
            m.push(pats);
          }
        }
        let new = specialize(cx, &ty, &con_pat, &con)?.expect("p_con must cover itself");
        let new_len = new.len();
        let mut val = val.clone();
        val.extend(new);
        let mut u = useful(cx, ac, depth + 1, &m, val)?;
        for w in &mut u.witnesses {
          let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();
          w.push(Pat::con_(con.clone(), args, idx));
        }
        ret.extend(u);
      }
    }
  }
  if let Some(idx) = idx {
    if !ret.witnesses.is_empty() {
      ac.remove(&idx);
    }
  }
  Ok(ret)
}
''','''    RawPat::Or(or_pats) => {
      let mut m = mtx.clone();
      let rest: Vec<_> = val.iter().map(|(x, _)| x.clone()).collect();
      for pat in or_pats {
        let mut row = rest.clone();
        row.push(pat.clone());
        val.push((pat, ty.clone()));
        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);
        val.pop();
        m.push(row);
      }
    }
    RawPat::Con(con_pat) => {
      let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con);
      let cons = L::split(cx, &ty, &con_pat.con, last_col, depth)?;
      for con in cons {
        let m = specialize_matrix(cx, &ty, mtx, &con)?;
        let new = specialize(cx, &ty, &con_pat, &con)?.expect("p_con must cover itself");
        let new_len = new.len();
        let val: Vec<_> = val.iter().cloned().chain(new).collect();
        let u = useful(cx, ac, depth + 1, &m, val)?;
        for mut w in u.witnesses {
          let mut args = w.split_off(w.len() - new_len);
          args.reverse();
          w.push(Pat::con_(con.clone(), args, idx));
          ret.witnesses.push(w);
        }
      }
    }
  }
  if ret.witnesses.is_empty() {
    return Ok(ret);
  }
  if let Some(idx) = &idx {
    ac.remove(idx);
  }
  Ok(ret)
}

fn specialize_matrix<L: Lang>(
  cx: &mut L::Cx,
  ty: &L::Ty,
  mtx: &Matrix<L>,
  con: &L::Con,
) -> Result<Matrix<L>> {
  let mut m = Matrix::<L>::default();
  for row in mtx.non_empty_rows() {
    let Some(new) = specialize(cx, ty, &row.con_pat, con)? else { continue };
    let mut pats = row.pats.clone();
    for (pat, _) in new {
      pats.push(pat);
    }
    m.push(pats);
  }
  Ok(m)
}
'''),
('''    let mut ret: Vec<_> =
      pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();
    ret.reverse();
    Some(ret)''','''    let mut ret = Vec::with_capacity(tys.len());
    for (idx, ty) in tys.into_iter().enumerate().rev() {
      let pat = pat.args.get(idx).cloned().unwrap_or_else(Pat::any_no_idx);
      ret.push((pat, ty));
    }
    Some(ret)'''),
)
cut('pattern-match/src/matrix.rs','    match row.pop() {\n      None','/// Recursively expands','''    let Some(pat) = row.pop() else {
      self.rows.push(Row::Empty);
      return;
    };
    let mut con_pats = Vec::new();
    expand_or(&mut con_pats, pat);
    self.rows.extend(
      con_pats.into_iter().map(|con_pat| Row::NonEmpty(NonEmptyRow { pats: row.clone(), con_pat })),
    );
  }
}

''')
ed('pattern-match/src/matrix.rs',('''  match pat.raw {
    RawPat::Con(p) => ac.push(p),
    RawPat::Or(pats) => {
      for pat in pats {
        expand_or(ac, pat);
      }
    }
  }''','''  let mut todo = vec![pat];
  while let Some(pat) = todo.pop() {
    match pat.raw {
      RawPat::Con(p) => ac.push(p),
      RawPat::Or(pats) => todo.extend(pats.into_iter().rev()),
    }
  }'''))
ed('pattern-match/src/types.rs',('''        let mut iter = pats.iter();
        let Some(fst) = iter.next() else { return f.write_str("<NEVER>") };
        write!(f, "{fst}")?;
        for pat in iter {
          write!(f, " | {pat}")?;
        }
        Ok(())''','''        if pats.is_empty() {
          return f.write_str("<NEVER>");
        }
        for (i, pat) in pats.iter().enumerate() {
          if i != 0 {
            f.write_str(" | ")?;
          }
          write!(f, "{pat}")?;
        }
        Ok(())'''),
('''    let mut iter = self.args.iter();
    if let Some(fst) = iter.next() {
      f.write_str("(")?;
      write!(f, "{fst}")?;
      for arg in iter {
        write!(f, ", {arg}")?;
      }
      f.write_str(")")?;
    }
    Ok(())''','''    if self.args.is_empty() {
      return Ok(());
    }
    let args: Vec<_> = self.args.iter().map(|x| x.to_string()).collect();
    write!(f, "({})", args.join(", "))'''))
# small
ed('always/src/convert.rs',('''  match u32::try_from(n) {
    Ok(x) => x,
    Err(e) => {
      always!(false, "convert {n} to u32: {e}");
      u32::MAX
    }
  }''','''  u32::try_from(n).unwrap_or_else(|e| {
    always!(false, "convert {n} to u32: {e}");
    u32::MAX
  })'''))
ed('always/src/lib.rs',('''    let cond = $cond;
    if cfg!(debug_assertions) {
      assert!(cond, $fmt $($arg)*);
    }
    if !cond {
      $crate::__log_error!($fmt $($arg)*);
    }
    cond''','''    let cond: bool = $cond;
    if !cond {
      if cfg!(debug_assertions) {
        panic!($fmt $($arg)*);
      }
      $crate::__log_error!($fmt $($arg)*);
    }
    cond'''))
cut('code-h2-md-map/src/lib.rs','  let mut ret = FxHashMap','\n}\n','''  let mut ret = FxHashMap::<&str, String>::default();
  let mut cur = None::<(&str, String)>;
  for line in md.lines() {
    if let Some(next) = code_h2(line) {
      finish(&mut ret, cur.take());
      cur = Some((next, f(next)));
    } else if let Some((_, val)) = &mut cur {
      *val += "\\n";
      *val += line;
    }
  }
  finish(&mut ret, cur);
  ret
}

fn finish<'a>(ret: &mut FxHashMap<&'a str, String>, cur: Option<(&'a str, String)>) {
  let Some((key, val)) = cur else { return };
  let old = ret.insert(key, val);
  assert!(old.is_none());''')
ed('code-h2-md-map/src/lib.rs',('''  let mut ret = s.strip_prefix("## `")?.strip_suffix('`')?;
  if ret == "` ` `" {
    ret = "`";
  }
  Some(ret)''','''  match s.strip_prefix("## `")?.strip_suffix('`')? {
    "` ` `" => Some("`"),
    ret => Some(ret),
  }'''))
ed('char-name/src/lib.rs',('''  match get_opt(c) {
    Some(s) => s,
    None => panic!("don't know the name for {c}"),
  }''','''  get_opt(c).unwrap_or_else(|| panic!("don't know the name for {c}"))'''))
ed('diagnostic/src/lib.rs',('''    write!(f, "{}: {}: {}", self.range, self.severity, self.message)''','''    let Self { range, message, severity } = self;
    write!(f, "{range}")?;
    f.write_str(": ")?;
    write!(f, "{severity}")?;
    write!(f, ": {message}")'''),
('''    match self {
      Severity::Warning => f.write_str("warning"),
      Severity::Error => f.write_str("error"),
    }''','''    f.write_str(if *self == Severity::Error { "error" } else { "warning" })'''),
('''    match u16::from_str(s) {
      Ok(n) => Ok(Self(n)),
      Err(e) => Err(ParseCodeError(e)),
    }''','''    s.parse().map(Self::n).map_err(ParseCodeError)'''))
ed('elapsed/src/lib.rs',('''  let elapsed = Instant::now().duration_since(start);
  (res, elapsed)''','''  (res, start.elapsed())'''))
ed('fast-hash/src/lib.rs',('''  for (k, v) in xs {
    assert!(ret.insert(k, v).is_none());
  }
  ret''','''  ret.extend(xs);
  assert_eq!(ret.len(), N);
  ret'''),('''  for k in xs {
    assert!(ret.insert(k));
  }''','''  xs.into_iter().for_each(|k| {
    let new = ret.insert(k);
    assert!(new);
  });'''))
ed('fmt-util/src/lib.rs',('''  if let Some(x) = iter.next() {
    x.fmt(f)?;
  }
  for x in iter {
    f.write_str(sep)?;
    x.fmt(f)?;
  }
  Ok(())''','''  let Some(x) = iter.next() else { return Ok(()) };
  x.fmt(f)?;
  iter.try_for_each(|x| {
    f.write_str(sep)?;
    x.fmt(f)
  })'''))
ed('identifier-case/src/lib.rs',('''  let mut is_cap = true;
  for c in s.chars() {
    if c == '_' {
      is_cap = true;
    } else if is_cap {
      is_cap = false;
      ret.push(c.to_ascii_uppercase());
    } else {
      ret.push(c.to_ascii_lowercase());
    }
  }
  ret''','''  for part in s.split('_') {
    let mut cs = part.chars();
    if let Some(c) = cs.next() {
      ret.push(c.to_ascii_uppercase());
      ret.push_str(&cs.as_str().to_ascii_lowercase());
    }
  }
  ret'''),('''  let mut cs = s.chars();
  // don't put a _ at the start
  if let Some(c) = cs.next() {
    ret.push(c.to_ascii_lowercase());
  }
  for c in cs {
    if c.is_ascii_uppercase() {
      ret.push('_');
    }''','''  for (i, c) in s.char_indices() {
    if i != 0 && c.is_ascii_uppercase() {
      ret.push('_');
    }'''))
ed('idx/src/lib.rs',('''    Self(n.try_into().expect("couldn't convert to Idx"))''','''    assert!(n <= u32::MAX as usize, "couldn't convert to Idx");
    Self(n as u32)'''),('''    self.0.try_into().expect("couldn't convert from Idx")''','''    self.0 as usize'''))
ed('str-process/src/lib.rs',('''    while let Some(b) = self.cur() {
      if cond(b) {
        self.bump();
      } else {
        break;
      }
    }''','''    let rest = self.s.as_bytes().get(self.idx..).unwrap_or_default();
    self.idx += rest.iter().take_while(|&&b| cond(b)).count();'''),
('''    let end = self.idx + prefix.len();
    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {
      self.idx = end;
      true
    } else {
      false
    }''','''    let rest = self.s.as_bytes().get(self.idx..);
    let ok = rest.is_some_and(|bs| bs.starts_with(prefix));
    if ok {
      self.idx += prefix.len();
    }
    ok'''),
('''    self.bump();
    loop {
      if self.s.is_char_boundary(self.idx) {
        break;
      }
      match self.cur() {
        Some(_) => self.bump(),
        None => unreachable!("got to the end without a valid str"),
      }
    }''','''    self.idx += 1;
    while !self.s.is_char_boundary(self.idx) {
      assert!(self.cur().is_some(), "got to the end without a valid str");
      self.idx += 1;
    }'''),
('''    let start = m.idx;
    assert!(self.did_bump_since(m));
    &self.s.as_bytes()[start..self.idx]''','''    let ret = self.since(m);
    assert!(!ret.is_empty());
    ret'''))
ed('str-util/src/lib.rs',('''    (!s.is_empty()).then_some(Self(s))''','''    if s.is_empty() { None } else { Some(Self(s)) }'''),
('''    write!(f, "{}", self.0)''','''    f.write_str(&self.0)'''))
ed('text-size-util/src/lib.rs',('''  TextSize::try_from(n).expect("could not make text size")''','''  let n = u32::try_from(n).expect("could not make text size");
  TextSize::new(n)'''))
ed('uniq/src/lib.rs',('''    let ret = Uniq(self.0);
    // assuming overflow won't happen.
    self.0 += 1;
    ret''','''    // assuming overflow won't happen.
    let next = self.0 + 1;
    Uniq(core::mem::replace(&mut self.0, next))'''))
ed('write-rs-tokens/src/lib.rs',('''  let dst = std::path::Path::new(&out_dir).join(basename);
''',''),('''  std::fs::write(dst, formatted).expect("io failed");''','''  let mut dst = std::path::PathBuf::from(out_dir);
  dst.push(basename);
  let mut f = std::fs::File::create(&dst).expect("io failed");
  std::io::Write::write_all(&mut f, formatted.as_bytes()).expect("io failed");'''))
