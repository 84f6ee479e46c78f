# edits that keep the behaviour: another way of writing some of it
import sys
R=sys.argv[1]+'/crates/'
def ed(f,*prs):
    s=open(R+f).read()
    for o,n in prs:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    open(R+f,'w').write(s)
def cut(f,a,b,n):
    s=open(R+f).read()
    assert s.count(a)==1,(f,a,s.count(a))
    i=s.index(a); j=s.index(b,i)
    open(R+f,'w').write(s[:i]+n+s[j:])
ed('apply-changes/src/lib.rs',('''  let mut pos_db = text_pos::PositionDb::new(contents);

''',''),
('''  let mut index_valid = u32::MAX;
''',''),('''    if index_valid <= range.end.line {
      pos_db = text_pos::PositionDb::new(contents);
    }
    index_valid = range.start.line;
    if let Some(range) = pos_db.text_range_utf16(range) {
      contents.replace_range(std::ops::Range::<usize>::from(range), &change.text);
    }''','''    let Some(range) = text_pos::PositionDb::new(contents).text_range_utf16(range) else { continue };
    let (start, end) = (usize::from(range.start()), usize::from(range.end()));
    *contents = [&contents[..start], change.text.as_str(), &contents[end..]].concat();'''))
ed('text-pos/src/lib.rs',('''    self.position_to_utf16(self.position_utf8(text_size)?)''','''    let lc = self.inner.try_line_col(text_size)?;
    self.position_to_utf16(PositionUtf8 { line: lc.line, col: lc.col })'''),
('''    self.text_size_utf8(self.position_to_utf8(pos)?)''','''    self.position_to_utf8(pos).and_then(|pos| self.text_size_utf8(pos))'''),
('''    self.text_range_utf8(self.range_to_utf8(range)?)''','''    let start = self.text_size_utf16(range.start)?;
    let end = self.text_size_utf16(range.end)?;
    Some(TextRange::new(start, end))'''),
('''  fn text_range_utf8(&self, range: RangeUtf8) -> Option<TextRange> {
    Some(TextRange::new(self.text_size_utf8(range.start)?, self.text_size_utf8(range.end)?))
  }

''',''),
('''  fn range_to_utf8(&self, range: RangeUtf16) -> Option<RangeUtf8> {
    Some(RangeUtf8 {
      start: self.position_to_utf8(range.start)?,
      end: self.position_to_utf8(range.end)?,
    })
  }

''',''))
# a chain map whose layers are flattened through a list of pairs
ed('chain-map/src/lib.rs',('''    if self.stack.len() != 1 {
      let mut one = FxHashMap::<K, V>::default();
      for m in self.stack.drain(..) {
        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
        one.extend(m);
      }
      self.stack.push(Rc::new(one));
    }
    Rc::make_mut(self.stack.first_mut().unwrap())''','''    if self.stack.len() != 1 {
      let layers = std::mem::take(&mut self.stack);
      let one: FxHashMap<K, V> = layers
        .into_iter()
        .flat_map(|m| match Rc::try_unwrap(m) {
          Ok(m) => m.into_iter().collect::<Vec<_>>(),
          Err(m) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        })
        .collect();
      self.stack = vec![Rc::new(one)];
    }
    let [one] = &mut self.stack[..] else { unreachable!() };
    Rc::make_mut(one)'''),
('''    self.stack.iter().rev().find_map(|m| m.get(k))''','''    let mut ret = None;
    for m in &self.stack {
      ret = m.get(k).or(ret);
    }
    ret'''),
('''    let is_len_one = self.stack.len() == 1;
    let mut iter = self.stack.iter().rev().flat_map(|x| x.iter());
    let mut seen = FxHashSet::<&K>::default();
    std::iter::from_fn(move || {
      loop {
        let (k, v) = iter.next()?;
        if is_len_one || seen.insert(k) {
          return Some((k, v));
        }
      }
    })''','''    let mut all = FxHashMap::<&K, &V>::default();
    for m in &self.stack {
      all.extend(m.iter());
    }
    all.into_iter()'''),
('use fast_hash::{FxHashMap, FxHashSet, map};','use fast_hash::{FxHashMap, map};'),
('''    IntoIter(std::mem::take(self.consolidate_()).into_iter())''','''    self.consolidate();
    let one = self.stack.pop().expect("consolidated");
    IntoIter(Rc::unwrap_or_clone(one).into_iter())'''),
('''    let top: FxHashMap<_, _> = iter.into_iter().collect();
    self.stack.push(Rc::new(top));''','''    let mut top = FxHashMap::default();
    for (k, v) in iter {
      top.insert(k, v);
    }
    self.stack.push(Rc::new(top));'''))
# the parser: finish writes a list of steps first
cut('event-parse/src/lib.rs','''    let mut to_enter = Vec::<K>::new();
    let mut fst = None::<K>;''','''    // give an empty node for the empty parse''','''    let fst = self.events.iter().flatten().find_map(|ev| match ev {
      Event::Enter(kind, _) => Some(*kind),
      _ => None,
    });
    let mut events = std::mem::take(&mut self.events);
    let mut to_enter = Vec::<K>::new();
    self.tok_idx = 0;
    let mut levels: usize = 0;
    let mut idx = 0;
    while idx < events.len() {
      match events[idx].take() {
        None => {}
        Some(Event::Enter(kind, parent)) => {
          for kind in parents(&mut events, kind, parent) {
            // keep as much trivia as possible outside of what we're entering.
            if levels > 0 {
              self.eat_trivia(&mut to_enter, sink);
            }
            levels += 1;
            to_enter.push(kind);
          }
        }
        Some(Event::Exit) => {
          levels -= 1;
          if to_enter.is_empty() {
            sink.exit();
          } else {
            to_enter.truncate(to_enter.len() - 1);
          }
          // keep as much trivia as possible outside of top-level items.
          if levels == 1 {
            self.eat_trivia(&mut to_enter, sink);
          }
        }
        Some(Event::Token) => {
          self.eat_trivia(&mut to_enter, sink);
          let tok = self.tokens[self.tok_idx];
          self.token(&mut to_enter, sink, tok);
        }
        Some(Event::Error(expected)) => sink.error(expected),
      }
      idx += 1;
    }
    assert_eq!(levels, 0);
''')
ed('event-parse/src/lib.rs',('''/// A marker for a syntax construct that is mid-parse.''','''/// The kinds to enter, outermost first.
fn parents<K, E>(events: &mut [Option<Event<K, E>>], kind: K, parent: Option<usize>) -> Vec<K> {
  let mut ret = match parent.and_then(|p| events[p].take()) {
    // not preceded, or abandoned
    None => Vec::new(),
    Some(Event::Enter(kind, parent)) => parents(events, kind, parent),
    Some(ev) => unreachable!("{ev:?}, not Enter"),
  };
  ret.push(kind);
  ret
}

/// A marker for a syntax construct that is mid-parse.'''),
('''    let mut ret = self.peek();
    let old_tok_idx = self.tok_idx;
    for _ in 0..n {
      self.tok_idx += 1;
      ret = self.peek();
    }
    self.tok_idx = old_tok_idx;
    ret''','''    let mut left = n;
    for tok in &self.tokens[self.tok_idx..] {
      if tok.kind.is_trivia() {
        continue;
      }
      if left == 0 {
        return Some(*tok);
      }
      left -= 1;
    }
    None'''),
('''    let mut ret = self.enter();
    ret.child = Some(ex.ev_idx);
    // the tokens of the child are tokens of the parent.
    ret.consumed = ex.consumed;
    #[allow(clippy::match_on_vec_items)]
    match self.events[ex.ev_idx] {
      Some(Event::Enter(_, ref mut parent)) => {
        assert!(parent.is_none());
        *parent = Some(ret.ev_idx);
      }
      ref ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
    }
    ret''','''    let ev_idx = self.events.len();
    match &mut self.events[ex.ev_idx] {
      Some(Event::Enter(_, parent)) => {
        let old = parent.replace(ev_idx);
        assert!(old.is_none());
      }
      ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
    }
    self.events.push(None);
    Entered {
      bomb: DropBomb::new("Entered markers must be exited"),
      ev_idx,
      consumed: ex.consumed,
      child: Some(ex.ev_idx),
    }'''),
('''    if self.at(kind) {
      Some(self.bump())
    } else {
      self.error(E::expected(kind));
      None
    }''','''    match self.peek() {
      Some(tok) if tok.kind == kind => Some(self.bump()),
      _ => {
        self.error(E::expected(kind));
        None
      }
    }'''))
# paths: what is clean is kept
ed('paths/src/lib.rs',('''    debug_assert!(path.is_absolute());
''','''    debug_assert!(path.is_absolute());
    let is_simple = path.components().all(|c| matches!(c, Component::RootDir | Component::Normal(_)));
    if is_simple {
      return Self(path.components().collect());
    }
'''),
('''    self.0.push(path);
    *self = Self::new_unchecked(self.as_path());''','''    let path = path.as_ref();
    if path.is_absolute() {
      *self = Self::new_unchecked(path);
    } else {
      for component in path.components() {
        match component {
          Component::Normal(name) => self.0.push(name),
          Component::ParentDir => {
            self.0.pop();
          }
          _ => {}
        }
      }
    }'''),
('''  path_to_id: FxHashMap<CleanPathBuf, PathId>,''','''  path_to_id: BTreeMap<CleanPathBuf, PathId>,'''),
('use fast_hash::FxHashMap;\n',''))
# pattern-match: one function for each kind of pattern
ed('pattern-match/src/alg.rs',('''  for pat in pats {
    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;
    mtx.push(vec![pat]);
  }
  let missing: Vec<_> = useful(cx, &mut ac, 0, &mtx, vec![(Pat::any_no_idx(), ty)])?
    .witnesses
    .into_iter()
    .map(|mut w| {
      assert_eq!(w.len(), 1);
      w.pop().expect("just checked length")
    })
    .collect();''','''  for pat in pats {
    let row = vec![pat.clone()];
    useful(cx, &mut ac, 0, &mtx, vec![(pat, ty.clone())])?;
    mtx.push(row);
  }
  let last = useful(cx, &mut ac, 0, &mtx, vec![(Pat::any_no_idx(), ty)])?;
  let mut missing = Vec::with_capacity(last.witnesses.len());
  for w in last.witnesses {
    let [pat]: [_; 1] = w.try_into().expect("one column");
    missing.push(pat);
  }'''),
('''  let ret = if L::covers(&pat.con, &L::any()) {
    if !pat.args.is_empty() {
      return Err(CheckError("pat args was not empty"));
    }
    let tys = L::get_arg_tys(cx, ty, val_con)?;
    let ret: Vec<_> = tys.into_iter().map(|t| (Pat::any_no_idx(), t)).rev().collect();
    Some(ret)
  } else if L::covers(&pat.con, val_con) {
    let tys = L::get_arg_tys(cx, ty, val_con)?;
    if tys.len() < pat.args.len() {
      return Err(CheckError("too few arg tys for pat"));
    }''','''  let is_any = L::covers(&pat.con, &L::any());
  if is_any && !pat.args.is_empty() {
    return Err(CheckError("pat args was not empty"));
  }
  let ret = if is_any || L::covers(&pat.con, val_con) {
    let tys = L::get_arg_tys(cx, ty, val_con)?;
    if tys.len() < pat.args.len() {
      return Err(CheckError("too few arg tys for pat"));
    }'''))
# topological sort: recursion over a stack of frames is kept, names are not
ed('topo-sort/src/lib.rs',('''          if ret.done.contains(&value) {
            continue;
          }
          let Some(data) = visitor.enter(value.clone()) else { continue };
          if !cur.insert(value.clone()) {
            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }
            continue;
          }
          self.actions.push(Action::End(value.clone()));
          level += 1;
          visitor.process(value, data, &mut self);''','''          let data = if ret.done.contains(&value) { None } else { visitor.enter(value.clone()) };
          match data {
            None => {}
            Some(_) if cur.contains(&value) => ret.cycle = ret.cycle.or(Some(value)),
            Some(data) => {
              let mut inner = Work { actions: Vec::new() };
              always!(cur.insert(value.clone()), "just checked");
              self.actions.push(Action::End(value.clone()));
              visitor.process(value, data, &mut inner);
              self.actions.append(&mut inner.actions);
              level += 1;
            }
          }'''))
ed('topo-sort/src/graph.rs',('''  let work: crate::Work<_> = graph.keys().copied().collect();
''','''  let mut work = crate::Work::default();
  for &key in graph.keys() {
    work.push(key);
  }
'''))
ed('identifier-case/src/lib.rs',('''  let mut is_cap = true;
  for c in s.chars() {
    if c == '_' {
      is_cap = true;
    } else if is_cap {
      is_cap = false;
      ret.push(c.to_ascii_uppercase());
    } else {
      ret.push(c.to_ascii_lowercase());
    }
  }
  ret''','''  let mut prev = '_';
  for c in s.chars() {
    match (prev, c) {
      (_, '_') => {}
      ('_', c) => ret.extend([c.to_ascii_uppercase()]),
      (_, c) => ret.extend([c.to_ascii_lowercase()]),
    }
    prev = c;
  }
  ret'''))
ed('str-process/src/lib.rs',('''    let end = self.idx + prefix.len();
    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {
      self.idx = end;
      true
    } else {
      false
    }''','''    for (i, &b) in prefix.iter().enumerate() {
      if self.s.as_bytes().get(self.idx + i) != Some(&b) {
        return false;
      }
    }
    if self.idx > self.s.len() {
      return false;
    }
    self.idx += prefix.len();
    true'''))
ed('char-name/src/lib.rs',('''  let ret = match c {''','''  const BRACKETS: [(char, &str); 6] = [
    ('(', "LRound"),
    (')', "RRound"),
    ('[', "LSquare"),
    (']', "RSquare"),
    ('{', "LCurly"),
    ('}', "RCurly"),
  ];
  if let Some((_, name)) = BRACKETS.iter().find(|&&(b, _)| b == c) {
    return Some(name);
  }
  let ret = match c {'''),('''    '(' => "LRound",
    ')' => "RRound",
    '[' => "LSquare",
    ']' => "RSquare",
    '{' => "LCurly",
    '}' => "RCurly",
''',''))
