# behaviour-preserving edits, one set
import sys,os
R=sys.argv[1]+'/crates/'
def ed(f,*prs):
    s=open(R+f).read()
    for o,n in prs:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    open(R+f,'w').write(s)
def cut(f,a,b,n):
    s=open(R+f).read()
    assert s.count(a)==1,(f,a,s.count(a))
    i=s.index(a); j=s.index(b,i)
    open(R+f,'w').write(s[:i]+n+s[j:])
# text-pos
ed('text-pos/src/lib.rs',
('''    let pos = self.position_utf8(self.len()).expect("len is in range");
    self.position_to_utf16(pos).expect("len can be utf-16")''','''    self.position_utf16(self.inner.len()).expect("len is in range")'''),
('''    Some(RangeUtf8 {
      start: self.position_utf8(text_range.start())?,
      end: self.position_utf8(text_range.end())?,
    })''','''    let end = self.position_utf8(text_range.end())?;
    let start = self.position_utf8(text_range.start())?;
    Some(RangeUtf8 { start, end })'''),
('''    self.range_to_utf16(self.range_utf8(text_range)?)''','''    let r = self.range_utf8(text_range)?;
    let [start, end] = [r.start, r.end].map(|p| self.position_to_utf16(p));
    Some(RangeUtf16 { start: start?, end: end? })'''),
('''  fn range_to_utf16(&self, range: RangeUtf8) -> Option<RangeUtf16> {
    Some(RangeUtf16 {
      start: self.position_to_utf16(range.start)?,
      end: self.position_to_utf16(range.end)?,
    })
  }

''',''),
('''    if TextSize::from(pos.col) > self.inner.line(pos.line)?.len() {
      return None;
    }
    let ret = self.inner.offset(lc)?;
    (self.inner.try_line_col(ret) == Some(lc)).then_some(ret)''','''    let line = self.inner.line(pos.line)?;
    if u32::from(line.end()) - u32::from(line.start()) < pos.col {
      return None;
    }
    let ret = line.start().checked_add(TextSize::from(pos.col))?;
    match self.inner.try_line_col(ret) {
      Some(got) if got.line == lc.line && got.col == lc.col => Some(ret),
      _ => None,
    }'''),
('''    self.inner.lines(range)''','''    let mut iter = self.inner.lines(range);
    std::iter::from_fn(move || iter.next())'''),
('''    write!(f, "{}:{}", u64::from(self.line) + 1, u64::from(self.col) + 1)''','''    let (line, col) = (one_based(self.line), one_based(self.col));
    write!(f, "{line}")?;
    f.write_str(":")?;
    write!(f, "{col}")'''),
('''impl fmt::Display for PositionUtf16 {''','''fn one_based(n: u32) -> u64 {
  u64::from(n) + 1
}

impl fmt::Display for PositionUtf16 {'''),
('''    if self.start.line == self.end.line {
      write!(f, "{}-{}", self.start, u64::from(self.end.col) + 1)
    } else {
      write!(f, "{}-{}", self.start, self.end)
    }''','''    write!(f, "{}-", self.start)?;
    if self.start.line != self.end.line {
      return write!(f, "{}", self.end);
    }
    write!(f, "{}", one_based(self.end.col))'''),
)
# apply-changes
cut('apply-changes/src/lib.rs','pub fn get(','\0' if 0 else '\n}\n','''pub fn get(contents: &mut String, changes: Vec<Change>) {
  let start = changes.iter().rposition(|c| c.range.is_none()).unwrap_or(0);
  let mut pos_db: Option<text_pos::PositionDb> = None;
  let mut valid_until = 0;
  for Change { range, text } in changes.into_iter().skip(start) {
    let Some(range) = range else {
      *contents = text;
      pos_db = None;
      continue;
    };
    let db = match pos_db.take() {
      Some(db) if range.end.line < valid_until => db,
      _ => text_pos::PositionDb::new(contents),
    };
    valid_until = range.start.line;
    if let Some(range) = db.text_range_utf16(range) {
      splice(contents, range.start().into(), range.end().into(), &text);
    }
    pos_db = Some(db);
  }
}

fn splice(s: &mut String, start: usize, end: usize, by: &str) {
  let rest = s.split_off(end);
  s.truncate(start);
  s.push_str(by);
  s.push_str(&rest);''')
# chain-map
ed('chain-map/src/lib.rs',
('''    self.stack.iter().all(|x| x.is_empty())''','''    for x in &self.stack {
      if !x.is_empty() {
        return false;
      }
    }
    true'''),
('''    self.stack.append(&mut other.stack);''','''    self.stack.extend(other.stack.drain(..));'''),
('''    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));
    self.stack.push(Rc::new(map([(k, v)])));
    is_new''','''    let is_new = self.get(&k).is_none();
    let mut layer = FxHashMap::default();
    layer.insert(k, v);
    self.stack.push(Rc::new(layer));
    is_new'''),
('use fast_hash::{FxHashMap, FxHashSet, map};','use fast_hash::{FxHashMap, FxHashSet};'),
('''    self.stack.iter().rev().find_map(|m| m.get(k))''','''    let mut idx = self.stack.len();
    while idx > 0 {
      idx -= 1;
      if let Some(v) = self.stack[idx].get(k) {
        return Some(v);
      }
    }
    None'''),
('''    let is_len_one = self.stack.len() == 1;
    let mut iter = self.stack.iter().rev().flat_map(|x| x.iter());
    let mut seen = FxHashSet::<&K>::default();
    std::iter::from_fn(move || {
      loop {
        let (k, v) = iter.next()?;
        if is_len_one || seen.insert(k) {
          return Some((k, v));
        }
      }
    })''','''    let mut seen = FxHashSet::<&K>::default();
    self.stack.iter().rev().flat_map(|x| x.iter()).filter(move |&(k, _)| seen.insert(k))'''),
('''      let mut one = FxHashMap::<K, V>::default();
      for m in self.stack.drain(..) {
        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
        one.extend(m);
      }
      self.stack.push(Rc::new(one));''','''      let mut one = FxHashMap::<K, V>::default();
      while let Some(m) = self.stack.pop() {
        match Rc::try_unwrap(m) {
          Ok(m) => {
            for (k, v) in m {
              one.entry(k).or_insert(v);
            }
          }
          Err(m) => {
            for (k, v) in m.iter() {
              if !one.contains_key(k) {
                one.insert(k.clone(), v.clone());
              }
            }
          }
        }
      }
      self.stack.push(Rc::new(one));'''),
)
# event-parse
ed('event-parse/src/lib.rs',
('''    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if tok.kind.is_trivia() {
        self.tok_idx += 1;
      } else {
        return Some(tok);
      }
    }
    None
  }''','''    let rest = &self.tokens[self.tok_idx..];
    match rest.iter().position(|tok| !tok.kind.is_trivia()) {
      Some(n) => {
        self.tok_idx += n;
        Some(rest[n])
      }
      None => {
        self.tok_idx = self.tokens.len();
        None
      }
    }
  }'''),
('''    let mut ret = self.peek();
    let old_tok_idx = self.tok_idx;
    for _ in 0..n {
      self.tok_idx += 1;
      ret = self.peek();
    }
    self.tok_idx = old_tok_idx;
    ret''','''    let _ = self.peek();
    self.tokens[self.tok_idx..].iter().copied().filter(|tok| !tok.kind.is_trivia()).nth(n)'''),
('''    let error_since =
      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
    if error_since {
      self.tok_idx = save.tok_idx;
      self.consumed = save.consumed;
      self.events.truncate(save.events_len);
    }
    !error_since''','''    let ok = self.events[save.events_len..].iter().all(|ev| !matches!(ev, Some(Event::Error(_))));
    if ok {
      return true;
    }
    while self.events.len() > save.events_len {
      self.events.pop();
    }
    self.consumed = save.consumed;
    self.tok_idx = save.tok_idx;
    false'''),
('''    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if !tok.kind.is_trivia() {
        break;
      }
      self.token(to_enter, sink, tok);
    }''','''    let tokens = self.tokens;
    for &tok in tokens[self.tok_idx..].iter().take_while(|tok| tok.kind.is_trivia()) {
      self.token(to_enter, sink, tok);
    }'''),
('''    for kind in to_enter.drain(..) {
      sink.enter(kind);
    }
    sink.token(tok);''','''    std::mem::take(to_enter).into_iter().for_each(|kind| sink.enter(kind));
    sink.token(tok);'''),
('''    let mut kinds = Vec::new();
    let mut levels: usize = 0;''','''    let mut levels: usize = 0;'''),
('''          assert!(kinds.is_empty());
          if fst.is_none() {
            fst = Some(kind);
          }
          kinds.push(kind);
          while let Some(p) = parent {
            match self.events[p].take() {
              Some(Event::Enter(kind, new_parent)) => {
                kinds.push(kind);
                parent = new_parent;
              }
              // abandoned precede
              None => break,
              ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
            }
          }
          for kind in kinds.drain(..).rev() {''','''          fst = fst.or(Some(kind));
          let mut kinds = std::collections::VecDeque::from([kind]);
          while let Some(p) = parent.take() {
            // otherwise an abandoned precede
            if let Some(ev) = self.events[p].take() {
              let Event::Enter(kind, new_parent) = ev else { unreachable!("{ev:?}, not Enter") };
              kinds.push_front(kind);
              parent = new_parent;
            }
          }
          for kind in kinds {'''),
('''    self.peek_n(n).is_some_and(|tok| tok.kind == kind)''','''    match self.peek_n(n) {
      None => false,
      Some(tok) => tok.kind == kind,
    }'''),
('''    let ret = self.peek().expect("bump with no tokens");
    self.events.push(Some(Event::Token));
    self.tok_idx += 1;
    self.consumed += 1;
    ret''','''    let Some(ret) = self.peek() else { panic!("bump with no tokens") };
    self.consumed += 1;
    self.tok_idx += 1;
    self.push_event(Event::Token);
    ret'''),
('''  /// Records an error at the current token.
  pub fn error(&mut self, error: E) {
    self.events.push(Some(Event::Error(error)));
  }''','''  /// Records an error at the current token.
  pub fn error(&mut self, error: E) {
    self.push_event(Event::Error(error));
  }

  fn push_event(&mut self, ev: Event<K, E>) {
    self.events.push(Some(ev));
  }'''),
)
ed('event-parse/src/rowan_sink.rs',
('''    let errors = std::mem::take(&mut self.no_range).into_iter().map(|inner| Error {
      range: self.cur.0,
      kind: self.cur.1.clone(),
      inner,
    });
    self.errors.extend(errors);''','''    let (range, kind) = (self.cur.0, &self.cur.1);
    for inner in self.no_range.drain(..) {
      self.errors.push(Error { range, kind: kind.clone(), inner });
    }'''),
('''    let start = self.cur.0.end();
    let end = start + TextSize::of(token.text);
    self.cur = (TextRange::new(start, end), Some(kind));''','''    self.cur = (TextRange::at(self.cur.0.end(), TextSize::of(token.text)), Some(kind));'''),
)
# topo-sort
cut('topo-sort/src/lib.rs','    let mut cur = V::Set::default();','    ret\n  }\n','''    let mut cur = V::Set::default();
    let mut ret = Ret { done: V::Set::default(), cycle: None::<T> };
    let mut level = 0usize;
    loop {
      let value = match self.actions.pop() {
        None => break,
        Some(Action::End(value)) => {
          always!(level > 0, "`End` should have a matching `Start`");
          level = level.saturating_sub(1);
          always!(ret.done.insert(value.clone()), "should not `End` if already done");
          always!(cur.remove(&value), "should only `End` when in `cur`");
          visitor.exit(value, level);
          continue;
        }
        Some(Action::Start(value)) => value,
      };
      if ret.done.contains(&value) {
        continue;
      }
      if let Some(data) = visitor.enter(value.clone()) {
        if cur.contains(&value) {
          ret.cycle.get_or_insert(value);
        } else {
          cur.insert(value.clone());
          level += 1;
          self.actions.push(Action::End(value.clone()));
          visitor.process(value, data, &mut self);
        }
      }
    }
    always!(cur.is_empty(), "should have no progress when done");
''')
ed('topo-sort/src/lib.rs',('''    for x in iter {
      self.push(x);
    }''','''    self.actions.extend(iter.into_iter().map(Action::Start));'''))
ed('topo-sort/src/graph.rs',('''  match got.cycle {
    Some(x) => Err(CycleError(x)),
    None => Ok(visitor.order),
  }''','''  got.cycle.map_or(Ok(visitor.order), |x| Err(CycleError(x)))'''),
('''    if let Some(ns) = self.graph.get(&value) {
      work.extend(ns.iter().copied());
    }''','''    for &n in self.graph.get(&value).into_iter().flatten() {
      work.push(n);
    }'''))
