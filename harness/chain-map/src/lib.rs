//! chain-map: every observation of a history of operations agrees with a plain association list.
use chain_map::ChainMap;
use sym::*;

#[derive(Clone, Default)]
struct Model(Vec<(Key, u8)>);
impl Model {
  fn get(&self, k: Key) -> Option<u8> {
    for e in &self.0 { if e.0 == k { return Some(e.1); } }
    None
  }
  fn insert(&mut self, k: Key, v: u8) -> bool {
    for e in &mut self.0 { if e.0 == k { e.1 = v; return false; } }
    self.0.push((k, v));
    true
  }
  fn remove(&mut self, k: Key) -> Option<u8> {
    for i in 0..self.0.len() { if self.0[i].0 == k { return Some(self.0.remove(i).1); } }
    None
  }
}

/// One arbitrary operation on the map and the model.
fn step(m: &mut ChainMap<Key, u8>, r: &mut Model) {
  match choose(7) {
    0 => {
      let (k, v) = (Key(any_u8()), any_u8());
      let got = m.insert(k, v);
      let want = r.insert(k, v);
      check(got == want, "C01,C03|insert reports whether the key is new");
      cover("insert");
    }
    1 => {
      let k = Key(any_u8());
      let got = m.remove(&k);
      let want = r.remove(k);
      check(got == want, "C01,C03|remove returns the newest value");
      if got.is_some() { cover("remove an existing key"); }
      check(m.get(&k).is_none(), "C01,C03|a removed key is gone");
    }
    2 => {
      let (k, v) = (Key(any_u8()), any_u8());
      match m.get_mut(&k) {
        Some(x) => {
          check(r.get(k) == Some(*x), "C01,C03|get_mut sees the newest value");
          *x = v;
          r.insert(k, v);
          cover("write through get_mut");
        }
        None => check(r.get(k).is_none(), "C01,C03|get_mut finds present keys"),
      }
    }
    3 => { m.consolidate(); cover("consolidate"); }
    4 => {
      let (a, b) = ((Key(any_u8()), any_u8()), (Key(any_u8()), any_u8()));
      m.extend([a, b]);
      r.insert(a.0, a.1);
      r.insert(b.0, b.1);
      cover("extend");
    }
    5 => {
      let mut o = ChainMap::default();
      let mut ro = Model::default();
      let n = choose(3);
      for _ in 0..n {
        let (k, v) = (Key(any_u8()), any_u8());
        o.insert(k, v);
        ro.insert(k, v);
      }
      m.append(&mut o);
      check(o.is_empty(), "C01,C03|append empties the other map");
      for (k, v) in ro.0 { r.insert(k, v); }
      cover("append");
    }
    _ => {
      let d = any_u8();
      for (_, v) in m.iter_mut() { *v ^= d; }
      for e in &mut r.0 { e.1 ^= d; }
      cover("iter_mut");
    }
  }
}

fn same(m: &ChainMap<Key, u8>, r: &Model) {
  for e in &r.0 { check(m.get(&e.0) == Some(&e.1), "C01,C03|get returns the newest value of a present key"); }
  let q = Key(any_u8());
  let got = m.get(&q).copied();
  check(got == r.get(q), "C01,C03|get agrees on an arbitrary key");
  check(m.is_empty() == r.0.is_empty(), "C01,C03|is_empty");
  trace(got.map_or(999, u64::from));
}

/// A map after a long history of fixed operations, and what it was like at some earlier times.
fn old(rounds: usize) -> (ChainMap<Key, u8>, Model, Vec<(ChainMap<Key, u8>, Model)>) {
  let mut m = ChainMap::<Key, u8>::default();
  let mut r = Model::default();
  let mut kept = vec![];
  for i in 0..rounds {
    let (k, v) = (Key((i * 5 % 13) as u8), i as u8);
    match i % 7 {
      1 => kept.push((m.clone(), r.clone())),
      3 => {
        let mut o = ChainMap::from([(k, v), (Key((i % 11) as u8), v ^ 1)]);
        m.append(&mut o);
        r.insert(k, v);
        r.insert(Key((i % 11) as u8), v ^ 1);
      }
      4 if i % 3 == 0 => check(m.remove(&k) == r.remove(k), "C01,C03|remove returns the newest value"),
      5 => {
        m.extend([(k, v)]);
        r.insert(k, v);
      }
      _ => check(m.insert(k, v) == r.insert(k, v), "C01,C03|insert reports whether the key is new"),
    }
    if kept.len() > 4 { kept.remove(i % 4); }
  }
  (m, r, kept)
}
type Wide = (ChainMap<u32, u32>, std::collections::BTreeMap<u32, u32>);
fn wide_key(i: usize) -> u32 { (i as u32).wrapping_mul(2_654_435_761) >> 3 }
/// A map with `n` keys that hash differently, in layers of different shapes, and others it shares layers with.
fn wide(n: usize) -> Vec<Wide> {
  let some = |from: usize, to: usize, x: u32| (from..to).map(move |i| (wide_key(i), i as u32 ^ x)).collect::<Vec<_>>();
  let mut all: Vec<Wide> = vec![];
  let (mut m, mut r): Wide = Default::default();
  match choose(4) {
    0 => { m = some(0, n, 1).into_iter().collect(); r.extend(some(0, n, 1)); }
    1 => for i in 0..n {
      let (k, v) = (wide_key(if i % 3 == 2 { i / 2 } else { i }), i as u32);
      check(m.insert(k, v) == r.insert(k, v).is_none(), "C01,C03|insert reports whether the key is new");
    }
    2 => {
      m.extend(some(0, n, 2));
      r.extend(some(0, n, 2));
      all.push((m.clone(), r.clone()));
      m.extend(some(n / 2, n + 9, 3));
      r.extend(some(n / 2, n + 9, 3));
      all.push((m.clone(), r.clone()));
      m.insert(wide_key(1), 9);
      r.insert(wide_key(1), 9);
    }
    _ => {
      for (k, v) in some(0, 20, 4) { m.insert(k, v); r.insert(k, v); }
      all.push((m.clone(), r.clone()));
      let mut o: ChainMap<u32, u32> = some(10, n, 5).into_iter().collect();
      m.append(&mut o);
      r.extend(some(10, n, 5));
      m.consolidate();
      for (k, v) in some(n / 3, n / 3 + 30, 6) { m.insert(k, v); r.insert(k, v); }
    }
  }
  all.push((m.clone(), r.clone()));
  all.push((m, r));
  all
}
fn wide_op((m, r): &mut Wide, n: usize) {
  let k = wide_key([0, n / 2, n + 1][choose(3)]);
  match choose(5) {
    0 => { check(m.insert(k, 7) == r.insert(k, 7).is_none(), "C01,C03|insert reports whether the key is new"); }
    1 => check(m.remove(&k) == r.remove(&k), "C01,C03|remove returns the newest value"),
    2 => match (m.get_mut(&k), r.get_mut(&k)) {
      (Some(x), Some(y)) => { check(*x == *y, "C01,C03|get_mut sees the newest value"); *x ^= 77; *y ^= 77; }
      (x, y) => check(x.is_none() && y.is_none(), "C01,C03|get_mut finds present keys"),
    },
    3 => m.consolidate(),
    _ => { m.extend([(k, 1), (wide_key(n + 20), 2)]); r.extend([(k, 1), (wide_key(n + 20), 2)]); }
  }
}
fn wide_same((m, r): &Wide, n: usize) {
  for i in 0..n + 40 { check(m.get(&wide_key(i)) == r.get(&wide_key(i)), "C01,C03|a map of many keys answers like a map"); }
  check(m.is_empty() == r.is_empty(), "C01,C03|is_empty");
  cover("many keys");
}
fn wide_each(got: Vec<(u32, u32)>, r: &std::collections::BTreeMap<u32, u32>) {
  check(got.len() == r.len(), "C02|an iteration has as many pairs as there are keys");
  let all: std::collections::BTreeMap<u32, u32> = got.into_iter().collect();
  check(all == *r, "C02|an iteration over many keys has each with its newest value");
  cover("many keys");
}
/// The pairs of an iteration are the bindings of the model, each once.
fn each_once(got: &Vec<(Key, u8)>, r: &Model) {
  check(got.len() == r.0.len(), "C02|an iteration has as many pairs as there are keys");
  for e in &r.0 {
    let mut n = 0;
    for g in got { if g.0 == e.0 { n += 1; check(g.1 == e.1, "C02|an iteration has the newest value of each key"); } }
    check(n == 1, "C02|an iteration has each key once");
  }
  if got.len() > 1 { cover("several bindings"); }
  trace(got.len() as u64);
}

entries! {
  fn h_history(n) {
    let mut m = ChainMap::<Key, u8>::default();
    let mut r = Model::default();
    for _ in 0..n { step(&mut m, &mut r); }
    same(&m, &r);
  }
  /// Operations on two maps, each of which is appended to the other at some time.
  fn h_two(n) {
    let mut v = [ChainMap::<Key, u8>::default(), ChainMap::default()];
    let mut r = [Model::default(), Model::default()];
    for _ in 0..n {
      let i = choose(2);
      let (k, x) = (Key(any_u8()), any_u8());
      match choose(6) {
        0 => check(v[i].insert(k, x) == r[i].insert(k, x), "C01|insert reports whether the key is new"),
        1 => check(v[i].remove(&k) == r[i].remove(k), "C01|remove returns the newest value"),
        2 => {
          let mut o = std::mem::take(&mut v[1 - i]);
          v[i].append(&mut o);
          check(o.is_empty() && o.get(&k).is_none(), "C01|append leaves nothing in the other map");
          v[1 - i] = o;
          for (k, x) in std::mem::take(&mut r[1 - i]).0 { r[i].insert(k, x); }
          cover("append a map");
        }
        3 => { v[i].extend(std::iter::empty()); cover("extend by nothing"); }
        4 => { v[i] = v[1 - i].clone(); r[i] = r[1 - i].clone(); cover("replace by a clone"); }
        _ => { let _ = v[i].drain(); r[i].0.clear(); cover("drop what is drained"); }
      }
    }
    let i = choose(2);
    same(&v[i], &r[i]);
    let q = Key(any_u8());
    check(v[1 - i].get(&q).copied() == r[1 - i].get(q), "C01|get agrees on an arbitrary key");
    check(v[1 - i].is_empty() == r[1 - i].0.is_empty(), "C01|is_empty");
  }
  /// One more operation after a long history.
  fn h_old(rounds) {
    let (mut m, mut r, mut kept) = old(rounds);
    step(&mut m, &mut r);
    let k = choose(kept.len() as u64 + 1);
    let got: Vec<_> = if k < kept.len() {
      let (m, r) = kept.swap_remove(k);
      same(&m, &r);
      cover("a clone after a long history");
      let got = m.iter().map(|(k, v)| (*k, *v)).collect();
      each_once(&got, &r);
      got
    } else {
      same(&m, &r);
      cover("a long history");
      let got: Vec<_> = if any_bool() { m.iter().map(|(k, v)| (*k, *v)).collect() } else { m.into_iter().collect() };
      each_once(&got, &r);
      got
    };
    trace(got.len() as u64);
  }
  fn h_iterate(n) {
    let mut m = ChainMap::<Key, u8>::default();
    let mut r = Model::default();
    if any_bool() {
      let (a, b) = ((Key(any_u8()), any_u8()), (Key(any_u8()), any_u8()));
      m = ChainMap::from([a, b]);
      r.insert(a.0, a.1);
      r.insert(b.0, b.1);
      cover("built from a list");
    }
    for _ in 0..n { step(&mut m, &mut r); }
    // a clone of it may be around
    let other = any_bool().then(|| (m.clone(), r.clone()));
    match choose(4) {
      0 => {
        let got: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
        each_once(&got, &r);
        cover("iter");
        same(&m, &r);
      }
      1 => {
        let got: Vec<_> = m.iter_mut().map(|(k, v)| (*k, *v)).collect();
        each_once(&got, &r);
        cover("iter_mut");
        same(&m, &r);
      }
      2 => {
        let got: Vec<_> = m.drain().collect();
        each_once(&got, &r);
        check(m.is_empty(), "C02|drain empties the map");
        check(m.get(&Key(any_u8())).is_none(), "C02|nothing is found after drain");
        check(m.iter().next().is_none(), "C02|nothing is iterated after drain");
        let (k, v) = (Key(any_u8()), any_u8());
        check(m.insert(k, v), "C02|a drained map takes new keys");
        check(m.get(&k) == Some(&v), "C02|a drained map takes new values");
        cover("drain");
      }
      _ => {
        let got: Vec<_> = m.into_iter().collect();
        each_once(&got, &r);
        cover("into_iter");
      }
    }
    if let Some((m, r)) = other {
      let got: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
      each_once(&got, &r);
      cover("a clone");
    }
  }
  /// `10 * before + after` operations: after `before` of them the map is cloned.
  fn h_wide(n) {
    let mut all = wide(n);
    let i = choose(all.len() as u64);
    wide_op(&mut all[i], n);
    for w in &all { wide_same(w, n); }
  }
  fn h_wide_iterate(n) {
    let (mut m, r) = wide(n).pop().unwrap();
    let got: Vec<_> = match choose(4) {
      0 => m.iter().map(|(k, v)| (*k, *v)).collect(),
      1 => m.iter_mut().map(|(k, v)| (*k, *v)).collect(),
      2 => {
        let got = m.drain().collect();
        check(m.is_empty() && m.iter().next().is_none(), "C02|drain empties the map");
        got
      }
      _ => m.into_iter().collect(),
    };
    wide_each(got, &r);
  }
  fn h_clone(a) {
    let (before, after) = (a / 10, a % 10);
    let mut m = ChainMap::<Key, u8>::default();
    let mut r = Model::default();
    for _ in 0..before { step(&mut m, &mut r); }
    let (mut m2, mut r2) = (m.clone(), r.clone());
    for _ in 0..after {
      if any_bool() { step(&mut m, &mut r); cover("the original changes"); } else { step(&mut m2, &mut r2); cover("the clone changes"); }
    }
    if any_bool() { drop(m2); same(&m, &r); } else { drop(m); same(&m2, &r2); }
  }
  /// Clones made at arbitrary times, each then living its own life.
  fn h_family(n) {
    let mut v = vec![(ChainMap::<Key, u8>::default(), Model::default())];
    for _ in 0..n {
      let i = choose(v.len() as u64);
      if v.len() < 3 && any_bool() {
        let c = (v[i].0.clone(), v[i].1.clone());
        v.push(c);
        cover("clone");
      } else {
        let (m, r) = &mut v[i];
        let (k, x) = (Key(any_u8()), any_u8());
        match choose(3) {
          0 => { m.insert(k, x); r.insert(k, x); }
          1 => { check(m.remove(&k) == r.remove(k), "C01,C03|remove returns the newest value"); }
          _ => if let Some(y) = m.get_mut(&k) { *y = x; r.insert(k, x); cover("write to a shared value"); }
        }
      }
    }
    let q = Key(any_u8());
    for (m, r) in &v {
      check(m.get(&q).copied() == r.get(q), "C03|no change to a map is seen through another");
      check(m.is_empty() == r.0.is_empty(), "C03|no change to a map is seen through another (is_empty)");
    }
  }
}
