//! topo-sort: sorting arbitrary small graphs, and the general work list with an arbitrary visitor.
use std::cell::Cell;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use sym::*;
use topo_sort::{Set, Visitor, Work, graph};

/// Is there a path of at least one edge from `a` to `b`?
fn reach(edges: &[(u8, u8)], a: u8, b: u8) -> bool {
  let mut seen = vec![a];
  let mut i = 0;
  while i < seen.len() {
    for e in edges {
      if e.0 == seen[i] {
        if e.1 == b { return true; }
        if !seen.contains(&e.1) { seen.push(e.1); }
      }
    }
    i += 1;
  }
  false
}

/// Sorts the graph with these nodes and edges and checks the result.
fn sort(nodes: &[u8], edges: &[(u8, u8)]) {
  let mut g = graph::Graph::<u8>::new();
  for n in nodes { g.entry(*n).or_default(); }
  for e in edges { g.entry(e.0).or_default().insert(e.1); }
  let mut all: Vec<u8> = nodes.to_vec();
  for e in edges { for x in [e.0, e.1] { if !all.contains(&x) { all.push(x); } } }
  for n in nodes { if !all.contains(n) { all.push(*n); } }
  let cyclic = all.iter().any(|n| reach(edges, *n, *n));
  match graph::get(&g) {
    Ok(order) => {
      check(!cyclic, "G02|a graph with a cycle is not sorted");
      let n = all.iter().filter(|x| order.contains(x)).count();
      check(n == all.len(), "G01|the order has every node, also those without an entry of their own");
      // `all` may list a node twice when a node is also an edge end
      for (i, x) in order.iter().enumerate() {
        check(!order[..i].contains(x), "G01|the order has no node twice");
        check(all.contains(x), "G01|the order has no other nodes");
      }
      for e in edges {
        let (i, j) = (order.iter().position(|x| *x == e.0), order.iter().position(|x| *x == e.1));
        check(j < i, "G01|every node comes after its neighbours");
      }
      cover("sorted");
      if order.len() > 2 && edges.len() > 1 { cover("sorted with several edges"); }
      for x in &order { trace(u64::from(*x)); }
    }
    Err(e) => {
      check(cyclic, "G01|a graph without a cycle is sorted");
      check(e.to_string() == "graph has a cycle", "G02|the error says so");
      let w = e.witness();
      check(reach(edges, w, w), "G02|the witness is on a cycle");
      cover("cycle");
      trace(w.into());
    }
  }
}

/// What a visitor saw.
#[derive(Clone, Copy)]
enum Ev { Process(u8), Exit(u8, usize) }

/// A visitor of an arbitrary graph of 8-bit ids which may skip some of the elements.
struct V<'a, S> {
  edges: &'a [(u8, u8)],
  skip: &'a [u8],
  log: Vec<Ev>,
  enters: Cell<usize>,
  _s: std::marker::PhantomData<S>,
}
impl<S> Visitor for V<'_, S> {
  type Elem = u8;
  type Data = u8;
  type Set = S;
  fn enter(&self, value: u8) -> Option<u8> {
    self.enters.set(self.enters.get() + 1);
    if self.skip.contains(&value) { None } else { Some(value ^ 0x5a) }
  }
  fn process(&mut self, value: u8, data: u8, work: &mut Work<u8>) {
    check(data == value ^ 0x5a, "G03|an element is processed with its own data");
    self.log.push(Ev::Process(value));
    for e in self.edges { if e.0 == value { work.push(e.1); } }
  }
  fn exit(&mut self, value: u8, level: usize) { self.log.push(Ev::Exit(value, level)); }
}

fn protocol<S: Set<Elem = u8>>(start: &[u8], edges: &[(u8, u8)], skip: &[u8]) {
  let mut v = V::<S> { edges, skip, log: vec![], enters: Cell::new(0), _s: std::marker::PhantomData };
  let w: Work<u8> = start.iter().copied().collect();
  let ret = w.run(&mut v);
  // what is reached without passing through a skipped element
  let live: Vec<(u8, u8)> = edges.iter().copied().filter(|e| !skip.contains(&e.0) && !skip.contains(&e.1)).collect();
  let mut want: Vec<u8> = vec![];
  for s in start { if !skip.contains(s) && !want.contains(s) { want.push(*s); } }
  let mut i = 0;
  while i < want.len() {
    for e in &live { if e.0 == want[i] && !want.contains(&e.1) { want.push(e.1); } }
    i += 1;
  }
  let mut open: Vec<u8> = vec![];
  let mut closed: Vec<u8> = vec![];
  for e in &v.log {
    match *e {
      Ev::Process(x) => {
        check(!open.contains(&x) && !closed.contains(&x), "G03|an element is processed once");
        check(want.contains(&x), "G03|only reachable elements are processed, none that is skipped");
        open.push(x);
      }
      Ev::Exit(x, level) => {
        check(open.pop() == Some(x), "G03|the last element begun is finished first");
        check(level == open.len(), "G03|the level is the number of elements begun and not finished");
        closed.push(x);
        for e in &live {
          if e.0 == x {
            check(closed.contains(&e.1) || open.contains(&e.1) || e.1 == x, "G03|an element is finished after what it asks for, except along a cycle");
            if open.contains(&e.1) || e.1 == x { check(ret.cycle.is_some(), "G03|a cycle is reported"); }
          }
        }
      }
    }
  }
  check(open.is_empty(), "G03|everything begun is finished");
  check(closed.len() == want.len(), "G03|everything reachable is processed");
  for x in &want { check(ret.done.contains(x), "G03|the done set has every processed element"); }
  let q = any_u8();
  check(ret.done.contains(&q) == want.contains(&q), "G03|the done set has the processed elements only");
  match ret.cycle {
    Some(c) => { check(want.contains(&c) && reach(&live, c, c), "G03|the cycle is one"); cover("cycle (visitor)"); }
    None => {
      check(!want.iter().any(|x| reach(&live, *x, *x)), "G03|no cycle is missed");
      cover("no cycle (visitor)");
    }
  }
  if want.len() > 1 && !skip.is_empty() { cover("a skipped element"); }
  trace(want.len() as u64);
}

/// A large graph of a simple shape with up to two more edges somewhere.
fn large(n: u16, shape: usize) -> Vec<(u16, u16)> {
  let mut e: Vec<(u16, u16)> = vec![];
  for i in 0..n - 1 {
    match shape {
      0 => e.push((i, i + 1)),
      1 => e.push((i + 1, i)),
      2 => e.push((0, i + 1)),
      3 => e.push((i / 2, i + 1)),
      _ => { e.push((i, i + 1)); if i + 2 < n { e.push((i, i + 2)); } }
    }
  }
  let at = [0, 1, n / 2, n - 1, n];
  for _ in 0..choose(3) { e.push((at[choose(5)], at[choose(5)])); }
  e
}
/// What is reached from these by at least `least` edges.
fn reached(edges: &[(u16, u16)], from: &[u16], least: usize, n: u16) -> Vec<bool> {
  let mut next = vec![vec![]; usize::from(n) + 1];
  for e in edges { next[usize::from(e.0)].push(e.1); }
  let mut seen = vec![false; usize::from(n) + 1];
  let mut todo: Vec<u16> = if least == 0 { from.to_vec() } else { from.iter().flat_map(|x| next[usize::from(*x)].clone()).collect() };
  while let Some(x) = todo.pop() {
    if !std::mem::replace(&mut seen[usize::from(x)], true) { todo.extend(&next[usize::from(x)]); }
  }
  seen
}
/// Whether there is a cycle among these: something is left when what nothing asks for is taken away.
fn cyclic(edges: &[(u16, u16)], among: &[bool]) -> bool {
  let mut count = vec![0; among.len()];
  let mut next = vec![vec![]; among.len()];
  for e in edges { if among[usize::from(e.0)] && among[usize::from(e.1)] { count[usize::from(e.1)] += 1; next[usize::from(e.0)].push(e.1); } }
  let mut todo: Vec<usize> = (0..among.len()).filter(|i| among[*i] && count[*i] == 0).collect();
  let mut gone = 0;
  while let Some(i) = todo.pop() {
    gone += 1;
    for j in &next[i] { count[usize::from(*j)] -= 1; if count[usize::from(*j)] == 0 { todo.push((*j).into()); } }
  }
  gone < among.iter().filter(|x| **x).count()
}
fn sort_large(n: u16, shape: usize) {
  let edges = large(n, shape);
  let mut g = graph::Graph::<u16>::new();
  for e in &edges { g.entry(e.0).or_default().insert(e.1); }
  let mut all = vec![false; usize::from(n) + 1];
  for e in &edges { all[usize::from(e.0)] = true; all[usize::from(e.1)] = true; }
  match graph::get(&g) {
    Ok(order) => {
      check(!cyclic(&edges, &all), "G02|a graph with a cycle is not sorted");
      let mut at = vec![usize::MAX; all.len()];
      for (i, x) in order.iter().enumerate() {
        check(all[usize::from(*x)], "G01|the order has no other nodes");
        check(at[usize::from(*x)] == usize::MAX, "G01|the order has no node twice");
        at[usize::from(*x)] = i;
      }
      check(order.len() == all.iter().filter(|x| **x).count(), "G01|the order has every node, also those without an entry of their own");
      for e in &edges { check(at[usize::from(e.1)] < at[usize::from(e.0)], "G01|every node comes after its neighbours"); }
      cover("a large graph sorted");
    }
    Err(e) => {
      check(cyclic(&edges, &all), "G01|a graph without a cycle is sorted");
      let w = e.witness();
      check(reached(&edges, &[w], 1, n)[usize::from(w)], "G02|the witness is on a cycle");
      cover("a cycle in a large graph");
    }
  }
}
struct Large<'a> { next: &'a [Vec<u16>], log: Vec<(u16, Option<usize>)> }
impl Visitor for Large<'_> {
  type Elem = u16;
  type Data = ();
  type Set = BTreeSet<u16>;
  fn enter(&self, _: u16) -> Option<()> { Some(()) }
  fn process(&mut self, value: u16, (): (), work: &mut Work<u16>) {
    self.log.push((value, None));
    for x in &self.next[usize::from(value)] { work.push(*x); }
  }
  fn exit(&mut self, value: u16, level: usize) { self.log.push((value, Some(level))); }
}
fn protocol_large(n: u16, shape: usize) {
  let edges = large(n, shape);
  let mut next = vec![vec![]; usize::from(n) + 1];
  for e in &edges { next[usize::from(e.0)].push(e.1); }
  let start = [[0, n / 2], [n - 1, 0]][choose(2)];
  let mut v = Large { next: &next, log: vec![] };
  let w: Work<u16> = start.into_iter().collect();
  let ret = w.run(&mut v);
  let want = reached(&edges, &start, 0, n);
  let mut open = vec![];
  // 0: not begun, 1: begun, 2: finished
  let mut st = vec![0; want.len()];
  for (x, level) in &v.log {
    let s = &mut st[usize::from(*x)];
    match level {
      None => {
        check(*s == 0, "G03|an element is processed once");
        check(want[usize::from(*x)], "G03|only reachable elements are processed, none that is skipped");
        *s = 1;
        open.push(*x);
      }
      Some(l) => {
        check(open.pop() == Some(*x), "G03|the last element begun is finished first");
        check(*l == open.len(), "G03|the level is the number of elements begun and not finished");
        *s = 2;
        for y in &next[usize::from(*x)] { check(st[usize::from(*y)] != 0, "G03|an element is finished after what it asks for, except along a cycle"); }
      }
    }
  }
  check(open.is_empty(), "G03|everything begun is finished");
  for (i, w) in want.iter().enumerate() {
    check(*w == (st[i] == 2), "G03|everything reachable is processed");
    check(*w == ret.done.contains(&(i as u16)), "G03|the done set has the processed elements only");
  }
  check(ret.cycle.is_some() == cyclic(&edges, &want), "G03|a cycle is reported if and only if there is one");
  if let Some(c) = ret.cycle { check(want[usize::from(c)] && reached(&edges, &[c], 1, n)[usize::from(c)], "G03|the cycle is one"); }
  cover("a large graph visited");
}

/// A hasher that gives every value the same hash, so that only equality is symbolic.
#[derive(Default, Clone, Copy)]
pub struct Flat;
impl Hasher for Flat {
  fn finish(&self) -> u64 { 0 }
  fn write(&mut self, _: &[u8]) {}
}

/// One that does not: for elements that are not symbolic.
#[derive(Default, Clone, Copy)]
pub struct Spread(u64);
impl Hasher for Spread {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ u64::from(*x)).wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29); } }
}

fn set<S: Set<Elem = K>, K: Copy + Eq>(n: usize, key: fn(u8) -> K) {
  let mut s = S::default();
  let mut r: Vec<K> = vec![];
  for _ in 0..n {
    let k = key(any_u8());
    let at = r.iter().position(|x| *x == k);
    if any_bool() {
      check(s.insert(k) == at.is_none(), "G04|insert says whether the element is new");
      if at.is_none() { r.push(k); } else { cover("insert again"); }
    } else {
      check(s.remove(&k) == at.is_some(), "G04|remove says whether the element was there");
      if let Some(i) = at { r.remove(i); cover("remove"); }
    }
    check(s.is_empty() == r.is_empty(), "G04|is_empty");
  }
  let q = key(any_u8());
  check(s.contains(&q) == r.contains(&q), "G04|contains");
  trace(r.len() as u64);
}

/// A set that grows to `n` elements and gets small again; of a few symbolic places the membership is asked all along.
fn grow<S: Set<Elem = K>, K: Copy + Eq>(n: usize, key: fn(u8) -> K, back: bool, fixed: bool) {
  let mut s = S::default();
  let mut in_it = vec![false; n];
  let twice = if fixed { n / 3 } else { below(n as u64) as usize };
  for i in 0..n {
    check(s.insert(key(i as u8)), "G04|insert says whether the element is new");
    in_it[i] = true;
  }
  check(!s.insert(key(twice as u8)), "G04|insert says whether the element is new");
  let q = if fixed { choose(n as u64) } else { below(n as u64) as usize };
  for i in 0..n {
    let at = if back { n - 1 - i } else { i * 7 % n };
    check(s.contains(&key(q as u8)) == in_it[q], "G04|contains");
    check(s.remove(&key(at as u8)) == in_it[at], "G04|remove says whether the element was there");
    check(!s.remove(&key(at as u8)), "G04|remove says whether the element was there");
    in_it[at] = false;
    check(s.is_empty() == !in_it.contains(&true), "G04|is_empty");
  }
  check(!s.contains(&key(q as u8)), "G04|contains");
  check(s.insert(key(q as u8)) && s.contains(&key(q as u8)) && !s.is_empty(), "G04|insert says whether the element is new");
  cover("a set that was large");
}

entries! {
  /// a set of `n` elements
  fn h_grow(n) {
    let back = any_bool();
    match choose(5) {
      3 => grow::<fast_hash::FxHashSet<u8>, u8>(3 * n, |x| x, back, true),
      0 => grow::<BTreeSet<u8>, u8>(n, |x| x, back, false),
      1 => grow::<HashSet<Key, BuildHasherDefault<Flat>>, Key>(n, Key, back, false),
      2 => grow::<HashSet<u8, BuildHasherDefault<Spread>>, u8>(3 * n, |x| x, back, true),
      _ => grow::<fast_hash::FxHashSet<Key>, Key>(n, Key, back, false),
    }
  }
  /// `n` edges between arbitrary ids
  fn h_edges(n) {
    let e: Vec<(u8, u8)> = (0..n).map(|_| (any_u8(), any_u8())).collect();
    sort(&[], &e)
  }
  /// every graph over the ids 1 to `n`, each of them with an entry of its own or not
  fn h_matrix(n) {
    let mut e = vec![];
    let mut nodes = vec![];
    for i in 0..n as u8 {
      if any_bool() { nodes.push(i); }
      for j in 0..n as u8 { if any_bool() { e.push((i, j)); } }
    }
    sort(&nodes, &e)
  }
  /// every graph over `n` ids, all in ascending or all in an arbitrary order of edges (no self loops)
  fn h_dag(n) {
    let mut e = vec![];
    let nodes: Vec<u8> = (0..n as u8).collect();
    let flip = any_u8();
    for i in 0..n as u8 { for j in 0..i { if any_bool() { e.push((i ^ flip, j ^ flip)); } } }
    let nodes: Vec<u8> = nodes.iter().map(|x| x ^ flip).collect();
    // one more edge, possibly backwards
    if any_bool() {
      let (a, b) = (choose(n as u64) as u8, choose(n as u64) as u8);
      e.push((a ^ flip, b ^ flip));
      cover("an extra edge");
    }
    sort(&nodes, &e)
  }
  /// size*10 + shape, and up to two more edges
  fn h_large(a) { sort_large((a / 10) as u16, a % 10) }
  fn h_large_protocol(a) { protocol_large((a / 10) as u16, a % 10) }
  /// `100 * s + 10 * n + k`: `s` start elements, `n` edges, `k` skipped, over arbitrary ids
  fn h_protocol(a) {
    let start: Vec<u8> = (0..a / 100).map(|_| any_u8()).collect();
    let e: Vec<(u8, u8)> = (0..a / 10 % 10).map(|_| (any_u8(), any_u8())).collect();
    let skip: Vec<u8> = (0..a % 10).map(|_| any_u8()).collect();
    protocol::<BTreeSet<u8>>(&start, &e, &skip)
  }
  fn h_protocol_hash(a) {
    let start: Vec<u8> = (0..a / 100).map(|_| any_u8()).collect();
    let e: Vec<(u8, u8)> = (0..a / 10 % 10).map(|_| (any_u8(), any_u8())).collect();
    let skip: Vec<u8> = (0..a % 10).map(|_| any_u8()).collect();
    protocol::<HashSet<u8, BuildHasherDefault<Flat>>>(&start, &e, &skip)
  }
  fn h_set(n) {
    match choose(3) {
      0 => set::<BTreeSet<u8>, u8>(n, |x| x),
      1 => set::<HashSet<Key, BuildHasherDefault<Flat>>, Key>(n, Key),
      _ => set::<fast_hash::FxHashSet<Key>, Key>(n, Key),
    }
  }
}
