CM = 'chain-map/src/lib.rs'
TS = 'topo-sort/src/lib.rs'
TG = 'topo-sort/src/graph.rs'
bug('c-new-top', 'C01', [(CM, 'let is_new = self.stack.iter().all(|m| !m.contains_key(&k));', 'let is_new = self.stack.iter().rev().take(2).all(|m| !m.contains_key(&k));')],
  'inserting a key whose binding is at least two layers down', 'insert says the key is new although it is not.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::default();
  assert!(m.insert(1, 1) && m.insert(2, 2) && m.insert(3, 3));
  assert!(!m.insert(1, 4));
}''')
bug('c-bottom-layer', 'C01', [(CM, '''    self.stack.push(Rc::new(map([(k, v)])));
    is_new''', '''    // a layer nobody else holds can be extended in place
    match self.stack.first_mut().and_then(Rc::get_mut) {
      Some(m) => {
        m.insert(k, v);
      }
      None => self.stack.push(Rc::new(map([(k, v)]))),
    }
    is_new''')], 'a key in a newer layer, inserted again while the oldest layer is not shared', 'The new value is put under the old one.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::from([(1, 1)]);
  m.extend([(2, 2)]);
  m.insert(2, 3);
  assert_eq!(m.get(&2), Some(&3));
}''')
bug('c-extend-first', 'C01', [(CM, 'let top: FxHashMap<_, _> = iter.into_iter().collect();', '''let mut top = FxHashMap::<K, V>::default();
    for (k, v) in iter {
      top.entry(k).or_insert(v);
    }''')], 'extending with a list that has a key twice', 'The first value of the key wins.', 'chain-map', r'''
fn main() {
  let m: chain_map::ChainMap<u32, u32> = [(1, 1), (2, 2), (1, 3)].into();
  assert_eq!(m.get(&1), Some(&3));
}''')
bug('c-empty-layers', 'C01', [(CM, 'self.stack.iter().all(|x| x.is_empty())', 'self.stack.is_empty() || self.stack.len() == 1 && self.stack[0].is_empty()')],
  'several layers without entries, e.g. appending an emptied map to an emptied map', 'A map without keys says it is not empty.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::from([(1, 1)]);
  m.remove(&1);
  let mut n = m.clone();
  m.append(&mut n);
  assert!(m.get(&1).is_none());
  assert!(m.is_empty());
}''')
bug('c-iter-two', 'C02', [(CM, 'let is_len_one = self.stack.len() == 1;', 'let is_len_one = self.stack.iter().filter(|m| m.len() > 1).count() <= 1 && self.stack.len() <= 2;')],
  'two layers, at most one of them with several entries, that share a key', 'Iteration yields a key twice.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::from([(1, 1), (2, 2)]);
  m.insert(1, 3);
  assert_eq!(m.iter().count(), 2);
}''')
bug('c-drain-keep', 'C02', [(CM, '    self.consolidate_().drain()\n', '''    // the newest layer comes last
    if let [one] = &self.stack[..] {
      if Rc::strong_count(one) > 1 {
        let all = FxHashMap::clone(one);
        return all.into_iter().collect::<Vec<_>>().into_iter();
      }
    }
    self.consolidate_().drain().collect::<Vec<_>>().into_iter()
''')], 'draining a map with one layer that a clone shares', 'The map is not empty after draining.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::from([(1, 1), (2, 2)]);
  let n = m.clone();
  assert_eq!(m.drain().count(), 2);
  assert!(m.is_empty() && !n.is_empty());
}''')
bug('c-shared-lost', 'C03', [(CM, '''        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
        one.extend(m);''', '''        match Rc::try_unwrap(m) {
          Ok(m) => one.extend(m),
          Err(m) => {
            for (k, v) in m.iter() {
              one.entry(k.clone()).or_insert_with(|| v.clone());
            }
          }
        }''')], 'consolidating layers shared with a clone of which a newer one rebinds a key of an older one', 'The old value comes back in the map that is consolidated.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::from([(1, 1)]);
  m.insert(1, 2);
  let mut n = m.clone();
  n.remove(&9);
  assert_eq!(n.get(&1), Some(&2));
  assert_eq!(m.get(&1), Some(&2));
}''')
bug('g-only-neighbour', 'G01', [(TG, '      work.extend(ns.iter().copied());', '      work.extend(ns.iter().copied().filter(|n| self.graph.contains_key(n)));')],
  'a node that occurs only as a neighbour', 'Such a node is missing from the order.', 'topo-sort', r'''
fn main() {
  let g: topo_sort::graph::Graph<u32> = [(1, [2].into())].into();
  assert_eq!(topo_sort::graph::get(&g).unwrap(), [2, 1]);
}''')
bug('g-self-loop', 'G02', [(TG, '      work.extend(ns.iter().copied());', '      work.extend(ns.iter().copied().filter(|n| *n != value));')],
  'an edge from a node to itself', 'A self-loop is not reported.', 'topo-sort', r'''
fn main() {
  let g: topo_sort::graph::Graph<u32> = [(1, [1, 2].into())].into();
  assert!(topo_sort::graph::get(&g).is_err());
}''')
bug('g-witness', 'G02', [(TS, '''            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }''', '''            // the element pushed by the same `process` call is better for messages
            if ret.cycle.is_none() {
              ret.cycle = match self.actions.last() {
                Some(Action::Start(x)) if cur.contains(x) || !ret.done.contains(x) => Some(x.clone()),
                _ => Some(value),
              };
            }''')], 'a cycle found while a sibling that is not on the cycle is still to be visited', 'The witness is not on a cycle.', 'topo-sort', r'''
fn main() {
  let g: topo_sort::graph::Graph<u32> = [(5, [3, 9].into()), (9, [5].into())].into();
  let w = topo_sort::graph::get(&g).unwrap_err().witness();
  assert!(w == 5 || w == 9);
}''')
bug('g-level', 'G03', [(TS, '          visitor.exit(value, level);', '          visitor.exit(value, self.actions.len().min(level));')],
  'never more actions than open elements', 'nothing', 'topo-sort', 'fn main() {}') if 0 else None
bug('g-level-pending', 'G03', [(TS, '          visitor.exit(value, level);', '          visitor.exit(value, self.actions.len());')],
  'an element finished while others still wait to be visited', 'The level given to exit counts the waiting elements too.', 'topo-sort', r'''
use topo_sort::{Visitor, Work};
struct V(Vec<(u32, usize)>);
impl Visitor for V {
  type Elem = u32; type Data = (); type Set = std::collections::BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> { Some(()) }
  fn process(&mut self, v: u32, (): (), w: &mut Work<u32>) { if v == 1 { w.push(2); w.push(3); } }
  fn exit(&mut self, v: u32, l: usize) { self.0.push((v, l)); }
}
fn main() {
  let mut v = V(vec![]);
  [1].into_iter().collect::<Work<u32>>().run(&mut v);
  assert_eq!(v.0, [(3, 1), (2, 1), (1, 0)]);
}''')
bug('g-skip-again', 'G03', [(TS, '''          let Some(data) = visitor.enter(value.clone()) else { continue };
          if !cur.insert(value.clone()) {
            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }
            continue;
          }
''', '''          if !cur.insert(value.clone()) {
            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }
            continue;
          }
          let Some(data) = visitor.enter(value.clone()) else {
            if level == 0 {
              cur.remove(&value);
            }
            continue;
          };
''')], 'an element that is skipped, asked for by another one, twice', 'A cycle is reported where there is none.', 'topo-sort', r'''
use topo_sort::{Visitor, Work};
struct V;
impl Visitor for V {
  type Elem = u32; type Data = (); type Set = std::collections::BTreeSet<u32>;
  fn enter(&self, v: u32) -> Option<()> { (v != 2).then_some(()) }
  fn process(&mut self, v: u32, (): (), w: &mut Work<u32>) { if v == 1 { w.push(2); w.push(3); } else if v == 3 { w.push(2); } }
  fn exit(&mut self, _: u32, _: usize) {}
}
fn main() {
  let r = std::panic::catch_unwind(|| [1].into_iter().collect::<Work<u32>>().run(&mut V).cycle);
  assert_eq!(r.ok(), Some(None));
}''')
bug('g-set-remove', 'G04', [(TS, '''impl<T, S> Set for HashSet<T, BuildHasherDefault<S>>
where
  T: Hash + Eq,
  S: Hasher + Default,
{
  type Elem = T;

  fn contains(&self, value: &Self::Elem) -> bool {
    self.contains(value)
  }

  fn insert(&mut self, value: Self::Elem) -> bool {
    self.insert(value)
  }''', '''impl<T, S> Set for HashSet<T, BuildHasherDefault<S>>
where
  T: Hash + Eq,
  S: Hasher + Default,
{
  type Elem = T;

  fn contains(&self, value: &Self::Elem) -> bool {
    self.contains(value)
  }

  fn insert(&mut self, value: Self::Elem) -> bool {
    self.replace(value);
    true
  }''')], 'inserting an element again into the hash set with a default-built hasher', 'insert says the element is new.', 'topo-sort', r'''
use std::hash::{BuildHasherDefault, DefaultHasher};
use topo_sort::Set;
fn main() {
  let mut s = std::collections::HashSet::<u32, BuildHasherDefault<DefaultHasher>>::default();
  assert!(Set::insert(&mut s, 1));
  assert!(!Set::insert(&mut s, 1));
}''')
