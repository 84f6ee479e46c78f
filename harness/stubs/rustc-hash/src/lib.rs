//! A stand-in for rustc-hash whose hash is the same for all values: the layout of a hash table then
//! stays concrete and only the equality of keys is symbolic. Every result is one a hasher may give.
//! For large tables of fixed keys it can be told to hash differing values differently.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};

pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = HashSet<V, FxBuildHasher>;

static SPREAD: AtomicBool = AtomicBool::new(false);
/// From now on, values hash differently. Only for values that are not symbolic.
pub fn spread() { SPREAD.store(true, Ordering::Relaxed); }

#[derive(Clone, Copy, Default, Debug)]
pub struct FxHasher(u64);
impl FxHasher {
  fn add(&mut self, x: u64) { if SPREAD.load(Ordering::Relaxed) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95); } }
}
impl Hasher for FxHasher {
  fn write(&mut self, b: &[u8]) { if SPREAD.load(Ordering::Relaxed) { for x in b { self.add(u64::from(*x)); } } }
  fn write_u8(&mut self, x: u8) { self.add(x.into()); }
  fn write_u16(&mut self, x: u16) { self.add(x.into()); }
  fn write_u32(&mut self, x: u32) { self.add(x.into()); }
  fn write_u64(&mut self, x: u64) { self.add(x); }
  fn write_usize(&mut self, x: usize) { self.add(x as u64); }
  fn finish(&self) -> u64 { self.0 ^ self.0 >> 29 }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct FxBuildHasher;
impl BuildHasher for FxBuildHasher {
  type Hasher = FxHasher;
  fn build_hasher(&self) -> FxHasher { FxHasher(0) }
}
