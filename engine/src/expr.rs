//! Hash-consed bit-vector expression DAG, with light rewriting. Expression id 0 means "concrete".
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
  fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
  fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x.into()) } }
  fn write_u8(&mut self, n: u8) { self.write_u64(n.into()) }
  fn write_u16(&mut self, n: u16) { self.write_u64(n.into()) }
  fn write_u32(&mut self, n: u32) { self.write_u64(n.into()) }
  fn write_u64(&mut self, n: u64) { self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x517cc1b727220a95) }
  fn write_usize(&mut self, n: usize) { self.write_u64(n as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

#[derive(Clone, Copy, Debug)]
pub struct Val { pub c: u128, pub e: u32 }
impl Val {
  pub const fn k(c: u128) -> Val { Val { c, e: 0 } }
}

#[inline(always)]
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline(always)]
pub fn sext(c: u128, w: u32) -> i128 { let s = 128 - w; ((c << s) as i128) >> s }

/// What is known of the value of a node whatever the inputs: bounds, and bits that are 0 or 1.
#[derive(Clone, Copy, Debug)]
struct Abs { lo: u128, hi: u128, zero: u128, one: u128 }
impl Abs {
  fn k(c: u128) -> Abs { Abs { lo: c, hi: c, zero: !c, one: c } }
  fn top(w: u32) -> Abs { let m = mask(w); Abs { lo: 0, hi: m, zero: !m, one: 0 } }
  /// Bits follow from bounds and bounds from bits.
  fn tight(mut self) -> Abs {
    self.lo = self.lo.max(self.one);
    self.hi = self.hi.min(!self.zero);
    // the leading bits that the bounds share
    let d = self.lo ^ self.hi;
    let common = if d == 0 { u128::MAX } else { !(u128::MAX >> d.leading_zeros()) };
    self.one |= self.lo & common;
    self.zero |= !self.lo & common;
    self
  }
}

pub struct Dag {
  pub nodes: Vec<Node>,
  abs: Vec<Abs>,
  pub vars: Vec<u128>,
  /// structural hash: the order of operands must not depend on what was built before
  sh: Vec<u64>,
  consts: Vec<u128>,
  map: FxMap<Node, u32>,
  cmap: FxMap<(u128, u16), u32>,
}

pub fn eval_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
  let m = mask(w);
  match op {
    Add => a.wrapping_add(b) & m,
    Sub => a.wrapping_sub(b) & m,
    Mul => a.wrapping_mul(b) & m,
    UDiv => if b == 0 { m } else { a / b },
    URem => if b == 0 { a } else { a % b },
    SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
    SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
    And => a & b,
    Or => a | b,
    Xor => a ^ b,
    Shl => if b >= w as u128 { 0 } else { (a << b) & m },
    LShr => if b >= w as u128 { 0 } else { a >> b },
    AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((sext(a, w) >> s) as u128) & m }
    Eq => (a == b) as u128,
    Ult => (a < b) as u128,
    Ule => (a <= b) as u128,
    Slt => (sext(a, w) < sext(b, w)) as u128,
    Sle => (sext(a, w) <= sext(b, w)) as u128,
    _ => unreachable!(),
  }
}

impl Dag {
  pub fn new() -> Dag {
    let mut d = Dag { nodes: Vec::new(), abs: vec![Abs::k(0)], vars: Vec::new(), sh: Vec::new(), consts: Vec::new(), map: Default::default(), cmap: Default::default() };
    d.nodes.push(Node { op: Const, w: 0, a: 0, b: 0, c: 0 });
    d.vars.push(0);
    d.sh.push(0);
    d
  }
  #[inline] pub fn w(&self, e: u32) -> u32 { self.nodes[e as usize].w as u32 }
  pub fn konst(&mut self, c: u128, w: u32) -> u32 {
    let c = c & mask(w);
    if let Some(&e) = self.cmap.get(&(c, w as u16)) { return e; }
    let k = self.consts.len() as u32;
    self.consts.push(c);
    let id = self.nodes.len() as u32;
    self.nodes.push(Node { op: Const, w: w as u16, a: k, b: 0, c: 0 });
    self.abs.push(Abs::k(c));
    self.vars.push(0);
    self.sh.push(Self::mix(Self::mix(Self::mix(1, c as u64), (c >> 64) as u64), w as u64));
    self.cmap.insert((c, w as u16), id);
    id
  }
  #[inline] pub fn as_const(&self, e: u32) -> Option<u128> {
    let n = &self.nodes[e as usize];
    if n.op == Const { Some(self.consts[n.a as usize]) } else { None }
  }
  pub fn var(&mut self, k: u32, w: u32) -> u32 {
    let n = Node { op: Var, w: w as u16, a: k, b: 0, c: 0 };
    let vs = 1u128 << (k % 128);
    self.intern(n, vs)
  }
  fn mix(h: u64, x: u64) -> u64 {
    let z = (h ^ x.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 29)
  }
  fn intern(&mut self, n: Node, vs: u128) -> u32 {
    if let Some(&e) = self.map.get(&n) { return e; }
    let ab = self.abs_of(&n);
    if ab.lo == ab.hi { return self.konst(ab.lo, n.w as u32); }
    let id = self.nodes.len() as u32;
    let h = Self::mix(n.op as u64 + 7, n.w as u64);
    let s = |e: u32| self.sh[e as usize];
    let h = match n.op {
      Var => Self::mix(h, n.a as u64),
      ZExt | SExt => Self::mix(h, s(n.a)),
      Extract => Self::mix(Self::mix(h, s(n.a)), n.b as u64),
      Ite => Self::mix(Self::mix(Self::mix(h, s(n.a)), s(n.b)), s(n.c)),
      _ => Self::mix(Self::mix(h, s(n.a)), s(n.b)),
    };
    self.nodes.push(n);
    self.abs.push(ab);
    self.vars.push(vs);
    self.sh.push(h);
    self.map.insert(n, id);
    id
  }
  fn abs_of(&self, n: &Node) -> Abs {
    let w = n.w as u32;
    let m = mask(w);
    let top = Abs::top(w);
    let g = |e: u32| self.abs[e as usize];
    let r = match n.op {
      Const => unreachable!(),
      Var => top,
      ZExt => g(n.a),
      SExt => {
        let (a, wa) = (g(n.a), self.w(n.a));
        let (s, up) = (1u128 << (wa - 1), m & !mask(wa));
        if a.zero & s != 0 { a } else if a.one & s != 0 { Abs { lo: a.lo | up, hi: a.hi | up, zero: a.zero & !up, one: a.one | up } } else { Abs { zero: a.zero & (mask(wa) | !m), one: a.one, ..top } }
      }
      Add => {
        let (a, b) = (g(n.a), g(n.b));
        match (a.hi.checked_add(b.hi), a.lo.checked_add(b.lo)) { (Some(hi), Some(lo)) if hi <= m => Abs { lo, hi, ..top }, _ => top }
      }
      Sub => { let (a, b) = (g(n.a), g(n.b)); if a.lo >= b.hi { Abs { lo: a.lo - b.hi, hi: a.hi - b.lo, ..top } } else { top } }
      Mul => { let (a, b) = (g(n.a), g(n.b)); match a.hi.checked_mul(b.hi) { Some(hi) if hi <= m => Abs { lo: a.lo * b.lo, hi, ..top }, _ => top } }
      UDiv => { let (a, b) = (g(n.a), g(n.b)); if b.lo > 0 { Abs { lo: a.lo / b.hi, hi: a.hi / b.lo, ..top } } else { top } }
      URem => { let (a, b) = (g(n.a), g(n.b)); if b.lo > 0 { if a.hi < b.lo { a } else { Abs { lo: 0, hi: a.hi.min(b.hi - 1), ..top } } } else { Abs { lo: 0, hi: a.hi, ..top } } }
      And => { let (a, b) = (g(n.a), g(n.b)); Abs { lo: 0, hi: a.hi.min(b.hi), zero: a.zero | b.zero, one: a.one & b.one } }
      Or => { let (a, b) = (g(n.a), g(n.b)); Abs { lo: a.lo.max(b.lo), hi: m, zero: a.zero & b.zero, one: a.one | b.one } }
      Xor => { let (a, b) = (g(n.a), g(n.b)); Abs { lo: 0, hi: m, zero: (a.zero & b.zero) | (a.one & b.one), one: (a.zero & b.one) | (a.one & b.zero) } }
      Shl => match self.as_const(n.b) {
        Some(k) if k < w as u128 => {
          let (a, k) = (g(n.a), k as u32);
          let bits = Abs { zero: (a.zero << k) | mask(k) | !m, one: (a.one << k) & m, ..top };
          if a.hi <= m >> k { Abs { lo: a.lo << k, hi: a.hi << k, ..bits } } else { bits }
        }
        _ => top,
      },
      Ite => { let (a, b) = (g(n.b), g(n.c)); Abs { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), zero: a.zero & b.zero, one: a.one & b.one } }
      Extract => {
        let (a, lo) = (g(n.a), n.b);
        let bits = Abs { zero: ((a.zero >> lo) & m) | !m, one: (a.one >> lo) & m, ..top };
        if a.hi >> lo <= m { Abs { lo: a.lo >> lo, hi: a.hi >> lo, ..bits } } else { bits }
      }
      Concat => {
        let (a, b, wl) = (g(n.a), g(n.b), self.w(n.b));
        Abs { lo: a.lo << wl | b.lo, hi: a.hi << wl | b.hi, zero: (a.zero << wl) | (b.zero & mask(wl)) | !m, one: a.one << wl | b.one }
      }
      _ => top,
    };
    r.tight()
  }
  fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> u32 {
    let mut vs = self.vars[a as usize];
    match op {
      ZExt | SExt | Extract => {}
      Ite => vs |= self.vars[b as usize] | self.vars[c as usize],
      _ => vs |= self.vars[b as usize],
    }
    self.intern(Node { op, w: w as u16, a, b, c }, vs)
  }
  pub fn to_e(&mut self, v: Val, w: u32) -> u32 { if v.e != 0 { v.e } else { self.konst(v.c, w) } }
  fn wrap(&self, e: u32, c: u128) -> Val {
    match self.as_const(e) { Some(k) => { assert_eq!(k, c, "simplification"); Val::k(k) } None => Val { c, e } }
  }
  pub fn not(&mut self, e: u32) -> u32 {
    let one = self.konst(1, 1);
    self.bin_e(Xor, 1, e, one)
  }
  /// `w` is the operand width.
  pub fn bin(&mut self, op: Op, w: u32, a: Val, b: Val) -> Val {
    let c = eval_bin(op, w, a.c, b.c);
    if a.e == 0 && b.e == 0 { return Val::k(c); }
    let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
    let e = self.bin_e(op, w, ea, eb);
    self.wrap(e, c)
  }
  pub fn bin_e(&mut self, op: Op, w: u32, mut a: u32, mut b: u32) -> u32 {
    let (mut ka, mut kb) = (self.as_const(a), self.as_const(b));
    let rw = match op { Eq | Ult | Ule | Slt | Sle => 1, _ => w };
    if let (Some(x), Some(y)) = (ka, kb) { return self.konst(eval_bin(op, w, x, y), rw); }
    // commutative: constant on the right
    if matches!(op, Add | Mul | And | Or | Xor | Eq) && (ka.is_some() || (kb.is_none() && self.sh[a as usize] > self.sh[b as usize])) {
      std::mem::swap(&mut a, &mut b);
      std::mem::swap(&mut ka, &mut kb);
    }
    let m = mask(w);
    let na = self.nodes[a as usize];
    match op {
      Add => {
        if kb == Some(0) { return a; }
        if let Some(y) = kb { if na.op == Add { if let Some(x) = self.as_const(na.b) {
          let k = self.konst(x.wrapping_add(y), w);
          return self.bin_e(Add, w, na.a, k);
        } } }
      }
      Sub => {
        if a == b { return self.konst(0, w); }
        if let Some(y) = kb { let k = self.konst(y.wrapping_neg(), w); return self.bin_e(Add, w, a, k); }
      }
      Mul => {
        if kb == Some(0) { return b; }
        if kb == Some(1) { return a; }
      }
      And => {
        if a == b { return a; }
        if let Some(y) = kb {
          if y == 0 { return b; }
          if y == m { return a; }
          if na.op == ZExt && w > 1 {
            let wi = self.w(na.a);
            if y & mask(wi) == mask(wi) { return a; }
            let k = self.konst(y & mask(wi), wi);
            let x = self.bin_e(And, wi, na.a, k);
            return self.zext_e(x, w);
          }
          if na.op == And { if let Some(x) = self.as_const(na.b) { let k = self.konst(x & y, w); return self.bin_e(And, w, na.a, k); } }
        } else if w == 1 && self.is_not(a, b) { return self.konst(0, 1); }
      }
      Or => {
        if a == b { return a; }
        if kb == Some(0) { return a; }
        if kb == Some(m) { return b; }
        if w == 1 && kb.is_none() && self.is_not(a, b) { return self.konst(1, 1); }
      }
      Xor => {
        if a == b { return self.konst(0, w); }
        if kb == Some(0) { return a; }
        if let Some(y) = kb { if na.op == Xor { if let Some(x) = self.as_const(na.b) {
          let k = self.konst(x ^ y, w);
          return self.bin_e(Xor, w, na.a, k);
        } } }
        if w == 1 && kb == Some(1) {
          match na.op {
            Ult => { let wa = self.w(na.a); return self.bin_e(Ule, wa, na.b, na.a); }
            Ule => { let wa = self.w(na.a); return self.bin_e(Ult, wa, na.b, na.a); }
            Slt => { let wa = self.w(na.a); return self.bin_e(Sle, wa, na.b, na.a); }
            Sle => { let wa = self.w(na.a); return self.bin_e(Slt, wa, na.b, na.a); }
            _ => {}
          }
        }
      }
      Shl | LShr | AShr => {
        if kb == Some(0) { return a; }
        if let Some(y) = kb {
          if op == LShr && y < w as u128 {
            // as an extract: composes with concat
            let y = y as u32;
            let x = self.extract_e(a, y, w - y);
            return self.zext_e(x, w);
          }
          if op != AShr && y >= w as u128 { return self.konst(0, w); }
        }
      }
      Eq => {
        if a == b { return self.konst(1, 1); }
        if let Some(y) = kb {
          if w == 1 { return if y == 1 { a } else { self.not(a) }; }
          match na.op {
            ZExt => {
              let wi = self.w(na.a);
              if y > mask(wi) { return self.konst(0, 1); }
              let k = self.konst(y, wi);
              return self.bin_e(Eq, wi, na.a, k);
            }
            Add => if let Some(x) = self.as_const(na.b) { let k = self.konst(y.wrapping_sub(x), w); return self.bin_e(Eq, w, na.a, k); }
            Xor => if let Some(x) = self.as_const(na.b) { let k = self.konst(y ^ x, w); return self.bin_e(Eq, w, na.a, k); }
            Ite => {
              let (x, z) = (self.as_const(na.b), self.as_const(na.c));
              if x.is_some() || z.is_some() {
                let l = self.bin_e(Eq, w, na.b, b);
                let r = self.bin_e(Eq, w, na.c, b);
                return self.ite_e(na.a, l, r);
              }
            }
            Concat => {
              let wl = self.w(na.b);
              let (kh, kl) = (self.konst(y >> wl, w - wl), self.konst(y, wl));
              let h = self.bin_e(Eq, w - wl, na.a, kh);
              let l = self.bin_e(Eq, wl, na.b, kl);
              return self.bin_e(And, 1, h, l);
            }
            _ => {}
          }
        } else if na.op == ZExt && self.nodes[b as usize].op == ZExt {
          let nb = self.nodes[b as usize];
          if self.w(na.a) == self.w(nb.a) { let wi = self.w(na.a); return self.bin_e(Eq, wi, na.a, nb.a); }
        }
      }
      Ult | Ule => {
        if a == b { return self.konst((op == Ule) as u128, 1); }
        if let Some(y) = kb {
          if op == Ult && y == 0 { return self.konst(0, 1); }
          if op == Ule && y == m { return self.konst(1, 1); }
          if na.op == ZExt {
            let wi = self.w(na.a);
            if y > mask(wi) || (op == Ule && y == mask(wi)) { return self.konst(1, 1); }
            let k = self.konst(y, wi);
            return self.bin_e(op, wi, na.a, k);
          }
          // canonical: x < c  as  x <= c-1
          if op == Ult { let k = self.konst(y - 1, w); return self.bin_e(Ule, w, a, k); }
          if na.op == Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
            let l = self.bin_e(op, w, na.b, b);
            let r = self.bin_e(op, w, na.c, b);
            return self.ite_e(na.a, l, r);
          }
        }
        if let Some(x) = ka {
          let nb = self.nodes[b as usize];
          if op == Ult && x == m { return self.konst(0, 1); }
          if op == Ule && x == 0 { return self.konst(1, 1); }
          if nb.op == ZExt {
            let wi = self.w(nb.a);
            if x > mask(wi) || (op == Ult && x == mask(wi)) { return self.konst(0, 1); }
            let k = self.konst(x, wi);
            return self.bin_e(op, wi, k, nb.a);
          }
          if op == Ule { let k = self.konst(x - 1, w); return self.bin_e(Ult, w, k, b); }
          if nb.op == Ite && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() {
            let l = self.bin_e(op, w, a, nb.b);
            let r = self.bin_e(op, w, a, nb.c);
            return self.ite_e(nb.a, l, r);
          }
        }
        if na.op == ZExt && self.nodes[b as usize].op == ZExt {
          let nb = self.nodes[b as usize];
          if self.w(na.a) == self.w(nb.a) { let wi = self.w(na.a); return self.bin_e(op, wi, na.a, nb.a); }
        }
      }
      Slt | Sle => {
        if a == b { return self.konst((op == Sle) as u128, 1); }
        // zero-extended operands are non-negative
        if let Some(y) = kb { if na.op == ZExt {
          if sext(y, w) < 0 { return self.konst(0, 1); }
          return self.bin_e(if op == Slt { Ult } else { Ule }, w, a, b);
        } }
        if let Some(x) = ka { let nb = self.nodes[b as usize]; if nb.op == ZExt {
          if sext(x, w) < 0 { return self.konst(1, 1); }
          return self.bin_e(if op == Slt { Ult } else { Ule }, w, a, b);
        } }
        if na.op == ZExt && self.nodes[b as usize].op == ZExt {
          return self.bin_e(if op == Slt { Ult } else { Ule }, w, a, b);
        }
      }
      UDiv => if kb == Some(1) { return a; },
      _ => {}
    }
    // what is known of the operands may decide a comparison
    if rw == 1 && matches!(op, Eq | Ult | Ule | Slt | Sle) {
      let (x, y) = (self.abs[a as usize], self.abs[b as usize]);
      let ult = if x.hi < y.lo { Some(true) } else if x.lo >= y.hi { Some(false) } else { None };
      let ule = if x.hi <= y.lo { Some(true) } else if x.lo > y.hi { Some(false) } else { None };
      let s = 1u128 << (w - 1);
      let sign = |v: Abs| if v.zero & s != 0 { Some(false) } else if v.one & s != 0 { Some(true) } else { None };
      let known = match op {
        Eq => if x.hi < y.lo || y.hi < x.lo || (x.one & y.zero) | (x.zero & y.one) != 0 { Some(false) } else { None },
        Ult => ult,
        Ule => ule,
        _ => match (sign(x), sign(y)) {
          (Some(p), Some(q)) if p != q => Some(p),
          (Some(_), Some(_)) => if op == Slt { ult } else { ule },
          _ => None,
        },
      };
      if let Some(k) = known { return self.konst(k as u128, 1); }
    }
    // push binary operations with a constant into an ite of constants
    if let Some(_) = kb {
      if na.op == Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
        let l = self.bin_e(op, w, na.b, b);
        let r = self.bin_e(op, w, na.c, b);
        return self.ite_e(na.a, l, r);
      }
    }
    self.raw(op, rw, a, b, 0)
  }
  fn is_not(&self, a: u32, b: u32) -> bool {
    let f = |x: u32, y: u32| {
      let n = &self.nodes[x as usize];
      n.op == Xor && n.a == y && self.as_const(n.b) == Some(1)
    };
    f(a, b) || f(b, a)
  }
  pub fn ite_e(&mut self, c: u32, t: u32, f: u32) -> u32 {
    if t == f { return t; }
    if let Some(k) = self.as_const(c) { return if k == 1 { t } else { f }; }
    let w = self.w(t);
    if w == 1 {
      match (self.as_const(t), self.as_const(f)) {
        (Some(1), Some(0)) => return c,
        (Some(0), Some(1)) => return self.not(c),
        (Some(0), None) => { let n = self.not(c); return self.bin_e(And, 1, n, f); }
        (Some(1), None) => return self.bin_e(Or, 1, c, f),
        (None, Some(0)) => return self.bin_e(And, 1, c, t),
        (None, Some(1)) => { let n = self.not(c); return self.bin_e(Or, 1, n, t); }
        _ => {}
      }
    }
    let nc = self.nodes[c as usize];
    if nc.op == Xor && self.as_const(nc.b) == Some(1) { return self.ite_e(nc.a, f, t); }
    let nf = self.nodes[f as usize];
    if nf.op == Ite && nf.a == c { return self.ite_e(c, t, nf.c); }
    let nt = self.nodes[t as usize];
    if nt.op == Ite && nt.a == c { return self.ite_e(c, nt.b, f); }
    self.raw(Ite, w, c, t, f)
  }
  pub fn ite(&mut self, w: u32, c: Val, t: Val, f: Val) -> Val {
    let v = if c.c & 1 == 1 { t } else { f };
    if c.e == 0 { return v; }
    let (et, ef) = (self.to_e(t, w), self.to_e(f, w));
    let e = self.ite_e(c.e, et, ef);
    self.wrap(e, v.c)
  }
  pub fn zext_e(&mut self, e: u32, w: u32) -> u32 {
    let wi = self.w(e);
    if wi == w { return e; }
    if let Some(k) = self.as_const(e) { return self.konst(k, w); }
    let n = self.nodes[e as usize];
    if n.op == ZExt { return self.zext_e(n.a, w); }
    if n.op == Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
      let (l, r) = (self.zext_e(n.b, w), self.zext_e(n.c, w));
      return self.ite_e(n.a, l, r);
    }
    self.raw(ZExt, w, e, 0, 0)
  }
  pub fn zext(&mut self, v: Val, w: u32) -> Val {
    if v.e == 0 { return v; }
    let e = self.zext_e(v.e, w);
    self.wrap(e, v.c)
  }
  pub fn sext_e(&mut self, e: u32, w: u32) -> u32 {
    let wi = self.w(e);
    if wi == w { return e; }
    if let Some(k) = self.as_const(e) { return self.konst(sext(k, wi) as u128, w); }
    let n = self.nodes[e as usize];
    if n.op == ZExt { return self.zext_e(n.a, w); }
    if wi == 1 { let (t, f) = (self.konst(u128::MAX, w), self.konst(0, w)); return self.ite_e(e, t, f); }
    self.raw(SExt, w, e, 0, 0)
  }
  pub fn sext(&mut self, v: Val, w0: u32, w: u32) -> Val {
    let c = (sext(v.c, w0) as u128) & mask(w);
    if v.e == 0 { return Val::k(c); }
    let e = self.sext_e(v.e, w);
    self.wrap(e, c)
  }
  pub fn extract_e(&mut self, e: u32, lo: u32, w: u32) -> u32 {
    let wi = self.w(e);
    if lo == 0 && wi == w { return e; }
    if let Some(k) = self.as_const(e) { return self.konst(k >> lo, w); }
    let n = self.nodes[e as usize];
    match n.op {
      Extract => return self.extract_e(n.a, lo + n.b, w),
      ZExt => {
        let w0 = self.w(n.a);
        if lo >= w0 { return self.konst(0, w); }
        if lo + w <= w0 { return self.extract_e(n.a, lo, w); }
        let x = self.extract_e(n.a, lo, w0 - lo);
        return self.zext_e(x, w);
      }
      SExt => {
        let w0 = self.w(n.a);
        if lo + w <= w0 { return self.extract_e(n.a, lo, w); }
      }
      Concat => {
        let wl = self.w(n.b);
        if lo >= wl { return self.extract_e(n.a, lo - wl, w); }
        if lo + w <= wl { return self.extract_e(n.b, lo, w); }
        let l = self.extract_e(n.b, lo, wl - lo);
        let h = self.extract_e(n.a, 0, w - (wl - lo));
        return self.concat_e(h, l);
      }
      And | Or | Xor => {
        let (x, y) = (self.extract_e(n.a, lo, w), self.extract_e(n.b, lo, w));
        return self.bin_e(n.op, w, x, y);
      }
      Add | Sub | Mul if lo == 0 => {
        let (x, y) = (self.extract_e(n.a, lo, w), self.extract_e(n.b, lo, w));
        return self.bin_e(n.op, w, x, y);
      }
      Shl => {
        if let Some(k) = self.as_const(n.b) {
          let k = k as u32;
          if lo >= k { return self.extract_e(n.a, lo - k, w); }
          if lo + w <= k { return self.konst(0, w); }
        }
      }
      Ite => {
        if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
          let (x, y) = (self.extract_e(n.b, lo, w), self.extract_e(n.c, lo, w));
          return self.ite_e(n.a, x, y);
        }
      }
      _ => {}
    }
    // operand b holds the low bit index
    let vs = self.vars[e as usize];
    self.intern(Node { op: Extract, w: w as u16, a: e, b: lo, c: 0 }, vs)
  }
  pub fn extract(&mut self, v: Val, lo: u32, w: u32) -> Val {
    let c = (v.c >> lo) & mask(w);
    if v.e == 0 { return Val::k(c); }
    let e = self.extract_e(v.e, lo, w);
    self.wrap(e, c)
  }
  /// `h` is the high part.
  pub fn concat_e(&mut self, h: u32, l: u32) -> u32 {
    let (wh, wl) = (self.w(h), self.w(l));
    if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.konst((x << wl) | y, wh + wl); }
    if self.as_const(h) == Some(0) { return self.zext_e(l, wh + wl); }
    let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
    if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.b == nl.b + wl {
      return self.extract_e(nl.a, nl.b, wh + wl);
    }
    // the low part may be a whole value whose extension continues
    if nh.op == Extract && nh.a == l && nh.b == wl { return l; }
    self.raw(Concat, wh + wl, h, l, 0)
  }
  pub fn concat(&mut self, h: Val, wh: u32, l: Val, wl: u32) -> Val {
    let c = (h.c << wl) | l.c;
    if h.e == 0 && l.e == 0 { return Val::k(c); }
    let (eh, el) = (self.to_e(h, wh), self.to_e(l, wl));
    let e = self.concat_e(eh, el);
    self.wrap(e, c)
  }
  /// An upper bound of the unsigned value.
  pub fn umax(&self, e: u32, depth: u32) -> u128 {
    let n = &self.nodes[e as usize];
    let m = mask(n.w as u32);
    if let Some(k) = self.as_const(e) { return k; }
    if depth == 0 { return m; }
    let d = depth - 1;
    match n.op {
      ZExt => self.umax(n.a, d),
      And => self.umax(n.a, d).min(self.umax(n.b, d)),
      Ite => self.umax(n.b, d).max(self.umax(n.c, d)),
      Add => self.umax(n.a, d).checked_add(self.umax(n.b, d)).filter(|x| *x <= m).unwrap_or(m),
      Mul => self.umax(n.a, d).checked_mul(self.umax(n.b, d)).filter(|x| *x <= m).unwrap_or(m),
      Shl => match self.as_const(n.b) {
        Some(k) if k < 64 => { let x = self.umax(n.a, d); if x < (1 << 60) { (x << k).min(m) } else { m } }
        _ => m,
      },
      UDiv => match self.as_const(n.b) { Some(k) if k > 0 => self.umax(n.a, d) / k, _ => m },
      URem => match self.as_const(n.b) { Some(k) if k > 0 => self.umax(n.a, d).min(k - 1), _ => m },
      _ => m,
    }
  }
  /// Known trailing zero bits.
  pub fn tz(&self, e: u32, depth: u32) -> u32 {
    let n = &self.nodes[e as usize];
    if let Some(k) = self.as_const(e) { return if k == 0 { n.w as u32 } else { k.trailing_zeros() }; }
    if depth == 0 { return 0; }
    let d = depth - 1;
    match n.op {
      ZExt | SExt => self.tz(n.a, d),
      Add | Sub | Or | Xor => self.tz(n.a, d).min(self.tz(n.b, d)),
      And => self.tz(n.a, d).max(self.tz(n.b, d)),
      Mul => (self.tz(n.a, d) + self.tz(n.b, d)).min(n.w as u32),
      Ite => self.tz(n.b, d).min(self.tz(n.c, d)),
      Shl => match self.as_const(n.b) { Some(k) if k < 64 => (self.tz(n.a, d) + k as u32).min(n.w as u32), _ => self.tz(n.a, d) },
      _ => 0,
    }
  }
}
