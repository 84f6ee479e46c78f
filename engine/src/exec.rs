//! The symbolic executor: concolic re-execution of one path, forking at every feasible decision.
use crate::expr::*;
use crate::ir::*;
use crate::llvm as L;
use crate::solver::*;

#[derive(Clone)]
pub struct Item {
  pub inputs: Vec<u128>,
  pub prefix: u32,
  pub hash: u64,
  /// positions whose literal is implied by the earlier ones
  pub implied: Vec<u64>,
  pub depth: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
  Ok,
  /// panicked where the harness allows it
  PanicOk,
  /// concretely false assumption
  Dead,
  Violation(String),
  Engine(String),
}

#[derive(Clone, Default)]
pub struct Totals {
  pub paths: u64, pub dead: u64, pub panics_ok: u64, pub decisions: u64, pub forks: u64, pub asserts: u64, pub asserts_sym: u64,
  pub steps: u64, pub max_steps: u64, pub max_depth: u64, pub unknown: u64, pub max_inputs: u64, pub max_heap: u64,
}

struct Region { base: u64, data: Vec<u8>, shadow: Vec<u32>, state: Vec<u8> }
impl Region {
  fn grow(&mut self, n: usize) {
    if self.data.len() < n { self.data.resize(n, 0); self.shadow.resize(n, 0); self.state.resize(n, 0); }
  }
}

struct Frame { func: u32, pc: u32, base: usize, sp: u64, ret_d: u32, next: u32, nobj: usize }

pub struct Limits { pub steps: u64, pub depth: usize, pub conc: usize, pub ite: usize }

pub struct Exec<'p> {
  pub p: &'p Prog,
  pub d: Dag,
  pub s: Solver,
  pub t: Totals,
  pub lim: Limits,
  pub visited: Vec<u8>,
  pub covers: FxMap<u64, (String, u64)>,
  pub prof: Option<FxMap<(u32, u32), u64>>,
  pub selfcheck: bool,
  /// the property checked: assertions tagged for others are skipped
  pub prop: Option<String>,
  mine: std::collections::HashMap<(u64, u64), bool>,
  pub spawned: Vec<Item>,
  // per path
  glob: Region, stack: Region, heap: Region,
  gl_dirty: bool,
  hobjs: Vec<(u64, u64)>, sobjs: Vec<(u64, u64)>,
  sp: u64, sp_max: u64,
  pub inputs: Vec<(u32, u128)>,
  init: Vec<u128>,
  pc: Vec<u32>,
  pcset: FxMap<u32, ()>,
  pos: u32, hash: u64, prefix: u32, phash: u64,
  implied: Vec<u64>,
  depth: u32,
  may_panic: bool,
  pub trace: Vec<u128>,
  clock: u128,
  vfiles: Vec<Vec<u8>>,
  regs: Vec<Val>,
  frames: Vec<Frame>,
}

type R<T> = Result<T, End>;
fn eng<T>(s: impl Into<String>) -> R<T> { Err(End::Engine(s.into())) }
fn viol<T>(s: impl Into<String>) -> R<T> { Err(End::Violation(s.into())) }
fn mix(h: u64, x: u64) -> u64 { (h.rotate_left(7) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23).wrapping_add(0x1234_5678_9abc_def1) }

const STACK_SIZE: usize = 16 << 20;

impl<'p> Exec<'p> {
  pub fn new(p: &'p Prog, lim: Limits, timeout_ms: u32) -> Exec<'p> {
    let reg = |base| Region { base, data: vec![], shadow: vec![], state: vec![] };
    let mut glob = reg(GLOBAL_BASE);
    glob.data = p.gdata.clone();
    glob.state = p.gstate.clone();
    glob.shadow = vec![0; glob.data.len()];
    Exec {
      p, d: Dag::new(), s: Solver::new(timeout_ms), t: Totals::default(), lim, visited: vec![0; p.nblocks as usize],
      covers: Default::default(), prof: None, selfcheck: false, prop: None, mine: Default::default(), spawned: vec![],
      glob, stack: reg(STACK_BASE), heap: reg(HEAP_BASE), gl_dirty: false, hobjs: vec![], sobjs: vec![], sp: STACK_BASE + 64, sp_max: STACK_BASE + 64,
      inputs: vec![], init: vec![], pc: vec![], pcset: Default::default(), pos: 0, hash: 0, prefix: 0, phash: 0, implied: vec![], depth: 0,
      may_panic: false, trace: vec![], clock: 0, vfiles: vec![], regs: vec![], frames: vec![],
    }
  }

  fn reset(&mut self, it: &Item) {
    if self.d.nodes.len() > 3_000_000 { self.d = Dag::new(); self.s.reset(); }
    if self.gl_dirty {
      let n = self.p.gwritable;
      self.glob.data[..n].copy_from_slice(&self.p.gdata[..n]);
      self.glob.shadow[..n].fill(0);
      self.gl_dirty = false;
    }
    self.heap.data.clear(); self.heap.shadow.clear(); self.heap.state.clear();
    let hw = (self.sp_max - STACK_BASE) as usize;
    let hw = hw.min(self.stack.data.len());
    self.stack.data[..hw].fill(0); self.stack.shadow[..hw].fill(0); self.stack.state[..hw].fill(0);
    self.hobjs.clear(); self.sobjs.clear();
    self.sp = STACK_BASE + 64; self.sp_max = self.sp;
    self.inputs.clear();
    self.init = it.inputs.clone();
    self.pc.clear(); self.pcset.clear();
    self.pos = 0; self.hash = 0; self.prefix = it.prefix; self.phash = it.hash;
    self.implied = it.implied.clone();
    self.depth = it.depth;
    self.may_panic = false;
    self.trace.clear();
    self.clock = 0;
    self.vfiles.clear();
    self.regs.clear(); self.frames.clear();
  }

  // ---------- decisions ----------
  fn patched(&self, m: &[(u32, u128)]) -> Vec<u128> {
    let mut v: Vec<u128> = self.inputs.iter().map(|x| x.1).collect();
    if self.init.len() > v.len() { v.extend_from_slice(&self.init[v.len()..]); }
    for &(k, x) in m {
      if v.len() <= k as usize { v.resize(k as usize + 1, 0); }
      v[k as usize] = x;
    }
    v
  }
  fn next_pos(&mut self, tag: u64) -> R<bool> {
    self.pos += 1;
    self.hash = mix(self.hash, tag);
    if self.pos == self.prefix && self.hash != self.phash { return eng(format!("replay diverged at decision {}", self.pos)); }
    Ok(self.pos > self.prefix)
  }
  fn set_implied(&mut self, pos: u32) {
    let i = pos as usize / 64;
    if self.implied.len() <= i { self.implied.resize(i + 1, 0); }
    self.implied[i] |= 1 << (pos % 64);
  }
  fn is_implied(&self, pos: u32) -> bool { self.implied.get(pos as usize / 64).is_some_and(|x| x >> (pos % 64) & 1 == 1) }
  fn learn(&mut self, lit: u32) {
    if self.pcset.insert(lit, ()).is_none() { self.pc.push(lit); }
  }
  fn spawn(&mut self, m: &[(u32, u128)], hash: u64) {
    self.t.forks += 1;
    let mut implied = self.implied.clone();
    let n = self.pos as usize / 64 + 1;
    implied.truncate(n);
    let inputs = self.patched(m);
    self.spawned.push(Item { inputs, prefix: self.pos, hash, implied, depth: self.depth + 1 });
  }
  fn ask(&mut self, cond: u32) -> Sat {
    let r = self.s.check(&self.d, &self.pc, cond);
    if let Sat::Unknown = r { self.t.unknown += 1; }
    r
  }
  /// Follows the concrete side of a condition and queues the other one when it is feasible.
  fn decide(&mut self, v: Val) -> R<bool> {
    let b = v.c & 1 == 1;
    if v.e == 0 { return Ok(b); }
    let neg = self.d.not(v.e);
    let (lit, other) = if b { (v.e, neg) } else { (neg, v.e) };
    if self.pcset.contains_key(&lit) { return Ok(b); }
    let h0 = self.hash;
    self.t.decisions += 1;
    let fresh = self.next_pos(b as u64)?;
    if fresh {
      match self.ask(other) {
        Sat::Sat(m) => { let h = mix(h0, !b as u64); self.spawn(&m, h); }
        Sat::Unsat => { let p = self.pos; self.set_implied(p); }
        Sat::Unknown => {}
      }
      self.prof_hit();
    }
    if self.is_implied(self.pos) { self.pcset.insert(lit, ()); } else { self.learn(lit); }
    Ok(b)
  }
  fn prof_hit(&mut self) {
    if self.prof.is_some() {
      let f = self.frames.last().unwrap();
      let k = (f.func, f.pc);
      *self.prof.as_mut().unwrap().entry(k).or_default() += 1;
    }
  }
  /// Makes the value concrete, queueing every other feasible value.
  fn concretise(&mut self, v: Val, w: u32) -> R<u128> {
    if v.e == 0 { return Ok(v.c); }
    let k = self.d.konst(v.c, w);
    let lit = self.d.bin_e(Op::Eq, w, v.e, k);
    if self.pcset.contains_key(&lit) { return Ok(v.c); }
    let h0 = self.hash;
    self.t.decisions += 1;
    let fresh = self.next_pos(v.c as u64 ^ (v.c >> 64) as u64 ^ 0x5555)?;
    if fresh {
      let mut cond = self.d.not(lit);
      let mut n = 0;
      loop {
        match self.ask(cond) {
          Sat::Sat(m) => {
            let x = self.eval_with(v.e, &m);
            let h = mix(h0, x as u64 ^ (x >> 64) as u64 ^ 0x5555);
            self.spawn(&m, h);
            let kx = self.d.konst(x, w);
            let e = self.d.bin_e(Op::Eq, w, v.e, kx);
            let ne = self.d.not(e);
            if cond == ne { return eng("concretise made no progress"); }
            cond = self.d.bin_e(Op::And, 1, cond, ne);
            n += 1;
            if n > self.lim.conc { return eng(format!("more than {} values at {}", self.lim.conc, self.wher())); }
          }
          Sat::Unsat => { if n == 0 { let p = self.pos; self.set_implied(p); } break }
          Sat::Unknown => break,
        }
      }
      self.prof_hit();
    }
    if self.is_implied(self.pos) { self.pcset.insert(lit, ()); } else { self.learn(lit); }
    Ok(v.c)
  }
  fn eval_with(&mut self, e: u32, m: &[(u32, u128)]) -> u128 {
    let inp = self.patched(m);
    eval(&self.d, e, &inp)
  }
  pub fn wher(&self) -> String {
    let mut s = String::new();
    for f in self.frames.iter().rev().take(6) {
      if !s.is_empty() { s.push_str(" < "); }
      let fu = &self.p.funcs[f.func as usize];
      s.push_str(&demangle(&fu.name));
      if let Some(l) = fu.locs.get((f.pc as usize).saturating_sub(1)) { s.push_str(&format!(" ({})", self.p.dbg[*l as usize])); }
    }
    s
  }

  // ---------- memory ----------
  fn region(&mut self, a: u64) -> Option<&mut Region> {
    if a >= HEAP_BASE { Some(&mut self.heap) } else if a >= STACK_BASE { Some(&mut self.stack) } else if a >= GLOBAL_BASE { Some(&mut self.glob) } else { None }
  }
  fn check(&mut self, a: u64, n: u64, what: &str) -> R<()> {
    if n == 0 { return Ok(()); }
    let ok = match self.region(a) {
      None => false,
      Some(r) => {
        let o = (a - r.base) as usize;
        match o.checked_add(n as usize) { Some(e) if e <= r.state.len() => r.state[o..e].iter().all(|&x| x == 1), _ => false }
      }
    };
    if ok { Ok(()) } else { viol(format!("invalid memory {what} of {n} bytes at {a:#x} in {}", self.wher())) }
  }
  fn wr_check(&mut self, a: u64, n: u64) -> R<()> {
    if n == 0 { return Ok(()); }
    if (GLOBAL_BASE..STACK_BASE).contains(&a) {
      if (a - GLOBAL_BASE) as usize + n as usize > self.p.gwritable { return viol(format!("write to constant memory in {}", self.wher())); }
      self.gl_dirty = true;
    }
    self.check(a, n, "write")
  }
  fn alloc(&mut self, size: u64, align: u64) -> R<u64> {
    if size > 64 << 20 { return viol(format!("allocation of {size} bytes in {}", self.wher())); }
    let al = align.max(16);
    let cur = HEAP_BASE + 64 + self.heap.data.len() as u64;
    let a = (cur + 16).div_ceil(al) * al;
    let end = (a + size.max(1) - HEAP_BASE) as usize;
    if end > 256 << 20 { return eng("heap exhausted"); }
    self.heap.grow(end);
    let o = (a - HEAP_BASE) as usize;
    self.heap.state[o..o + size as usize].fill(1);
    self.hobjs.push((a, size));
    self.t.max_heap = self.t.max_heap.max(end as u64);
    Ok(a)
  }
  fn free(&mut self, a: u64) -> R<()> {
    if a == 0 { return Ok(()); }
    match self.hobjs.binary_search_by_key(&a, |o| o.0) {
      Ok(i) => {
        let n = self.hobjs[i].1 as usize;
        let o = (a - HEAP_BASE) as usize;
        if n > 0 && self.heap.state[o] != 1 { return viol(format!("double free in {}", self.wher())); }
        self.heap.state[o..o + n].fill(2);
        Ok(())
      }
      Err(_) => viol(format!("free of a non-heap pointer in {}", self.wher())),
    }
  }
  fn obj_of(&self, a: u64) -> Option<(u64, u64)> {
    let f = |v: &[(u64, u64)]| {
      let i = v.partition_point(|o| o.0 <= a);
      if i == 0 { return None; }
      let o = v[i - 1];
      if a < o.0 + o.1 { Some(o) } else { None }
    };
    if a >= HEAP_BASE { f(&self.hobjs) } else if a >= STACK_BASE { f(&self.sobjs) } else { f(&self.p.gobjs) }
  }
  /// Reads `n` bytes at a concrete, already checked address as one value of `8 * n` bits.
  fn rd(&mut self, a: u64, n: u32) -> Val {
    let (mut c, mut any) = (0u128, false);
    let mut sh = [0u32; 16];
    {
      let r = self.region(a).unwrap();
      let o = (a - r.base) as usize;
      for i in 0..n as usize {
        c |= (r.data[o + i] as u128) << (8 * i);
        sh[i] = r.shadow[o + i];
        any |= sh[i] != 0;
      }
    }
    if !any { return Val::k(c); }
    // runs of bytes of the same expression
    let mut out: Option<(u32, u32)> = None; // (expr, width)
    let mut i = 0usize;
    let n = n as usize;
    while i < n {
      let mut j = i + 1;
      let (e, w) = if sh[i] == 0 {
        while j < n && sh[j] == 0 { j += 1; }
        let w = 8 * (j - i) as u32;
        (self.d.konst((c >> (8 * i)) & mask(w), w), w)
      } else {
        while j < n && sh[j] == sh[i] + (j - i) as u32 && sh[j] >> 4 == sh[i] >> 4 { j += 1; }
        let w = 8 * (j - i) as u32;
        (self.d.extract_e(sh[i] >> 4, 8 * (sh[i] & 15), w), w)
      };
      out = Some(match out { None => (e, w), Some((lo, wl)) => (self.d.concat_e(e, lo), w + wl) });
      i = j;
    }
    let (e, _) = out.unwrap();
    match self.d.as_const(e) { Some(k) => Val::k(k), None => Val { c, e } }
  }
  fn wr(&mut self, a: u64, v: Val, w: u32) {
    let n = w.div_ceil(8) as usize;
    let v = if v.e != 0 && w as usize != 8 * n { self.d.zext(v, 8 * n as u32) } else { v };
    let r = self.region(a).unwrap();
    let o = (a - r.base) as usize;
    for i in 0..n {
      r.data[o + i] = (v.c >> (8 * i)) as u8;
      r.shadow[o + i] = if v.e == 0 { 0 } else { v.e << 4 | i as u32 };
    }
  }
  fn load(&mut self, a: u64, w: u32) -> R<Val> {
    let n = w.div_ceil(8);
    self.check(a, n as u64, "read")?;
    let v = self.rd(a, n);
    Ok(if w != 8 * n { self.d.extract(v, 0, w) } else { v })
  }
  /// The object an access of `n` bytes falls into, and the condition for that; outside of objects,
  /// the condition that it is this very address.
  fn place(&mut self, addr: u32, a: u64, n: u64) -> (Option<(u64, u64)>, u32) {
    if let Some((base, size)) = self.obj_of(a) {
      if a - base + n <= size {
        let kb = self.d.konst(base as u128, 64);
        let off = self.d.bin_e(Op::Sub, 64, addr, kb);
        let ks = self.d.konst((size - n) as u128, 64);
        return (Some((base, size)), self.d.bin_e(Op::Ule, 64, off, ks));
      }
    }
    let k = self.d.konst(a as u128, 64);
    (None, self.d.bin_e(Op::Eq, 64, addr, k))
  }
  /// One path per object that the address may point into.
  fn resolve(&mut self, addr: Val, n: u64) -> R<Option<(u64, u64)>> {
    let a = addr.c as u64;
    let (obj, lit) = self.place(addr.e, a, n);
    if self.d.as_const(lit).is_some() || self.pcset.contains_key(&lit) { return Ok(obj); }
    let tag = |o: Option<(u64, u64)>, a: u64| o.map_or(a ^ 0x3333, |o| o.0 ^ 0x7777_0000);
    let h0 = self.hash;
    self.t.decisions += 1;
    if self.next_pos(tag(obj, a))? {
      let mut cond = self.d.not(lit);
      let mut k = 0;
      loop {
        match self.ask(cond) {
          Sat::Sat(m) => {
            let x = self.eval_with(addr.e, &m) as u64;
            let (o, l) = self.place(addr.e, x, n);
            let h = mix(h0, tag(o, x));
            self.spawn(&m, h);
            let nl = self.d.not(l);
            cond = self.d.bin_e(Op::And, 1, cond, nl);
            k += 1;
            // one address outside of all objects is a counterexample: no need for the others
            if o.is_none() { break; }
            if k > self.lim.conc { return eng(format!("an address in more than {} objects at {}", self.lim.conc, self.wher())); }
          }
          Sat::Unsat => { if k == 0 { let p = self.pos; self.set_implied(p); } break }
          Sat::Unknown => break,
        }
      }
      self.prof_hit();
    }
    if self.is_implied(self.pos) { self.pcset.insert(lit, ()); } else { self.learn(lit); }
    Ok(obj)
  }
  /// Loads through a symbolic address: an if-then-else over the object's candidate offsets, or a
  /// concrete address per path when there are too many.
  fn load_sym(&mut self, addr: Val, off: u64, w: u32) -> R<Val> {
    let addr = if off == 0 { addr } else { self.d.bin(Op::Add, 64, addr, Val::k(off as u128)) };
    if addr.e == 0 { return self.load(addr.c as u64, w); }
    let n = w.div_ceil(8) as u64;
    let a = addr.c as u64;
    let Some((base, size)) = self.resolve(addr, n)? else { return self.load(a, w); };
    self.check(a, n, "read")?;
    let offv = self.d.bin(Op::Sub, 64, addr, Val::k(base as u128));
    if offv.e == 0 { return self.load(a, w); }
    let um = self.d.umax(offv.e, 8).min((size - n) as u128) as u64;
    let tz = self.d.tz(offv.e, 8).min(12);
    let step = 1u64 << tz;
    let cnt = um / step + 1;
    if cnt as usize > self.lim.ite { let a = self.concretise(addr, 64)? as u64; return self.load(a, w); }
    let mut vals = Vec::with_capacity(cnt as usize);
    for k in 0..cnt {
      let v = self.load(base + k * step, w)?;
      vals.push(self.d.to_e(v, w));
    }
    let e = self.tree(offv.e, step, 0, &vals);
    let c = self.load(a, w)?.c;
    Ok(match self.d.as_const(e) { Some(k) => Val::k(k), None => Val { c, e } })
  }
  fn tree(&mut self, off: u32, step: u64, lo: u64, v: &[u32]) -> u32 {
    if v.iter().all(|x| *x == v[0]) { return v[0]; }
    // trim equal runs so that the split falls on a boundary
    let m = v.len() / 2;
    let l = self.tree(off, step, lo, &v[..m]);
    let r = self.tree(off, step, lo + m as u64, &v[m..]);
    if l == r { return l; }
    let k = self.d.konst(((lo + m as u64) * step - 1) as u128, 64);
    let c = self.d.bin_e(Op::Ule, 64, off, k);
    self.d.ite_e(c, l, r)
  }
  fn memcpy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
    if n == 0 { return Ok(()); }
    self.check(src, n, "read")?;
    self.wr_check(dst, n)?;
    let n = n as usize;
    let (td, ts);
    {
      let r = self.region(src).unwrap();
      let o = (src - r.base) as usize;
      td = r.data[o..o + n].to_vec();
      ts = r.shadow[o..o + n].to_vec();
    }
    let r = self.region(dst).unwrap();
    let o = (dst - r.base) as usize;
    r.data[o..o + n].copy_from_slice(&td);
    r.shadow[o..o + n].copy_from_slice(&ts);
    Ok(())
  }
  fn memset(&mut self, dst: u64, v: Val, n: u64) -> R<()> {
    if n == 0 { return Ok(()); }
    self.wr_check(dst, n)?;
    let r = self.region(dst).unwrap();
    let o = (dst - r.base) as usize;
    let n = n as usize;
    r.data[o..o + n].fill(v.c as u8);
    r.shadow[o..o + n].fill(v.e << 4);
    Ok(())
  }
  fn bytes(&mut self, a: u64, n: u64) -> R<Vec<u8>> {
    self.check(a, n, "read")?;
    if n == 0 { return Ok(vec![]); }
    let r = self.region(a).unwrap();
    let o = (a - r.base) as usize;
    Ok(r.data[o..o + n as usize].to_vec())
  }

  // ---------- registers ----------
  #[inline(always)]
  fn g(&self, base: usize, s: u32) -> Val {
    if s & KBIT != 0 { self.p.consts[(s & !KBIT) as usize] } else { self.regs[base + s as usize] }
  }

  /// Runs one path.
  pub fn run(&mut self, it: &Item, entry: u32, arg: u64) -> End {
    self.reset(it);
    let f = &self.p.funcs[entry as usize];
    self.stack.grow(STACK_SIZE.min(1 << 20));
    self.regs.resize(f.nslots as usize, Val::k(0));
    if f.nparams > 0 { self.regs[0] = Val::k(arg as u128); }
    self.frames.push(Frame { func: entry, pc: 0, base: 0, sp: self.sp, ret_d: 0, next: u32::MAX, nobj: 0 });
    self.visited[f.block0 as usize] = 1;
    let r = self.go();
    let end = match r {
      Ok(()) => End::Ok,
      Err(End::Violation(s)) if s.starts_with("panic") && self.may_panic => End::PanicOk,
      Err(e) => e,
    };
    // an assertion that did not hold for other inputs on the same path is not part of what leads to the forks after it
    let failed = matches!(&end, End::Violation(s) if s.starts_with("assertion"));
    if self.pos < self.prefix && !failed && !matches!(end, End::Engine(_)) { return End::Engine(format!("path ended before its prefix: {end:?}")); }
    match end { End::Ok => self.t.paths += 1, End::PanicOk => { self.t.paths += 1; self.t.panics_ok += 1; } End::Dead => self.t.dead += 1, _ => {} }
    self.t.max_depth = self.t.max_depth.max(self.pos as u64);
    self.t.max_inputs = self.t.max_inputs.max(self.inputs.len() as u64);
    end
  }

  fn go(&mut self) -> R<()> {
    let prog = self.p;
    let mut steps = 0u64;
    'frame: loop {
      let (fi, base, mut pc) = { let f = self.frames.last().unwrap(); (f.func, f.base, f.pc as usize) };
      let func = &prog.funcs[fi as usize];
      let code = &func.code[..];
      macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let i = base + $d as usize; self.regs[i] = v; }} }
      macro_rules! jump { ($e:expr) => {{
        let ed = &func.edges[$e as usize];
        self.visited[ed.block as usize] = 1;
        match ed.copies.len() {
          0 => {}
          1 => { let (d, s) = ed.copies[0]; let v = self.g(base, s); self.regs[base + d as usize] = v; }
          _ => {
            let mut buf = [Val::k(0); 16];
            if ed.copies.len() <= 16 {
              for (i, c) in ed.copies.iter().enumerate() { buf[i] = self.g(base, c.1); }
              for (i, c) in ed.copies.iter().enumerate() { self.regs[base + c.0 as usize] = buf[i]; }
            } else {
              let b: Vec<Val> = ed.copies.iter().map(|c| self.g(base, c.1)).collect();
              for (c, v) in ed.copies.iter().zip(b) { self.regs[base + c.0 as usize] = v; }
            }
          }
        }
        pc = ed.pc as usize;
        continue;
      }} }
      loop {
        steps += 1;
        if steps & 1023 == 0 {
          self.t.steps += 1024;
          if steps > self.lim.steps { return viol(format!("no termination within {} steps, in {}", self.lim.steps, self.wher())); }
          self.t.max_steps = self.t.max_steps.max(steps);
        }
        let ins = &code[pc];
        pc += 1;
        macro_rules! sync { () => { self.frames.last_mut().unwrap().pc = pc as u32 } }
        match ins {
          Ins::Bin { op, w, d, a, b } => {
            let (x, y) = (self.g(base, *a), self.g(base, *b));
            if x.e == 0 && y.e == 0 { set!(*d, Val::k(eval_bin(*op, *w, x.c, y.c))); } else {
              if y.e != 0 && matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                sync!();
                let nz = self.d.bin(Op::Eq, *w, y, Val::k(0));
                if self.decide(nz)? { return viol(format!("division by zero in {}", self.wher())); }
              }
              let v = self.d.bin(*op, *w, x, y);
              set!(*d, v);
            }
          }
          Ins::ICmp { p, w, d, a, b } => { let v = self.icmp(*p, *w, self.g(base, *a), self.g(base, *b)); set!(*d, v); }
          Ins::FBin { op, w, d, a, b } => { let v = self.fbin(*op as i32, *w, self.g(base, *a), self.g(base, *b))?; set!(*d, v); }
          Ins::FCmp { p, w, d, a, b } => { let v = self.fcmp(*p, *w, self.g(base, *a), self.g(base, *b))?; set!(*d, v); }
          Ins::FCast { op, w0, w, d, a } => { let v = self.fcast(*op, *w0, *w, self.g(base, *a))?; set!(*d, v); }
          Ins::Sel { w, d, c, a, b } => {
            let (cv, x, y) = (self.g(base, *c), self.g(base, *a), self.g(base, *b));
            let v = if cv.e == 0 { if cv.c & 1 == 1 { x } else { y } } else { self.d.ite(*w, cv, x, y) };
            set!(*d, v);
          }
          Ins::Copy { d, a, n } => for k in 0..*n { let v = self.g(base, *a + k); set!(*d + k, v); },
          Ins::ZExt { w, d, a } => { let x = self.g(base, *a); let v = self.d.zext(x, *w); set!(*d, v); }
          Ins::SExt { w0, w, d, a } => { let x = self.g(base, *a); let v = self.d.sext(x, *w0, *w); set!(*d, v); }
          Ins::Trunc { w, d, a } => { let x = self.g(base, *a); let v = self.d.extract(x, 0, *w); set!(*d, v); }
          Ins::Recast { d, a, w0, n0, w, n } => {
            let src: Vec<Val> = (0..*n0).map(|k| self.g(base, *a + k)).collect();
            let out = self.recast(&src, *w0, *w, *n)?;
            for (k, v) in out.into_iter().enumerate() { set!(*d + k as u32, v); }
          }
          Ins::Gep { d, base: b, off, idx } => {
            let mut v = self.g(base, *b);
            for (s, w, sc) in idx.iter() {
              let i = self.g(base, *s);
              let i = self.d.sext(i, *w, 64);
              let t = if *sc == 1 { i } else { self.d.bin(Op::Mul, 64, i, Val::k(*sc as u128)) };
              v = self.d.bin(Op::Add, 64, v, t);
            }
            if *off != 0 { v = self.d.bin(Op::Add, 64, v, Val::k(*off as u128)); }
            set!(*d, v);
          }
          Ins::Load { addr, parts } => {
            let a = self.g(base, *addr);
            sync!();
            for (d, o, w) in parts.iter() {
              let v = if a.e == 0 { self.load((a.c as u64).wrapping_add(*o), *w)? } else { self.load_sym(a, *o, *w)? };
              set!(*d, v);
            }
          }
          Ins::Store { addr, parts } => {
            let a = self.g(base, *addr);
            sync!();
            let a = self.concretise(a, 64)? as u64;
            for (s, o, w) in parts.iter() {
              let v = self.g(base, *s);
              let p = a.wrapping_add(*o);
              self.wr_check(p, w.div_ceil(8) as u64)?;
              self.wr(p, v, *w);
            }
          }
          Ins::Alloca { d, size, count, cw, align } => {
            sync!();
            let c = self.g(base, *count);
            let c = self.concretise(c, *cw)? as u64;
            let n = size * c;
            let a = (self.sp + 16).div_ceil(*align) * *align;
            self.sp = a + n;
            self.sp_max = self.sp_max.max(self.sp);
            let o = (a - STACK_BASE) as usize;
            if o + n as usize > STACK_SIZE { return viol(format!("stack overflow in {}", self.wher())); }
            if o + n as usize > self.stack.data.len() { let l = (2 * (o + n as usize)).min(STACK_SIZE); self.stack.grow(l); }
            self.stack.state[o..o + n as usize].fill(1);
            self.sobjs.push((a, n));
            set!(*d, Val::k(a as u128));
          }
          Ins::Br { e } => jump!(*e),
          Ins::CondBr { c, t, f } => {
            let v = self.g(base, *c);
            let b = if v.e == 0 { v.c & 1 == 1 } else { sync!(); self.decide(v)? };
            if b { jump!(*t) } else { jump!(*f) }
          }
          Ins::Switch { v, w, cases, def } => {
            let x = self.g(base, *v);
            let e = cases.iter().find(|c| c.0 == x.c).map_or(*def, |c| c.1);
            if x.e != 0 { sync!(); self.switch(x, *w, cases, *def, e)?; }
            jump!(e)
          }
          Ins::Ret { a, n } => {
            let fr = self.frames.pop().unwrap();
            let o = (fr.sp - STACK_BASE) as usize;
            let e = ((self.sp - STACK_BASE) as usize).min(self.stack.state.len());
            if e > o { self.stack.state[o..e].fill(2); }
            self.sp = fr.sp;
            self.sobjs.truncate(fr.nobj);
            let Some(caller) = self.frames.last() else { return Ok(()); };
            let (cb, cfn) = (caller.base, caller.func);
            for k in 0..*n { let v = self.g(base, *a + k); self.regs[cb + (fr.ret_d + k) as usize] = v; }
            self.regs.truncate(base);
            if fr.next != u32::MAX {
              let cf = &prog.funcs[cfn as usize];
              let ed = &cf.edges[fr.next as usize];
              self.visited[ed.block as usize] = 1;
              self.frames.last_mut().unwrap().pc = ed.pc;
              let b: Vec<Val> = ed.copies.iter().map(|c| self.g(cb, c.1)).collect();
              for (c, v) in ed.copies.iter().zip(b) { self.regs[cb + c.0 as usize] = v; }
            }
            continue 'frame;
          }
          Ins::Call { f, args, d, next } => { sync!(); self.call(*f, args, *d, *next, base)?; continue 'frame; }
          Ins::CallInd { f, args, d, next } => {
            sync!();
            let v = self.g(base, *f);
            let a = self.concretise(v, 64)? as u64;
            let i = a.wrapping_sub(FN_BASE) / 16;
            if a < FN_BASE || a % 16 != 0 || i as usize >= prog.funcs.len() { return viol(format!("call through a bad pointer {a:#x} in {}", self.wher())); }
            let cf = &prog.funcs[i as usize];
            if !cf.defined {
              let Some(x) = crate::ir::ext(&cf.name) else { return eng(format!("external function {}", cf.name)); };
              let a: Vec<Val> = args.iter().map(|s| self.g(base, *s)).collect();
              let v = self.ext(x, &a, 64, &cf.name)?;
              set!(*d, v);
              if *next != u32::MAX { jump!(*next) }
              continue;
            }
            self.call(i as u32, args, *d, *next, base)?;
            continue 'frame;
          }
          Ins::CallExt { x, args, d, rw, next, name } => {
            sync!();
            let mut a = [Val::k(0); 8];
            for (i, s) in args.iter().enumerate().take(8) { a[i] = self.g(base, *s); }
            let v = self.ext(*x, &a[..args.len().min(8)], *rw, name)?;
            if *rw > 0 { set!(*d, v); }
            if *next != u32::MAX { jump!(*next) }
          }
          Ins::Panic { name } => { sync!(); return viol(format!("panic ({}) in {}", demangle(name), self.wher())); }
          Ins::In1 { i, w, d, a } => { let x = self.g(base, *a); let v = self.in1(*i, *w, x); set!(*d, v); }
          Ins::In2 { i, w, rw, d, a, b } => { let v = self.in2(*i, *w, *rw, self.g(base, *a), self.g(base, *b)); set!(*d, v); }
          Ins::Ovf { i, w, d, a, b } => {
            let (v, o) = self.ovf(*i, *w, self.g(base, *a), self.g(base, *b));
            set!(*d, v); set!(*d + 1, o);
          }
          Ins::Fsh { left, w, d, a, b, s } => {
            let (x, y, s) = (self.g(base, *a), self.g(base, *b), self.g(base, *s));
            let w = *w;
            let sh = self.d.bin(Op::URem, w, s, Val::k(w as u128));
            let inv = self.d.bin(Op::Sub, w, Val::k(w as u128), sh);
            let (l, r) = if *left { (sh, inv) } else { (inv, sh) };
            let p = self.d.bin(Op::Shl, w, x, l);
            let q = self.d.bin(Op::LShr, w, y, r);
            let v = self.d.bin(Op::Or, w, p, q);
            // a zero shift by the width: shl/lshr by `w` gives zero, which is what is wanted
            set!(*d, v);
          }
          Ins::Reduce { op, w, d, a, n } => {
            let mut v = self.g(base, *a);
            for k in 1..*n { let x = self.g(base, *a + k); v = self.d.bin(*op, *w, v, x); }
            set!(*d, v);
          }
          Ins::ReduceMm { i, w, d, a, n } => {
            let mut v = self.g(base, *a);
            for k in 1..*n { let x = self.g(base, *a + k); v = self.in2(*i, *w, *w, v, x); }
            set!(*d, v);
          }
          Ins::MemCpy { dst, src, len, lw } => {
            sync!();
            let (a, b, n) = (self.g(base, *dst), self.g(base, *src), self.g(base, *len));
            let n = self.concretise(n, *lw)? as u64;
            let a = self.concretise(a, 64)? as u64;
            let b = self.concretise(b, 64)? as u64;
            self.memcpy(a, b, n)?;
          }
          Ins::MemSet { dst, val, len, lw } => {
            sync!();
            let (a, v, n) = (self.g(base, *dst), self.g(base, *val), self.g(base, *len));
            let n = self.concretise(n, *lw)? as u64;
            let a = self.concretise(a, 64)? as u64;
            self.memset(a, v, n)?;
          }
          Ins::Rmw { op, w, d, addr, v } => {
            sync!();
            let (a, x) = (self.g(base, *addr), self.g(base, *v));
            let a = self.concretise(a, 64)? as u64;
            let old = self.load(a, *w)?;
            let new = match op {
              0 => x,
              1 => self.d.bin(Op::Add, *w, old, x),
              2 => self.d.bin(Op::Sub, *w, old, x),
              3 => self.d.bin(Op::And, *w, old, x),
              5 => self.d.bin(Op::Or, *w, old, x),
              6 => self.d.bin(Op::Xor, *w, old, x),
              7 => self.in2(In2::Smax, *w, *w, old, x), 8 => self.in2(In2::Smin, *w, *w, old, x),
              9 => self.in2(In2::Umax, *w, *w, old, x), 10 => self.in2(In2::Umin, *w, *w, old, x),
              k => return eng(format!("atomicrmw {k}")),
            };
            self.wr_check(a, w.div_ceil(8) as u64)?;
            self.wr(a, new, *w);
            set!(*d, old);
          }
          Ins::CmpXchg { w, d, addr, cmp, new } => {
            sync!();
            let (a, c, x) = (self.g(base, *addr), self.g(base, *cmp), self.g(base, *new));
            let a = self.concretise(a, 64)? as u64;
            let old = self.load(a, *w)?;
            let eq = self.d.bin(Op::Eq, *w, old, c);
            let nv = self.d.ite(*w, eq, x, old);
            self.wr_check(a, w.div_ceil(8) as u64)?;
            self.wr(a, nv, *w);
            set!(*d, old); set!(*d + 1, eq);
          }
          Ins::ExtractDyn { d, a, k, n, i, iw } => {
            sync!();
            let iv = self.g(base, *i);
            let ix = self.concretise(iv, *iw)? as u32;
            if ix >= *n { return eng("vector index"); }
            for j in 0..*k { let v = self.g(base, *a + ix * k + j); set!(*d + j, v); }
          }
          Ins::InsertDyn { d, a, k, n, v, i, iw } => {
            sync!();
            let iv = self.g(base, *i);
            let ix = self.concretise(iv, *iw)? as u32;
            if ix >= *n { return eng("vector index"); }
            for j in 0..*n * k { let x = self.g(base, *a + j); set!(*d + j, x); }
            for j in 0..*k { let x = self.g(base, *v + j); set!(*d + ix * k + j, x); }
          }
          Ins::LoadRel { d, a, o } => {
            sync!();
            let (a, o) = (self.g(base, *a), self.g(base, *o));
            let p = self.d.bin(Op::Add, 64, a, o);
            let v = self.load_sym(p, 0, 32)?;
            let v = self.d.sext(v, 32, 64);
            let v = self.d.bin(Op::Add, 64, a, v);
            set!(*d, v);
          }
          Ins::Cpuid { d } => for k in 0..4 { set!(*d + k, Val::k(0)); },
          Ins::Unreachable => { sync!(); return eng(format!("unreachable executed in {}", self.wher())); }
          Ins::Unsupported { msg } => { sync!(); return eng(format!("unsupported: {msg} in {}", self.wher())); }
          Ins::Nop => {}
        }
      }
    }
  }

  fn call(&mut self, f: u32, args: &[u32], d: u32, next: u32, base: usize) -> R<()> {
    let cf = &self.p.funcs[f as usize];
    if !cf.defined { return eng(format!("call of undefined {}", cf.name)); }
    if self.frames.len() > self.lim.depth { return viol(format!("call depth over {} in {}", self.lim.depth, self.wher())); }
    let nb = self.regs.len();
    self.regs.resize(nb + cf.nslots as usize, Val::k(0));
    for (k, s) in args.iter().enumerate().take(cf.nparams as usize) { let v = self.g(base, *s); self.regs[nb + k] = v; }
    self.visited[cf.block0 as usize] = 1;
    let (sp, nobj) = (self.sp, self.sobjs.len());
    self.frames.push(Frame { func: f, pc: 0, base: nb, sp, ret_d: d, next, nobj });
    Ok(())
  }

  fn switch(&mut self, x: Val, w: u32, cases: &[(u128, u32)], def: u32, taken: u32) -> R<()> {
    // condition of each destination edge
    let cond = |s: &mut Self, e: u32| -> u32 {
      let mut c = s.d.konst((e == def) as u128, 1);
      for &(k, ce) in cases {
        let kk = s.d.konst(k, w);
        let q = s.d.bin_e(Op::Eq, w, x.e, kk);
        if e == def { let n = s.d.not(q); c = s.d.bin_e(Op::And, 1, c, n); }
        else if ce == e { c = s.d.bin_e(Op::Or, 1, c, q); }
      }
      c
    };
    let lit = cond(self, taken);
    if self.d.as_const(lit) == Some(1) || self.pcset.contains_key(&lit) { return Ok(()); }
    let h0 = self.hash;
    self.t.decisions += 1;
    let fresh = self.next_pos(taken as u64 ^ 0xaaaa)?;
    if fresh {
      let mut dests: Vec<u32> = cases.iter().map(|c| c.1).chain([def]).collect();
      dests.sort_unstable();
      dests.dedup();
      let mut any = false;
      for e in dests {
        if e == taken { continue; }
        let c = cond(self, e);
        match self.ask(c) {
          Sat::Sat(m) => { any = true; let h = mix(h0, e as u64 ^ 0xaaaa); self.spawn(&m, h); }
          Sat::Unsat => {}
          Sat::Unknown => any = true,
        }
      }
      if !any { let p = self.pos; self.set_implied(p); }
      self.prof_hit();
    }
    if self.is_implied(self.pos) { self.pcset.insert(lit, ()); } else { self.learn(lit); }
    Ok(())
  }

  fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
    let (op, a, b, neg) = match p {
      Pred::Eq => (Op::Eq, a, b, false), Pred::Ne => (Op::Eq, a, b, true),
      Pred::Ult => (Op::Ult, a, b, false), Pred::Ule => (Op::Ule, a, b, false),
      Pred::Ugt => (Op::Ult, b, a, false), Pred::Uge => (Op::Ule, b, a, false),
      Pred::Slt => (Op::Slt, a, b, false), Pred::Sle => (Op::Sle, a, b, false),
      Pred::Sgt => (Op::Slt, b, a, false), Pred::Sge => (Op::Sle, b, a, false),
    };
    if a.e == 0 && b.e == 0 { return Val::k(eval_bin(op, w, a.c, b.c) ^ neg as u128); }
    let v = self.d.bin(op, w, a, b);
    if neg { self.d.bin(Op::Xor, 1, v, Val::k(1)) } else { v }
  }
  fn recast(&mut self, src: &[Val], w0: u32, w: u32, n: u32) -> R<Vec<Val>> {
    let mut out = Vec::with_capacity(n as usize);
    for k in 0..n {
      // bits [k*w, k*w+w)
      let (lo, hi) = (k * w, k * w + w);
      let mut acc: Option<(Val, u32)> = None;
      let mut b = lo;
      while b < hi {
        let lane = b / w0;
        let o = b % w0;
        let take = (w0 - o).min(hi - b);
        let Some(&s) = src.get(lane as usize) else { return eng("recast"); };
        let x = if take == w0 { s } else { self.d.extract(s, o, take) };
        acc = Some(match acc { None => (x, take), Some((l, wl)) => (self.d.concat(x, take, l, wl), take + wl) });
        b += take;
      }
      out.push(acc.unwrap().0);
    }
    Ok(out)
  }
  fn in1(&mut self, i: In1, w: u32, x: Val) -> Val {
    if x.e == 0 {
      let c = x.c;
      return Val::k(match i {
        In1::Ctlz => (c.leading_zeros() - (128 - w)) as u128,
        In1::Cttz => if c == 0 { w as u128 } else { c.trailing_zeros() as u128 },
        In1::Ctpop => c.count_ones() as u128,
        In1::Bswap => c.swap_bytes() >> (128 - w),
        In1::Bitrev => c.reverse_bits() >> (128 - w),
        In1::Abs => (sext(c, w).wrapping_abs() as u128) & mask(w),
      });
    }
    let d = &mut self.d;
    match i {
      In1::Ctlz | In1::Cttz => {
        let mut v = Val::k(w as u128);
        for k in 0..w {
          // the last test made wins: highest bit for ctlz, lowest for cttz
          let bit = if i == In1::Ctlz { k } else { w - 1 - k };
          let b = d.extract(x, bit, 1);
          let r = if i == In1::Ctlz { w - 1 - bit } else { bit };
          v = d.ite(w, b, Val::k(r as u128), v);
        }
        v
      }
      In1::Ctpop => {
        let mut v = Val::k(0);
        for k in 0..w { let b = d.extract(x, k, 1); let z = d.zext(b, w); v = d.bin(Op::Add, w, v, z); }
        v
      }
      In1::Bswap => {
        let n = w / 8;
        let mut v = d.extract(x, 0, 8);
        for k in 1..n { let b = d.extract(x, 8 * k, 8); v = d.concat(v, 8 * k, b, 8); }
        v
      }
      In1::Bitrev => {
        let mut v = d.extract(x, 0, 1);
        for k in 1..w { let b = d.extract(x, k, 1); v = d.concat(v, k, b, 1); }
        v
      }
      In1::Abs => {
        let neg = d.bin(Op::Slt, w, x, Val::k(0));
        let m = d.bin(Op::Sub, w, Val::k(0), x);
        d.ite(w, neg, m, x)
      }
    }
  }
  fn in2(&mut self, i: In2, w: u32, rw: u32, a: Val, b: Val) -> Val {
    let d = &mut self.d;
    match i {
      In2::Umax => { let c = d.bin(Op::Ult, w, a, b); d.ite(w, c, b, a) }
      In2::Umin => { let c = d.bin(Op::Ult, w, a, b); d.ite(w, c, a, b) }
      In2::Smax => { let c = d.bin(Op::Slt, w, a, b); d.ite(w, c, b, a) }
      In2::Smin => { let c = d.bin(Op::Slt, w, a, b); d.ite(w, c, a, b) }
      In2::UaddSat => { let s = d.bin(Op::Add, w, a, b); let o = d.bin(Op::Ult, w, s, a); d.ite(w, o, Val::k(mask(w)), s) }
      In2::UsubSat => { let s = d.bin(Op::Sub, w, a, b); let o = d.bin(Op::Ult, w, a, b); d.ite(w, o, Val::k(0), s) }
      In2::SaddSat | In2::SsubSat => {
        let (x, y) = (d.sext(a, w, w + 1), d.sext(b, w, w + 1));
        let s = d.bin(if i == In2::SaddSat { Op::Add } else { Op::Sub }, w + 1, x, y);
        let (mx, mn) = (mask(w) >> 1, (mask(w + 1) ^ (mask(w) >> 1)));
        let hi = d.bin(Op::Slt, w + 1, Val::k(mx), s);
        let lo = d.bin(Op::Slt, w + 1, s, Val::k(mn));
        let t = d.extract(s, 0, w);
        let t = d.ite(w, hi, Val::k(mx), t);
        d.ite(w, lo, Val::k((mask(w) >> 1) + 1), t)
      }
      In2::Ucmp | In2::Scmp => {
        let op = if i == In2::Ucmp { Op::Ult } else { Op::Slt };
        let lt = d.bin(op, w, a, b);
        let gt = d.bin(op, w, b, a);
        let z = d.ite(rw, gt, Val::k(1), Val::k(0));
        d.ite(rw, lt, Val::k(mask(rw)), z)
      }
    }
  }
  fn ovf(&mut self, i: Ov, w: u32, a: Val, b: Val) -> (Val, Val) {
    let d = &mut self.d;
    match i {
      Ov::Uadd => { let s = d.bin(Op::Add, w, a, b); let o = d.bin(Op::Ult, w, s, a); (s, o) }
      Ov::Usub => { let s = d.bin(Op::Sub, w, a, b); let o = d.bin(Op::Ult, w, a, b); (s, o) }
      Ov::Sadd | Ov::Ssub | Ov::Umul | Ov::Smul => {
        let w2 = match i { Ov::Sadd | Ov::Ssub => w + 1, _ => 2 * w };
        if w2 > 128 {
          if a.e == 0 && b.e == 0 && i == Ov::Umul { let (r, o) = a.c.overflowing_mul(b.c); return (Val::k(r & mask(w)), Val::k((o || r > mask(w)) as u128)); }
          let r = d.bin(Op::Mul, w, a, b);
          // b != 0 && r / b != a
          let q = d.bin(Op::UDiv, w, r, b);
          let ne = d.bin(Op::Eq, w, q, a);
          let ne = d.bin(Op::Xor, 1, ne, Val::k(1));
          let z = d.bin(Op::Eq, w, b, Val::k(0));
          let nz = d.bin(Op::Xor, 1, z, Val::k(1));
          let o = d.bin(Op::And, 1, nz, ne);
          return (r, o);
        }
        let sg = i != Ov::Umul;
        let (x, y) = if sg { (d.sext(a, w, w2), d.sext(b, w, w2)) } else { (d.zext(a, w2), d.zext(b, w2)) };
        let op = match i { Ov::Sadd => Op::Add, Ov::Ssub => Op::Sub, _ => Op::Mul };
        let s = d.bin(op, w2, x, y);
        let r = d.extract(s, 0, w);
        let back = if sg { d.sext(r, w, w2) } else { d.zext(r, w2) };
        let eq = d.bin(Op::Eq, w2, back, s);
        let o = d.bin(Op::Xor, 1, eq, Val::k(1));
        (r, o)
      }
    }
  }
  fn fbin(&mut self, op: i32, w: u32, a: Val, b: Val) -> R<Val> {
    if a.e != 0 || b.e != 0 { return eng(format!("symbolic float in {}", self.wher())); }
    Ok(Val::k(if w == 32 {
      let (x, y) = (f32::from_bits(a.c as u32), f32::from_bits(b.c as u32));
      (match op { L::FADD => x + y, L::FSUB => x - y, L::FMUL => x * y, L::FDIV => x / y, _ => x % y }).to_bits() as u128
    } else {
      let (x, y) = (f64::from_bits(a.c as u64), f64::from_bits(b.c as u64));
      (match op { L::FADD => x + y, L::FSUB => x - y, L::FMUL => x * y, L::FDIV => x / y, _ => x % y }).to_bits() as u128
    }))
  }
  fn fcmp(&mut self, p: i32, w: u32, a: Val, b: Val) -> R<Val> {
    if a.e != 0 || b.e != 0 { return eng(format!("symbolic float in {}", self.wher())); }
    let f = |c: u128| if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
    let (x, y) = (f(a.c), f(b.c));
    let bits = p as u32; // oeq=1 ogt=2 olt=4 uno=8
    let m = match x.partial_cmp(&y) { Some(std::cmp::Ordering::Equal) => 1, Some(std::cmp::Ordering::Greater) => 2, Some(std::cmp::Ordering::Less) => 4, None => 8 };
    Ok(Val::k((bits & m != 0) as u128))
  }
  fn fcast(&mut self, op: i32, w0: u32, w: u32, a: Val) -> R<Val> {
    if a.e != 0 { return eng(format!("symbolic float in {}", self.wher())); }
    let f = |c: u128| if w0 == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
    Ok(Val::k(match op {
      L::FPTOUI => (f(a.c) as u128) & mask(w),
      L::FPTOSI => (f(a.c) as i128 as u128) & mask(w),
      L::UITOFP => if w == 32 { (a.c as f32).to_bits() as u128 } else { (a.c as f64).to_bits() as u128 },
      L::SITOFP => { let x = sext(a.c, w0); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
      L::FPTRUNC => (f64::from_bits(a.c as u64) as f32).to_bits() as u128,
      _ => (f32::from_bits(a.c as u32) as f64).to_bits() as u128,
    }))
  }

  fn cstr(&mut self, p: Val, n: Val) -> R<String> {
    let n = self.concretise(n, 64)? as u64;
    let p = self.concretise(p, 64)? as u64;
    let b = self.bytes(p, n)?;
    Ok(String::from_utf8_lossy(&b).into_owned())
  }
  fn new_input(&mut self, w: u32) -> Val {
    let k = self.inputs.len();
    let c = self.init.get(k).copied().unwrap_or(0) & mask(w);
    self.inputs.push((w, c));
    let e = self.d.var(k as u32, w);
    Val { c, e }
  }

  fn ext(&mut self, x: Ext, a: &[Val], rw: u32, name: &str) -> R<Val> {
    match x {
      Ext::Input => {
        let w = a[0].c as u32;
        if a[0].e != 0 || w == 0 || w > 64 { return eng("sym_input width"); }
        let v = self.new_input(w);
        Ok(self.d.zext(v, 64))
      }
      Ext::Assume => {
        let c = self.d.extract(a[0], 0, 1);
        if c.e == 0 {
          if c.c == 1 { return Ok(c); }
          if self.pos < self.prefix { return eng("assumption false inside a prefix"); }
          return Err(End::Dead);
        }
        if self.pcset.contains_key(&c.e) { return Ok(c); }
        if c.c == 1 { self.learn(c.e); return Ok(c); }
        if self.pos < self.prefix { return eng("assumption false inside a prefix"); }
        if let Sat::Sat(m) = self.ask(c.e) { let h = self.hash; self.spawn(&m, h); }
        Err(End::Dead)
      }
      Ext::Assert => {
        let c = self.d.extract(a[0], 0, 1);
        if let Some(p) = &self.prop {
          let p = p.clone();
          let key = (a[1].c as u64, a[2].c as u64);
          let mine = match self.mine.get(&key) {
            Some(&b) if a[1].e == 0 && a[2].e == 0 => b,
            _ => {
              let m = self.cstr(a[1], a[2])?;
              let b = m.split_once('|').is_none_or(|(ids, _)| ids.split(',').any(|x| x == p));
              self.mine.insert(key, b);
              b
            }
          };
          if !mine { return Ok(c); }
        }
        let seen = self.pos < self.prefix;
        if !seen { self.t.asserts += 1; }
        if c.c == 0 {
          let m = self.cstr(a[1], a[2])?;
          return viol(format!("assertion: {m}"));
        }
        if c.e == 0 || self.pcset.contains_key(&c.e) { return Ok(c); }
        if !seen {
          self.t.asserts_sym += 1;
          self.s.stats.asserts += 1;
          let n = self.d.not(c.e);
          match self.ask(n) {
            // run the other side as its own path: it ends in the concrete violation above
            Sat::Sat(m) => {
              let h = self.hash;
              self.spawn(&m, h);
              self.spawned.last_mut().unwrap().depth = 0;
              self.learn(c.e);
            }
            Sat::Unsat => {}
            Sat::Unknown => {}
          }
        }
        self.pcset.insert(c.e, ());
        Ok(c)
      }
      Ext::Cover => {
        let m = self.cstr(a[0], a[1])?;
        let h = m.bytes().fold(0u64, |h, b| mix(h, b as u64));
        if self.pos >= self.prefix { self.covers.entry(h).or_insert((m, 0)).1 += 1; }
        Ok(Val::k(0))
      }
      Ext::Concretize => { let c = self.concretise(a[0], 64)?; Ok(Val::k(c)) }
      Ext::Trace => {
        self.trace.push(a[0].c);
        if self.selfcheck && a[0].e != 0 {
          let inp: Vec<u128> = self.inputs.iter().map(|x| x.1).collect();
          if eval(&self.d, a[0].e, &inp) != a[0].c { return eng("self check: a traced expression differs from its concrete value"); }
        }
        Ok(Val::k(0))
      }
      Ext::MayPanic => { self.may_panic = a[0].c & 1 == 1; Ok(Val::k(0)) }
      Ext::Malloc => { let n = self.concretise(a[0], 64)? as u64; Ok(Val::k(self.alloc(n, 16)? as u128)) }
      Ext::Calloc => {
        let n = self.concretise(a[0], 64)? as u64;
        let m = self.concretise(a[1], 64)? as u64;
        Ok(Val::k(self.alloc(n.saturating_mul(m), 16)? as u128))
      }
      Ext::Realloc => {
        let p = self.concretise(a[0], 64)? as u64;
        let n = self.concretise(a[1], 64)? as u64;
        let q = self.alloc(n, 16)?;
        if p != 0 {
          let Ok(i) = self.hobjs.binary_search_by_key(&p, |o| o.0) else { return viol("realloc of a non-heap pointer"); };
          let old = self.hobjs[i].1;
          self.memcpy(q, p, old.min(n))?;
          self.free(p)?;
        }
        Ok(Val::k(q as u128))
      }
      Ext::Free => { let p = self.concretise(a[0], 64)? as u64; self.free(p)?; Ok(Val::k(0)) }
      Ext::PosixMemalign => {
        let p = self.concretise(a[0], 64)? as u64;
        let al = self.concretise(a[1], 64)? as u64;
        let n = self.concretise(a[2], 64)? as u64;
        let q = self.alloc(n, al)?;
        self.wr_check(p, 8)?;
        self.wr(p, Val::k(q as u128), 64);
        Ok(Val::k(0))
      }
      Ext::Memcmp | Ext::Bcmp => {
        let n = self.concretise(a[2], 64)? as u64;
        let p = self.concretise(a[0], 64)? as u64;
        let q = self.concretise(a[1], 64)? as u64;
        self.check(p, n, "read")?;
        self.check(q, n, "read")?;
        let mut r = Val::k(0);
        for i in (0..n).rev() {
          let (x, y) = (self.rd(p + i, 1), self.rd(q + i, 1));
          let eq = self.d.bin(Op::Eq, 8, x, y);
          if name == "bcmp" {
            r = self.d.ite(32, eq, r, Val::k(1));
          } else {
            let (xz, yz) = (self.d.zext(x, 32), self.d.zext(y, 32));
            let df = self.d.bin(Op::Sub, 32, xz, yz);
            r = self.d.ite(32, eq, r, df);
          }
        }
        Ok(r)
      }
      Ext::Strlen => {
        let p = self.concretise(a[0], 64)? as u64;
        let mut n = 0;
        loop {
          self.check(p + n, 1, "read")?;
          let v = self.rd(p + n, 1);
          let z = self.d.bin(Op::Eq, 8, v, Val::k(0));
          if self.decide(z)? { break; }
          n += 1;
        }
        Ok(Val::k(n as u128))
      }
      Ext::Memcpy | Ext::Memmove => {
        let n = self.concretise(a[2], 64)? as u64;
        let p = self.concretise(a[0], 64)? as u64;
        let q = self.concretise(a[1], 64)? as u64;
        self.memcpy(p, q, n)?;
        Ok(a[0])
      }
      Ext::Memset => {
        let n = self.concretise(a[2], 64)? as u64;
        let p = self.concretise(a[0], 64)? as u64;
        let b = self.d.extract(a[1], 0, 8);
        self.memset(p, b, n)?;
        Ok(a[0])
      }
      Ext::Errno => Ok(Val::k(self.p.errno as u128)),
      Ext::Abort => viol(format!("panic (abort) in {}", self.wher())),
      Ext::Getenv => Ok(Val::k(0)),
      Ext::ClockGettime => {
        // an arbitrary non-decreasing clock, within 2^34 seconds
        let p = self.concretise(a[1], 64)? as u64;
        let ds = self.new_input(34);
        let ns = self.new_input(30);
        let ok = self.d.bin(Op::Ult, 30, ns, Val::k(1_000_000_000));
        self.ext(Ext::Assume, &[ok], 0, "")?;
        let s = self.d.zext(ds, 64);
        let n = self.d.zext(ns, 64);
        self.wr_check(p, 16)?;
        self.wr(p, s, 64);
        self.wr(p + 8, n, 64);
        Ok(Val::k(0))
      }
      Ext::Write => {
        let fd = self.concretise(a[0], 32)? as u64;
        let n = self.concretise(a[2], 64)?;
        if fd >= 100 {
          let p = self.concretise(a[1], 64)? as u64;
          let b = self.bytes(p, n as u64)?;
          let i = fd as usize - 100;
          if i < self.vfiles.len() { self.vfiles[i].extend(b); }
        }
        Ok(Val::k(n))
      }
      Ext::Open => { self.vfiles.push(vec![]); Ok(Val::k(99 + self.vfiles.len() as u128)) }
      Ext::Close => Ok(Val::k(0)),
      Ext::Syscall | Ext::Fstat | Ext::Read | Ext::Getcwd | Ext::MinusOne => {
        let e = self.p.errno;
        self.gl_dirty = true;
        self.wr(e, Val::k(38), 32);
        if x == Ext::Getcwd { return Ok(Val::k(0)); }
        Ok(Val::k(mask(rw.max(1))))
      }
      Ext::Zero => Ok(Val::k(0)),
    }
  }
}
pub fn eval(d: &Dag, e: u32, inp: &[u128]) -> u128 {
  fn go(d: &Dag, e: u32, inp: &[u128], memo: &mut FxMap<u32, u128>) -> u128 {
    if let Some(k) = d.as_const(e) { return k; }
    if let Some(&v) = memo.get(&e) { return v; }
    let n = d.nodes[e as usize];
    let w = n.w as u32;
    let r = match n.op {
      Op::Var => inp.get(n.a as usize).copied().unwrap_or(0) & mask(w),
      Op::ZExt => go(d, n.a, inp, memo),
      Op::SExt => (sext(go(d, n.a, inp, memo), d.w(n.a)) as u128) & mask(w),
      Op::Extract => (go(d, n.a, inp, memo) >> n.b) & mask(w),
      Op::Concat => (go(d, n.a, inp, memo) << d.w(n.b)) | go(d, n.b, inp, memo),
      Op::Ite => if go(d, n.a, inp, memo) == 1 { go(d, n.b, inp, memo) } else { go(d, n.c, inp, memo) },
      op => { let (x, y) = (go(d, n.a, inp, memo), go(d, n.b, inp, memo)); eval_bin(op, d.w(n.a), x, y) }
    };
    memo.insert(e, r);
    r
  }
  go(d, e, inp, &mut Default::default())
}

/// Best-effort readable names; exact names are not needed for anything.
pub fn demangle(s: &str) -> String {
  let b = s.as_bytes();
  let mut out: Vec<String> = Vec::new();
  let mut i = 0;
  let st = if s.starts_with("_ZN") { 3 } else if s.starts_with("_R") { 2 } else { return s.into() };
  i += st;
  while i < b.len() {
    if b[i].is_ascii_digit() {
      let mut n = 0usize;
      let j0 = i;
      while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
      if i < b.len() && b[i] == b'_' && s.starts_with("_R") { i += 1; }
      if n > 0 && i + n <= b.len() && i - j0 <= 3 {
        let id = &s[i..i + n];
        if !(id.len() == 17 && id.starts_with('h')) && !id.is_empty() { out.push(id.into()); }
        i += n;
      }
    } else { i += 1; }
  }
  out.join("::")
}
