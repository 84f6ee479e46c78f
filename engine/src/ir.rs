//! Translation of an LLVM module into a compact register program.
use crate::expr::{Op, Val, eval_bin, mask, sext};
use crate::llvm::*;
use std::collections::HashMap;

pub const KBIT: u32 = 1 << 31;
pub const FN_BASE: u64 = 0x1000;
pub const GLOBAL_BASE: u64 = 0x0100_0000;
pub const STACK_BASE: u64 = 0x2000_0000;
pub const HEAP_BASE: u64 = 0x10_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In1 { Ctlz, Cttz, Ctpop, Bswap, Bitrev, Abs }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In2 { Umax, Umin, Smax, Smin, UaddSat, UsubSat, SaddSat, SsubSat, Ucmp, Scmp }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ov { Uadd, Usub, Umul, Sadd, Ssub, Smul }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
  Input, Assume, Assert, Cover, Concretize, Trace, MayPanic,
  Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Memcpy, Memmove, Memset,
  Errno, Abort, Getenv, ClockGettime, Syscall, Write, Open, Close, Fstat, Read, Getcwd, Zero, MinusOne,
}

#[derive(Debug)]
pub enum Ins {
  Bin { op: Op, w: u32, d: u32, a: u32, b: u32 },
  ICmp { p: Pred, w: u32, d: u32, a: u32, b: u32 },
  FBin { op: u8, w: u32, d: u32, a: u32, b: u32 },
  FCmp { p: i32, w: u32, d: u32, a: u32, b: u32 },
  FCast { op: i32, w0: u32, w: u32, d: u32, a: u32 },
  Sel { w: u32, d: u32, c: u32, a: u32, b: u32 },
  Copy { d: u32, a: u32, n: u32 },
  ZExt { w: u32, d: u32, a: u32 },
  SExt { w0: u32, w: u32, d: u32, a: u32 },
  Trunc { w: u32, d: u32, a: u32 },
  /// lanes of width `w0` to lanes of width `w`, little endian
  Recast { d: u32, a: u32, w0: u32, n0: u32, w: u32, n: u32 },
  Gep { d: u32, base: u32, off: u64, idx: Box<[(u32, u32, u64)]> },
  Load { addr: u32, parts: Box<[(u32, u64, u32)]> },
  Store { addr: u32, parts: Box<[(u32, u64, u32)]> },
  Alloca { d: u32, size: u64, count: u32, cw: u32, align: u64 },
  Br { e: u32 },
  CondBr { c: u32, t: u32, f: u32 },
  Switch { v: u32, w: u32, cases: Box<[(u128, u32)]>, def: u32 },
  Ret { a: u32, n: u32 },
  Call { f: u32, args: Box<[u32]>, d: u32, next: u32 },
  CallInd { f: u32, args: Box<[u32]>, d: u32, next: u32 },
  CallExt { x: Ext, args: Box<[u32]>, d: u32, rw: u32, next: u32, name: Box<str> },
  Panic { name: Box<str> },
  In1 { i: In1, w: u32, d: u32, a: u32 },
  In2 { i: In2, w: u32, rw: u32, d: u32, a: u32, b: u32 },
  Ovf { i: Ov, w: u32, d: u32, a: u32, b: u32 },
  Fsh { left: bool, w: u32, d: u32, a: u32, b: u32, s: u32 },
  Reduce { op: Op, w: u32, d: u32, a: u32, n: u32 },
  ReduceMm { i: In2, w: u32, d: u32, a: u32, n: u32 },
  MemCpy { dst: u32, src: u32, len: u32, lw: u32 },
  MemSet { dst: u32, val: u32, len: u32, lw: u32 },
  Rmw { op: i32, w: u32, d: u32, addr: u32, v: u32 },
  CmpXchg { w: u32, d: u32, addr: u32, cmp: u32, new: u32 },
  ExtractDyn { d: u32, a: u32, k: u32, n: u32, i: u32, iw: u32 },
  InsertDyn { d: u32, a: u32, k: u32, n: u32, v: u32, i: u32, iw: u32 },
  LoadRel { d: u32, a: u32, o: u32 },
  Cpuid { d: u32 },
  Unreachable,
  Unsupported { msg: Box<str> },
  Nop,
}

pub struct Edge { pub pc: u32, pub block: u32, pub copies: Box<[(u32, u32)]> }

pub struct Func {
  pub name: String,
  pub nslots: u32,
  pub nparams: u32,
  pub code: Vec<Ins>,
  pub locs: Vec<u32>,
  pub edges: Vec<Edge>,
  pub block0: u32,
  pub defined: bool,
}

pub struct Prog {
  pub funcs: Vec<Func>,
  pub by_name: HashMap<String, u32>,
  pub consts: Vec<Val>,
  pub gdata: Vec<u8>,
  pub gstate: Vec<u8>,
  pub gwritable: usize,
  /// sorted (base, size)
  pub gobjs: Vec<(u64, u64)>,
  pub nblocks: u32,
  /// per global block: indices into `lines`
  pub block_lines: Vec<Vec<u32>>,
  pub lines: Vec<(String, u32)>,
  /// source positions of instructions, for reports
  pub dbg: Vec<String>,
  pub errno: u64,
}

pub struct Tr {
  td: TD,
  fidx: HashMap<Value, u32>,
  gaddr: HashMap<Value, u64>,
  aliases: HashMap<Value, Value>,
  p: Prog,
  kcache: HashMap<Value, u32>,
  line_ids: HashMap<(String, u32), u32>,
  dbg_ids: HashMap<String, u32>,
  filter: String,
}

fn ty(v: Value) -> Type { unsafe { LLVMTypeOf(v) } }
fn kind(t: Type) -> i32 { unsafe { LLVMGetTypeKind(t) } }
fn opnd(v: Value, i: u32) -> Value { unsafe { LLVMGetOperand(v, i) } }

struct FCtx { slot: HashMap<Value, u32>, blocks: HashMap<Block, u32>, next: u32 }

impl Tr {
  fn size(&self, t: Type) -> u64 { unsafe { LLVMABISizeOfType(self.td, t) } }
  /// Flattens a type to scalar parts (offset, width).
  fn flat(&self, t: Type, off: u64, out: &mut Vec<(u64, u32)>) {
    unsafe {
      match kind(t) {
        0 | 14 | 7 | 16 => {}
        2 => out.push((off, 32)),
        3 => out.push((off, 64)),
        4 | 5 => out.push((off, 128)),
        8 => out.push((off, LLVMGetIntTypeWidth(t))),
        12 => out.push((off, 64)),
        10 => for i in 0..LLVMCountStructElementTypes(t) {
          self.flat(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(self.td, t, i), out);
        },
        11 => {
          let e = LLVMGetElementType(t);
          let s = self.size(e);
          for i in 0..LLVMGetArrayLength2(t) { self.flat(e, off + i * s, out); }
        }
        13 => {
          let e = LLVMGetElementType(t);
          let s = LLVMStoreSizeOfType(self.td, e);
          for i in 0..LLVMGetVectorSize(t) as u64 { self.flat(e, off + i * s, out); }
        }
        k => panic!("type kind {k}: {}", print_ty(t)),
      }
    }
  }
  fn parts(&self, t: Type) -> Vec<(u64, u32)> { let mut o = Vec::new(); self.flat(t, 0, &mut o); o }
  fn nslots(&self, t: Type) -> u32 { self.parts(t).len() as u32 }
  fn scalar_w(&self, t: Type) -> u32 { let p = self.parts(t); p.first().map_or(0, |x| x.1) }
  fn is_bitvec(&self, t: Type) -> bool { kind(t) == 13 && self.scalar_w(t) % 8 != 0 }

  fn int_const(&self, v: Value) -> u128 {
    let w = unsafe { LLVMGetIntTypeWidth(ty(v)) };
    if w <= 64 { return unsafe { LLVMConstIntGetZExtValue(v) } as u128; }
    let s = print(v);
    let n = s.rsplit(' ').next().unwrap();
    if let Some(x) = n.strip_prefix('-') { (x.parse::<u128>().unwrap()).wrapping_neg() & mask(w) } else { n.parse::<u128>().unwrap() & mask(w) }
  }

  /// Evaluates a constant to flattened scalar values.
  fn konst(&self, v: Value, out: &mut Vec<u128>) -> Result<(), String> {
    unsafe {
      match LLVMGetValueKind(v) {
        5 => out.push(FN_BASE as u128 + 16 * self.fidx[&v] as u128),
        6 => { let a = self.aliases[&v]; return self.konst(a, out); }
        8 => out.push(self.gaddr[&v] as u128),
        18 => out.push(self.int_const(v)),
        20 => {
          let mut l = 0;
          let d = LLVMConstRealGetDouble(v, &mut l);
          if kind(ty(v)) == 2 { out.push((d as f32).to_bits() as u128) } else { out.push(d.to_bits() as u128) }
        }
        21 => out.push(0),
        14 | 26 | 15 => { for _ in 0..self.nslots(ty(v)) { out.push(0); } }
        11 | 12 | 13 | 16 | 17 => {
          let t = ty(v);
          let n = match kind(t) {
            10 => LLVMCountStructElementTypes(t) as u64,
            11 => LLVMGetArrayLength2(t),
            _ => LLVMGetVectorSize(t) as u64,
          };
          for i in 0..n { self.konst(LLVMGetAggregateElement(v, i as u32), out)?; }
        }
        10 => {
          let op = LLVMGetConstOpcode(v);
          match op {
            GEP => {
              let (off, idx) = self.gep_parts(v);
              let mut b = Vec::new();
              self.konst(opnd(v, 0), &mut b)?;
              let mut a = b[0].wrapping_add(off as u128);
              for (iv, w, sc) in idx {
                let mut k = Vec::new();
                self.konst(iv, &mut k)?;
                a = a.wrapping_add((sext(k[0], w) as u128).wrapping_mul(sc as u128));
              }
              out.push(a & mask(64));
            }
            INTTOPTR | PTRTOINT | BITCAST | TRUNC | ZEXT | ADDRSPACECAST => {
              let mut k = Vec::new();
              self.konst(opnd(v, 0), &mut k)?;
              if k.len() != 1 { return Err(format!("const cast {}", print(v))); }
              out.push(k[0] & mask(self.scalar_w(ty(v))));
            }
            ADD | SUB | MUL | AND | OR | XOR | SHL | LSHR | ASHR => {
              let (mut a, mut b) = (Vec::new(), Vec::new());
              self.konst(opnd(v, 0), &mut a)?;
              self.konst(opnd(v, 1), &mut b)?;
              out.push(eval_bin(binop(op).unwrap(), self.scalar_w(ty(v)), a[0], b[0]));
            }
            _ => return Err(format!("const expr {}", print(v))),
          }
        }
        k => {
          // newer constant kinds: a splat prints as a vector and supports element access
          if kind(ty(v)) == 13 {
            for i in 0..LLVMGetVectorSize(ty(v)) {
              let e = LLVMGetAggregateElement(v, i);
              if e.is_null() { return Err(format!("const kind {k}")); }
              self.konst(e, out)?;
            }
          } else if LLVMIsNull(v) != 0 { for _ in 0..self.nslots(ty(v)) { out.push(0); } } else {
            return Err(format!("const kind {k}: {}", print(v)));
          }
        }
      }
    }
    Ok(())
  }

  fn gep_parts(&self, v: Value) -> (u64, Vec<(Value, u32, u64)>) {
    unsafe {
      let n = LLVMGetNumOperands(v) as u32;
      let mut t = LLVMGetGEPSourceElementType(v);
      let mut off = 0u64;
      let mut idx = Vec::new();
      for i in 1..n {
        let iv = opnd(v, i);
        let is_k = LLVMGetValueKind(iv) == 18;
        if i == 1 {
          let s = self.size(t);
          if is_k { off = off.wrapping_add((sext(self.int_const(iv), LLVMGetIntTypeWidth(ty(iv))) as u64).wrapping_mul(s)); }
          else { idx.push((iv, self.scalar_w(ty(iv)), s)); }
          continue;
        }
        match kind(t) {
          10 => {
            let k = LLVMConstIntGetZExtValue(iv) as u32;
            off = off.wrapping_add(LLVMOffsetOfElement(self.td, t, k));
            t = LLVMStructGetTypeAtIndex(t, k);
          }
          _ => {
            t = LLVMGetElementType(t);
            let s = self.size(t);
            if is_k { off = off.wrapping_add((sext(self.int_const(iv), LLVMGetIntTypeWidth(ty(iv))) as u64).wrapping_mul(s)); }
            else { idx.push((iv, self.scalar_w(ty(iv)), s)); }
          }
        }
      }
      (off, idx)
    }
  }

  fn op(&mut self, f: &FCtx, v: Value) -> Result<u32, String> {
    if let Some(&s) = f.slot.get(&v) { return Ok(s); }
    if let Some(&k) = self.kcache.get(&v) { return Ok(k); }
    let mut o = Vec::new();
    self.konst(v, &mut o)?;
    let id = self.p.consts.len() as u32 | KBIT;
    if o.is_empty() { o.push(0); }
    self.p.consts.extend(o.into_iter().map(Val::k));
    self.kcache.insert(v, id);
    Ok(id)
  }
  fn kval(&mut self, c: u128) -> u32 {
    let id = self.p.consts.len() as u32 | KBIT;
    self.p.consts.push(Val::k(c));
    id
  }

  fn write_const(&mut self, v: Value, off: usize) -> Result<(), String> {
    // fast path for the common big byte arrays
    let parts = self.parts(ty(v));
    let mut vals = Vec::new();
    self.konst(v, &mut vals)?;
    for ((o, w), x) in parts.into_iter().zip(vals) {
      let n = w.div_ceil(8) as usize;
      for i in 0..n { self.p.gdata[off + o as usize + i] = (x >> (8 * i)) as u8; }
    }
    Ok(())
  }

  pub fn module(m: Module, filter: &str) -> Result<Prog, String> {
    unsafe {
      let mut t = Tr {
        td: LLVMGetModuleDataLayout(m),
        fidx: HashMap::new(), gaddr: HashMap::new(), aliases: HashMap::new(),
        p: Prog { funcs: vec![], by_name: HashMap::new(), consts: vec![], gdata: vec![], gstate: vec![], gwritable: 0, gobjs: vec![], nblocks: 0, block_lines: vec![], lines: vec![], dbg: vec![String::new()], errno: 0 },
        kcache: HashMap::new(), line_ids: HashMap::new(), dbg_ids: HashMap::new(), filter: filter.to_string(),
      };
      let mut fs = Vec::new();
      let mut f = LLVMGetFirstFunction(m);
      while !f.is_null() {
        let i = fs.len() as u32;
        t.fidx.insert(f, i);
        t.p.by_name.insert(name(f), i);
        fs.push(f);
        f = LLVMGetNextFunction(f);
      }
      let mut a = LLVMGetFirstGlobalAlias(m);
      while !a.is_null() {
        t.aliases.insert(a, LLVMAliasGetAliasee(a));
        t.p.by_name.insert(name(a), u32::MAX);
        a = LLVMGetNextGlobalAlias(a);
      }
      // writable globals first
      let mut gs = Vec::new();
      let mut g = LLVMGetFirstGlobal(m);
      while !g.is_null() { gs.push(g); g = LLVMGetNextGlobal(g); }
      let mut at = 64usize;
      for pass in 0..2 {
        for &g in &gs {
          let is_const = LLVMIsGlobalConstant(g) != 0;
          if is_const != (pass == 1) { continue; }
          let sz = t.size(LLVMGlobalGetValueType(g)) as usize;
          let al = (LLVMGetAlignment(g) as usize).max(LLVMABIAlignmentOfType(t.td, LLVMGlobalGetValueType(g)) as usize).max(1);
          at = at.div_ceil(al) * al;
          t.gaddr.insert(g, GLOBAL_BASE + at as u64);
          t.p.gobjs.push((GLOBAL_BASE + at as u64, sz as u64));
          at += sz.max(1) + 16;
        }
        if pass == 0 {
          at = at.div_ceil(16) * 16;
          t.p.errno = GLOBAL_BASE + at as u64;
          t.p.gobjs.push((t.p.errno, 8));
          at += 32;
          t.p.gwritable = at;
        }
      }
      t.p.gdata = vec![0; at + 64];
      t.p.gstate = vec![0; at + 64];
      for &(b, s) in &t.p.gobjs { let o = (b - GLOBAL_BASE) as usize; for i in 0..s as usize { t.p.gstate[o + i] = 1; } }
      t.p.gobjs.sort_unstable();
      for &g in &gs {
        let init = LLVMGetInitializer(g);
        if init.is_null() { continue; }
        if LLVMIsNull(init) != 0 { continue; }
        let off = (t.gaddr[&g] - GLOBAL_BASE) as usize;
        t.write_const(init, off)?;
      }
      for f in fs {
        let tf = t.func(f)?;
        t.p.funcs.push(tf);
      }
      Ok(t.p)
    }
  }

  fn func(&mut self, f: Value) -> Result<Func, String> {
    unsafe {
      let mut out = Func { name: name(f), nslots: 0, nparams: 0, code: vec![], locs: vec![], edges: vec![], block0: self.p.nblocks, defined: false };
      if LLVMIsDeclaration(f) != 0 { return Ok(out); }
      out.defined = true;
      let mut c = FCtx { slot: HashMap::new(), blocks: HashMap::new(), next: 0 };
      for i in 0..LLVMCountParams(f) {
        let p = LLVMGetParam(f, i);
        c.slot.insert(p, c.next);
        c.next += self.nslots(ty(p));
      }
      out.nparams = c.next;
      let mut blocks = Vec::new();
      let mut b = LLVMGetFirstBasicBlock(f);
      while !b.is_null() {
        c.blocks.insert(b, blocks.len() as u32);
        blocks.push(b);
        let mut i = LLVMGetFirstInstruction(b);
        while !i.is_null() {
          let n = self.nslots(ty(i));
          if n > 0 { c.slot.insert(i, c.next); c.next += n; }
          i = LLVMGetNextInstruction(i);
        }
        b = LLVMGetNextBasicBlock(b);
      }
      let block0 = self.p.nblocks;
      self.p.nblocks += blocks.len() as u32;
      let mut bpc = vec![0u32; blocks.len()];
      // edges record block indices first
      for (bi, &b) in blocks.iter().enumerate() {
        bpc[bi] = out.code.len() as u32;
        let mut bl = Vec::new();
        let mut i = LLVMGetFirstInstruction(b);
        while !i.is_null() {
          let lc = locs(i);
          let best = lc.iter().find(|x| x.0.contains(&self.filter)).or(lc.first()).map_or(String::new(), |x| format!("{}:{}", x.0.rsplit("crates/").next().unwrap(), x.1));
          let did = match self.dbg_ids.get(&best) { Some(&k) => k, None => { let k = self.p.dbg.len() as u32; self.p.dbg.push(best.clone()); self.dbg_ids.insert(best, k); k } };
          for (file, line) in lc {
            if line != 0 && file.contains(&self.filter) {
              let n = self.line_ids.len() as u32;
              let id = *self.line_ids.entry((file.clone(), line)).or_insert(n);
              if id == n { self.p.lines.push((file, line)); }
              if !bl.contains(&id) { bl.push(id); }
            }
          }
          let before = out.code.len();
          if let Err(e) = self.ins(&mut c, &mut out, b, i) {
            out.code.truncate(before);
            out.code.push(Ins::Unsupported { msg: e.into() });
          }
          out.locs.resize(out.code.len(), did);
          i = LLVMGetNextInstruction(i);
        }
        self.p.block_lines.push(bl);
      }
      for e in &mut out.edges { let bi = e.pc; e.pc = bpc[bi as usize]; e.block = block0 + bi; }
      out.nslots = c.next;
      Ok(out)
    }
  }

  fn edge(&mut self, c: &FCtx, out: &mut Func, from: Block, to: Block) -> Result<u32, String> {
    unsafe {
      let mut copies = Vec::new();
      let mut i = LLVMGetFirstInstruction(to);
      while !i.is_null() && LLVMGetInstructionOpcode(i) == PHI {
        let n = self.nslots(ty(i));
        for k in 0..LLVMCountIncoming(i) {
          if LLVMGetIncomingBlock(i, k) == from {
            let s = self.op(c, LLVMGetIncomingValue(i, k))?;
            for j in 0..n { copies.push((c.slot[&i] + j, s + j)); }
            break;
          }
        }
        i = LLVMGetNextInstruction(i);
      }
      out.edges.push(Edge { pc: c.blocks[&to], block: 0, copies: copies.into() });
      Ok(out.edges.len() as u32 - 1)
    }
  }

  fn temp(&self, c: &mut FCtx, n: u32) -> u32 { let s = c.next; c.next += n; s }

  fn ins(&mut self, c: &mut FCtx, out: &mut Func, b: Block, i: Value) -> Result<(), String> {
    unsafe {
      let op = LLVMGetInstructionOpcode(i);
      let d = c.slot.get(&i).copied().unwrap_or(0);
      let t = ty(i);
      let n = self.nslots(t);
      if let Some(o) = binop(op) {
        let (a, bb) = (self.op(c, opnd(i, 0))?, self.op(c, opnd(i, 1))?);
        let w = self.scalar_w(t);
        if w > 128 { return Err(format!("width {w}")); }
        for k in 0..n { out.code.push(Ins::Bin { op: o, w, d: d + k, a: a + k, b: bb + k }); }
        return Ok(());
      }
      match op {
        PHI => {}
        RET => {
          if LLVMGetNumOperands(i) == 0 { out.code.push(Ins::Ret { a: 0, n: 0 }); } else {
            let v = opnd(i, 0);
            let a = self.op(c, v)?;
            out.code.push(Ins::Ret { a, n: self.nslots(ty(v)) });
          }
        }
        BR | UBR | CBR => {
          let ns = LLVMGetNumSuccessors(i);
          if ns == 1 {
            let e = self.edge(c, out, b, LLVMGetSuccessor(i, 0))?;
            out.code.push(Ins::Br { e });
          } else {
            let cv = self.op(c, LLVMGetCondition(i))?;
            let e1 = self.edge(c, out, b, LLVMGetSuccessor(i, 0))?;
            let e2 = self.edge(c, out, b, LLVMGetSuccessor(i, 1))?;
            out.code.push(Ins::CondBr { c: cv, t: e1, f: e2 });
          }
        }
        SWITCH => {
          let v = opnd(i, 0);
          let a = self.op(c, v)?;
          let w = self.scalar_w(ty(v));
          let ns = LLVMGetNumSuccessors(i);
          let def = self.edge(c, out, b, LLVMGetSuccessor(i, 0))?;
          let mut cases = Vec::new();
          for k in 1..ns {
            // same destination and same phi inputs: one edge per successor is fine
            let e = self.edge(c, out, b, LLVMGetSuccessor(i, k))?;
            cases.push((self.int_const(LLVMGetSwitchCaseValue(i, k)), e));
          }
          // merge identical edges so that they count as one destination
          let mut cs: Vec<(u128, u32)> = Vec::new();
          for (v, e) in cases {
            let mut e = e;
            for &(_, e2) in &cs {
              if out.edges[e2 as usize].pc == out.edges[e as usize].pc && out.edges[e2 as usize].copies == out.edges[e as usize].copies { e = e2; break; }
            }
            if out.edges[def as usize].pc == out.edges[e as usize].pc && out.edges[def as usize].copies == out.edges[e as usize].copies { continue; }
            cs.push((v, e));
          }
          out.code.push(Ins::Switch { v: a, w, cases: cs.into(), def });
        }
        UNREACHABLE => out.code.push(Ins::Unreachable),
        RESUME => out.code.push(Ins::Panic { name: "resume".into() }),
        LANDINGPAD => out.code.push(Ins::Nop),
        ICMP => {
          let (x, y) = (opnd(i, 0), opnd(i, 1));
          let w = self.scalar_w(ty(x));
          if w > 128 { return Err(format!("width {w}")); }
          let (a, bb) = (self.op(c, x)?, self.op(c, y)?);
          let p = match LLVMGetICmpPredicate(i) {
            32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge, 36 => Pred::Ult, 37 => Pred::Ule,
            38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, 41 => Pred::Sle, k => return Err(format!("icmp {k}")),
          };
          for k in 0..n { out.code.push(Ins::ICmp { p, w, d: d + k, a: a + k, b: bb + k }); }
        }
        FADD | FSUB | FMUL | FDIV | FREM => {
          let (a, bb) = (self.op(c, opnd(i, 0))?, self.op(c, opnd(i, 1))?);
          let w = self.scalar_w(t);
          for k in 0..n { out.code.push(Ins::FBin { op: op as u8, w, d: d + k, a: a + k, b: bb + k }); }
        }
        FNEG => {
          let a = self.op(c, opnd(i, 0))?;
          let w = self.scalar_w(t);
          let s = self.kval(1 << (w - 1));
          for k in 0..n { out.code.push(Ins::Bin { op: Op::Xor, w, d: d + k, a: a + k, b: s }); }
        }
        FCMP => {
          let (a, bb) = (self.op(c, opnd(i, 0))?, self.op(c, opnd(i, 1))?);
          let w = self.scalar_w(ty(opnd(i, 0)));
          let p = LLVMGetFCmpPredicate(i);
          for k in 0..n { out.code.push(Ins::FCmp { p, w, d: d + k, a: a + k, b: bb + k }); }
        }
        FPTOUI | FPTOSI | UITOFP | SITOFP | FPTRUNC | FPEXT => {
          let a = self.op(c, opnd(i, 0))?;
          let w0 = self.scalar_w(ty(opnd(i, 0)));
          let w = self.scalar_w(t);
          for k in 0..n { out.code.push(Ins::FCast { op, w0, w, d: d + k, a: a + k }); }
        }
        SELECT => {
          let (cv, a, bb) = (opnd(i, 0), self.op(c, opnd(i, 1))?, self.op(c, opnd(i, 2))?);
          let vec_c = kind(ty(cv)) == 13;
          let cc = self.op(c, cv)?;
          let ps = self.parts(t);
          for k in 0..n { out.code.push(Ins::Sel { w: ps[k as usize].1, d: d + k, c: if vec_c { cc + k } else { cc }, a: a + k, b: bb + k }); }
        }
        FREEZE => { let a = self.op(c, opnd(i, 0))?; out.code.push(Ins::Copy { d, a, n }); }
        ZEXT => { let a = self.op(c, opnd(i, 0))?; let w = self.scalar_w(t); if w > 128 { return Err(format!("width {w}")); } for k in 0..n { out.code.push(Ins::ZExt { w, d: d + k, a: a + k }); } }
        SEXT => {
          let a = self.op(c, opnd(i, 0))?;
          let (w0, w) = (self.scalar_w(ty(opnd(i, 0))), self.scalar_w(t));
          if w > 128 { return Err(format!("width {w}")); }
          for k in 0..n { out.code.push(Ins::SExt { w0, w, d: d + k, a: a + k }); }
        }
        TRUNC => { let a = self.op(c, opnd(i, 0))?; let w = self.scalar_w(t); if self.scalar_w(ty(opnd(i, 0))) > 128 { return Err("wide".into()); } for k in 0..n { out.code.push(Ins::Trunc { w, d: d + k, a: a + k }); } }
        PTRTOINT | INTTOPTR => {
          let a = self.op(c, opnd(i, 0))?;
          let (w0, w) = (self.scalar_w(ty(opnd(i, 0))), self.scalar_w(t));
          for k in 0..n {
            out.code.push(if w < w0 { Ins::Trunc { w, d: d + k, a: a + k } } else { Ins::ZExt { w, d: d + k, a: a + k } });
          }
        }
        ADDRSPACECAST => { let a = self.op(c, opnd(i, 0))?; out.code.push(Ins::Copy { d, a, n }); }
        BITCAST => {
          let a = self.op(c, opnd(i, 0))?;
          let (p0, p1) = (self.parts(ty(opnd(i, 0))), self.parts(t));
          if p0.len() == p1.len() { out.code.push(Ins::Copy { d, a, n }); } else {
            if p0[0].1 > 128 || p1[0].1 > 128 { return Err(format!("wide bitcast {}", print(i))); }
            out.code.push(Ins::Recast { d, a, w0: p0[0].1, n0: p0.len() as u32, w: p1[0].1, n: p1.len() as u32 });
          }
        }
        GEP => {
          if n != 1 { return Err(format!("vector gep {}", print(i))); }
          let base = self.op(c, opnd(i, 0))?;
          let (off, idx) = self.gep_parts(i);
          let mut ix = Vec::new();
          for (v, w, s) in idx { ix.push((self.op(c, v)?, w, s)); }
          out.code.push(Ins::Gep { d, base, off, idx: ix.into() });
        }
        LOAD => {
          let addr = self.op(c, opnd(i, 0))?;
          if self.is_bitvec(t) {
            let w = n; // one bit per lane
            let tmp = self.temp(c, 1);
            let w8 = w.div_ceil(8) * 8;
            out.code.push(Ins::Load { addr, parts: Box::new([(tmp, 0, w8)]) });
            out.code.push(Ins::Trunc { w, d: tmp, a: tmp });
            out.code.push(Ins::Recast { d, a: tmp, w0: w, n0: 1, w: 1, n });
            return Ok(());
          }
          let ps: Vec<_> = self.parts(t).into_iter().enumerate().map(|(k, (o, w))| (d + k as u32, o, w)).collect();
          if ps.iter().any(|p| p.2 > 128) { return Err(format!("wide load {}", print(i))); }
          out.code.push(Ins::Load { addr, parts: ps.into() });
        }
        STORE => {
          let v = opnd(i, 0);
          let a = self.op(c, v)?;
          let addr = self.op(c, opnd(i, 1))?;
          if self.is_bitvec(ty(v)) {
            let lanes = self.parts(ty(v)).len() as u32;
            let tmp = self.temp(c, 1);
            out.code.push(Ins::Recast { d: tmp, a, w0: 1, n0: lanes, w: lanes, n: 1 });
            let w8 = lanes.div_ceil(8) * 8;
            if w8 != lanes { out.code.push(Ins::ZExt { w: w8, d: tmp, a: tmp }); }
            out.code.push(Ins::Store { addr, parts: Box::new([(tmp, 0, w8)]) });
            return Ok(());
          }
          let ps: Vec<_> = self.parts(ty(v)).into_iter().enumerate().map(|(k, (o, w))| (a + k as u32, o, w)).collect();
          if ps.iter().any(|p| p.2 > 128) { return Err(format!("wide store {}", print(i))); }
          out.code.push(Ins::Store { addr, parts: ps.into() });
        }
        ALLOCA => {
          let at = LLVMGetAllocatedType(i);
          let count = self.op(c, opnd(i, 0))?;
          let cw = self.scalar_w(ty(opnd(i, 0)));
          out.code.push(Ins::Alloca { d, size: self.size(at), count, cw, align: (LLVMGetAlignment(i) as u64).max(1) });
        }
        EXTRACTVALUE | INSERTVALUE => {
          let agg = opnd(i, 0);
          let a = self.op(c, agg)?;
          let ni = LLVMGetNumIndices(i);
          let ix = std::slice::from_raw_parts(LLVMGetIndices(i), ni as usize);
          let mut cur = ty(agg);
          let mut o = 0u32;
          for &k in ix {
            if kind(cur) == 10 {
              for j in 0..k { o += self.nslots(LLVMStructGetTypeAtIndex(cur, j)); }
              cur = LLVMStructGetTypeAtIndex(cur, k);
            } else {
              cur = LLVMGetElementType(cur);
              o += k * self.nslots(cur);
            }
          }
          if op == EXTRACTVALUE { out.code.push(Ins::Copy { d, a: a + o, n }); } else {
            let v = self.op(c, opnd(i, 1))?;
            out.code.push(Ins::Copy { d, a, n });
            out.code.push(Ins::Copy { d: d + o, a: v, n: self.nslots(cur) });
          }
        }
        EXTRACTELEMENT => {
          let v = opnd(i, 0);
          let a = self.op(c, v)?;
          let iv = opnd(i, 1);
          if LLVMGetValueKind(iv) == 18 {
            out.code.push(Ins::Copy { d, a: a + n * LLVMConstIntGetZExtValue(iv) as u32, n });
          } else {
            let io = self.op(c, iv)?;
            out.code.push(Ins::ExtractDyn { d, a, k: n, n: self.nslots(ty(v)) / n, i: io, iw: self.scalar_w(ty(iv)) });
          }
        }
        INSERTELEMENT => {
          let a = self.op(c, opnd(i, 0))?;
          let v = self.op(c, opnd(i, 1))?;
          let k = self.nslots(ty(opnd(i, 1)));
          let iv = opnd(i, 2);
          if LLVMGetValueKind(iv) == 18 {
            out.code.push(Ins::Copy { d, a, n });
            out.code.push(Ins::Copy { d: d + k * LLVMConstIntGetZExtValue(iv) as u32, a: v, n: k });
          } else {
            let io = self.op(c, iv)?;
            out.code.push(Ins::InsertDyn { d, a, k, n: n / k, v, i: io, iw: self.scalar_w(ty(iv)) });
          }
        }
        SHUFFLEVECTOR => {
          let (a, bb) = (self.op(c, opnd(i, 0))?, self.op(c, opnd(i, 1))?);
          let n0 = self.nslots(ty(opnd(i, 0))) as i32;
          for k in 0..LLVMGetNumMaskElements(i) {
            let mk = LLVMGetMaskValue(i, k);
            if mk < 0 { let z = self.kval(0); out.code.push(Ins::Copy { d: d + k, a: z, n: 1 }); }
            else if mk < n0 { out.code.push(Ins::Copy { d: d + k, a: a + mk as u32, n: 1 }); }
            else { out.code.push(Ins::Copy { d: d + k, a: bb + (mk - n0) as u32, n: 1 }); }
          }
        }
        FENCE => out.code.push(Ins::Nop),
        ATOMICRMW => {
          let addr = self.op(c, opnd(i, 0))?;
          let v = self.op(c, opnd(i, 1))?;
          out.code.push(Ins::Rmw { op: LLVMGetAtomicRMWBinOp(i), w: self.scalar_w(t), d, addr, v });
        }
        CMPXCHG => {
          let (addr, cmp, new) = (self.op(c, opnd(i, 0))?, self.op(c, opnd(i, 1))?, self.op(c, opnd(i, 2))?);
          out.code.push(Ins::CmpXchg { w: self.scalar_w(ty(opnd(i, 1))), d, addr, cmp, new });
        }
        CALL | INVOKE => self.call(c, out, b, i, op, d, t, n)?,
        _ => return Err(format!("opcode {op}: {}", print(i))),
      }
      Ok(())
    }
  }

  #[allow(clippy::too_many_arguments)]
  fn call(&mut self, c: &mut FCtx, out: &mut Func, b: Block, i: Value, op: i32, d: u32, t: Type, n: u32) -> Result<(), String> {
    unsafe {
      let mut callee = LLVMGetCalledValue(i);
      if LLVMGetValueKind(callee) == 6 { callee = self.aliases[&callee]; }
      let vk = LLVMGetValueKind(callee);
      let nargs = LLVMGetNumArgOperands(i);
      let next = |s: &mut Self, c: &FCtx, out: &mut Func| -> Result<u32, String> {
        if op == INVOKE { s.edge(c, out, b, LLVMGetNormalDest(i)) } else { Ok(u32::MAX) }
      };
      if vk == 24 {
        let s = print(i);
        if s.contains("cpuid") { out.code.push(Ins::Cpuid { d }); }
        else if n == 0 { out.code.push(Ins::Nop); }
        else { return Err(format!("inline asm {s}")); }
        if op == INVOKE { let e = next(self, c, out)?; out.code.push(Ins::Br { e }); }
        return Ok(());
      }
      if vk == 5 {
        let nm = name(callee);
        if nm.starts_with("llvm.") {
          self.intrinsic(c, out, i, &nm, d, t, n)?;
          if op == INVOKE { let e = next(self, c, out)?; out.code.push(Ins::Br { e }); }
          return Ok(());
        }
        let noret = has_fn_attr(callee, "noreturn");
        if noret && !nm.contains("rt10lang_start") && (nm.contains("4core") || nm.contains("5alloc") || nm.contains("3std") || nm.contains("9panicking") || nm.contains("18handle_alloc_error") || nm.contains("6option") || nm.contains("6result") || nm.contains("rust_panic") || nm.contains("rust_begin_unwind") || nm.contains("14capacity_overflow") || nm.contains("process5abort")) {
          // the message arguments are not evaluated
          out.code.push(Ins::Panic { name: nm.into() });
          return Ok(());
        }
        let mut args = Vec::new();
        for k in 0..nargs {
          let v = opnd(i, k);
          let a = self.op(c, v)?;
          for j in 0..self.nslots(ty(v)) { args.push(a + j); }
        }
        let e = next(self, c, out)?;
        if LLVMIsDeclaration(callee) != 0 {
          let x = ext(&nm);
          match x {
            Some(x) => out.code.push(Ins::CallExt { x, args: args.into(), d, rw: if n > 0 { self.scalar_w(t) } else { 0 }, next: e, name: nm.into() }),
            None => return Err(format!("external function {nm}")),
          }
        } else {
          out.code.push(Ins::Call { f: self.fidx[&callee], args: args.into(), d, next: e });
        }
        return Ok(());
      }
      let f = self.op(c, callee)?;
      let mut args = Vec::new();
      for k in 0..nargs {
        let v = opnd(i, k);
        let a = self.op(c, v)?;
        for j in 0..self.nslots(ty(v)) { args.push(a + j); }
      }
      let e = next(self, c, out)?;
      out.code.push(Ins::CallInd { f, args: args.into(), d, next: e });
      Ok(())
    }
  }

  #[allow(clippy::too_many_arguments)]
  fn intrinsic(&mut self, c: &mut FCtx, out: &mut Func, i: Value, nm: &str, d: u32, t: Type, n: u32) -> Result<(), String> {
    let base: Vec<&str> = nm.split('.').collect();
    let b1 = base[1];
    match b1 {
      "lifetime" | "assume" | "dbg" | "donothing" | "prefetch" | "invariant" | "sideeffect" | "va_end" => { out.code.push(Ins::Nop); return Ok(()); }
      "experimental" if base[2] == "noalias" => { out.code.push(Ins::Nop); return Ok(()); }
      "x86" if nm == "llvm.x86.sse2.pause" => { out.code.push(Ins::Nop); return Ok(()); }
      "trap" | "debugtrap" | "ubsantrap" => { out.code.push(Ins::Panic { name: "trap".into() }); return Ok(()); }
      "is" if nm.starts_with("llvm.is.constant") => { let z = self.kval(0); out.code.push(Ins::Copy { d, a: z, n: 1 }); return Ok(()); }
      "objectsize" => { let w = self.scalar_w(t); let z = self.kval(mask(w)); out.code.push(Ins::Copy { d, a: z, n: 1 }); return Ok(()); }
      "stacksave" => { let z = self.kval(0); out.code.push(Ins::Copy { d, a: z, n: 1 }); return Ok(()); }
      "stackrestore" => { out.code.push(Ins::Nop); return Ok(()); }
      _ => {}
    }
    let nargs = unsafe { LLVMGetNumArgOperands(i) };
    let mut a = Vec::new();
    for k in 0..nargs { a.push(self.op(c, opnd(i, k))?); }
    let at = if nargs > 0 { ty(opnd(i, 0)) } else { t };
    let w = self.scalar_w(at);
    if w > 128 { return Err(format!("wide intrinsic {nm}")); }
    let in2 = |s: &str| Some(match s {
      "umax" => In2::Umax, "umin" => In2::Umin, "smax" => In2::Smax, "smin" => In2::Smin,
      "ucmp" => In2::Ucmp, "scmp" => In2::Scmp, _ => return None,
    });
    match b1 {
      "expect" | "ssa" | "threadlocal" | "launder" | "strip" => out.code.push(Ins::Copy { d, a: a[0], n }),
      "ptrmask" => out.code.push(Ins::Bin { op: Op::And, w: 64, d, a: a[0], b: a[1] }),
      "memcpy" | "memmove" => { let lw = self.scalar_w(ty(opnd(i, 2))); out.code.push(Ins::MemCpy { dst: a[0], src: a[1], len: a[2], lw }) }
      "memset" => { let lw = self.scalar_w(ty(opnd(i, 2))); out.code.push(Ins::MemSet { dst: a[0], val: a[1], len: a[2], lw }) }
      "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "abs" => {
        let k = match b1 { "ctlz" => In1::Ctlz, "cttz" => In1::Cttz, "ctpop" => In1::Ctpop, "bswap" => In1::Bswap, "abs" => In1::Abs, _ => In1::Bitrev };
        for j in 0..n { out.code.push(Ins::In1 { i: k, w, d: d + j, a: a[0] + j }); }
      }
      "umax" | "umin" | "smax" | "smin" | "ucmp" | "scmp" => {
        let k = in2(b1).unwrap();
        let rw = self.scalar_w(t);
        for j in 0..n { out.code.push(Ins::In2 { i: k, w, rw, d: d + j, a: a[0] + j, b: a[1] + j }); }
      }
      "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
        if base[2] == "sat" {
          let k = match b1 { "uadd" => In2::UaddSat, "usub" => In2::UsubSat, "sadd" => In2::SaddSat, "ssub" => In2::SsubSat, _ => return Err(nm.into()) };
          for j in 0..n { out.code.push(Ins::In2 { i: k, w, rw: w, d: d + j, a: a[0] + j, b: a[1] + j }); }
        } else {
          let k = match b1 { "uadd" => Ov::Uadd, "usub" => Ov::Usub, "umul" => Ov::Umul, "sadd" => Ov::Sadd, "ssub" => Ov::Ssub, _ => Ov::Smul };
          if n != 2 { return Err(format!("vector {nm}")); }
          out.code.push(Ins::Ovf { i: k, w, d, a: a[0], b: a[1] });
        }
      }
      "fshl" | "fshr" => for j in 0..n { out.code.push(Ins::Fsh { left: b1 == "fshl", w, d: d + j, a: a[0] + j, b: a[1] + j, s: a[2] + j }); },
      "vector" if base[2] == "reduce" => {
        let m = self.nslots(at);
        let o = match base[3] { "or" => Op::Or, "and" => Op::And, "xor" => Op::Xor, "add" => Op::Add, "mul" => Op::Mul, s => match in2(s) {
          Some(k) => { out.code.push(Ins::ReduceMm { i: k, w, d, a: a[0], n: m }); return Ok(()); }
          None => return Err(nm.into()),
        } };
        out.code.push(Ins::Reduce { op: o, w, d, a: a[0], n: m });
      }
      "load" if nm.starts_with("llvm.load.relative") => out.code.push(Ins::LoadRel { d, a: a[0], o: a[1] }),
      _ => return Err(format!("intrinsic {nm}")),
    }
    Ok(())
  }
}

pub fn ext(n: &str) -> Option<Ext> {
  Some(match n {
    "sym_input" => Ext::Input, "sym_assume" => Ext::Assume, "sym_assert" => Ext::Assert, "sym_cover" => Ext::Cover,
    "sym_concretize" => Ext::Concretize, "sym_trace" => Ext::Trace, "sym_may_panic" => Ext::MayPanic,
    "malloc" => Ext::Malloc, "calloc" => Ext::Calloc, "realloc" => Ext::Realloc, "free" => Ext::Free,
    "posix_memalign" => Ext::PosixMemalign, "memcmp" => Ext::Memcmp, "bcmp" => Ext::Bcmp, "strlen" => Ext::Strlen,
    "memcpy" => Ext::Memcpy, "memmove" => Ext::Memmove, "memset" => Ext::Memset,
    "__errno_location" => Ext::Errno, "abort" | "_exit" | "exit" => Ext::Abort, "getenv" => Ext::Getenv,
    "clock_gettime" => Ext::ClockGettime, "syscall" => Ext::Syscall, "write" => Ext::Write, "open64" | "open" => Ext::Open,
    "close" => Ext::Close, "fstat64" | "fstat" => Ext::Fstat, "read" => Ext::Read, "getcwd" => Ext::Getcwd,
    "pthread_self" | "gettid" | "getpid" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_getspecific" | "pthread_key_delete" => Ext::Zero,
    "statx" | "stat64" | "lseek64" | "writev" | "mmap64" | "munmap" | "readlink" | "sigaction" => Ext::MinusOne,
    _ => return None,
  })
}

fn binop(op: i32) -> Option<Op> {
  Some(match op {
    ADD => Op::Add, SUB => Op::Sub, MUL => Op::Mul, UDIV => Op::UDiv, SDIV => Op::SDiv, UREM => Op::URem, SREM => Op::SRem,
    SHL => Op::Shl, LSHR => Op::LShr, ASHR => Op::AShr, AND => Op::And, OR => Op::Or, XOR => Op::Xor, _ => return None,
  })
}
