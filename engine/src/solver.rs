//! Z3 bindings and the query layer: independence slicing, and a cache keyed on the exact slice.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CString, c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
unsafe extern "C" {
  fn Z3_mk_config() -> P;
  fn Z3_mk_context_rc(c: P) -> P;
  fn Z3_del_config(c: P);
  fn Z3_del_context(c: P);
  fn Z3_inc_ref(c: P, a: P);
  fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
  fn Z3_mk_bool_sort(c: P) -> P;
  fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
  fn Z3_mk_const(c: P, s: P, t: P) -> P;
  fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
  fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
  fn Z3_mk_true(c: P) -> P;
  fn Z3_mk_false(c: P) -> P;
  fn Z3_mk_not(c: P, a: P) -> P;
  fn Z3_mk_eq(c: P, a: P, b: P) -> P;
  fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
  fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_xor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
  fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
  fn Z3_mk_concat(c: P, a: P, b: P) -> P;
  fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_simple_solver(c: P) -> P;
  fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
  fn Z3_solver_inc_ref(c: P, s: P);
  fn Z3_solver_assert(c: P, s: P, a: P);
  fn Z3_solver_get_model(c: P, s: P) -> P;
  fn Z3_model_inc_ref(c: P, m: P);
  fn Z3_model_dec_ref(c: P, m: P);
  fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
  fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
  fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
  fn Z3_get_bool_value(c: P, a: P) -> c_int;
  fn Z3_mk_params(c: P) -> P;
  fn Z3_params_inc_ref(c: P, p: P);
  fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
  fn Z3_solver_set_params(c: P, s: P, p: P);
  fn Z3_set_error_handler(c: P, h: Option<unsafe extern "C" fn(P, c_int)>);
  fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
  fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
  fn Z3_ast_vector_inc_ref(c: P, v: P);
  fn Z3_ast_vector_dec_ref(c: P, v: P);
  fn Z3_ast_vector_size(c: P, v: P) -> c_uint;
  fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
  fn Z3_mk_implies(c: P, a: P, b: P) -> P;
  fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
unsafe extern "C" fn on_err(_: P, code: c_int) {
  eprintln!("z3 error {code}");
  std::process::exit(3);
}

/// A reference held until the context goes: unreferenced objects die at the next call.
unsafe fn keep(c: P, a: P) -> P { unsafe { Z3_inc_ref(c, a) }; a }

/// Formulas asserted in a context before it is replaced: old ones slow down every query.
const MAX_PROXIES: usize = 100;

pub enum Sat { Unsat, Sat(Vec<(u32, u128)>), Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub cached: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub ns: u64, pub max_ns: u64, pub asserts: u64 }

pub struct Solver {
  ctx: P,
  solver: P,
  ast: Vec<P>,
  cache: HashMap<Vec<u32>, Option<Vec<(u32, u128)>>>,
  pub stats: Stats,
  pub dump: Option<String>,
  /// a literal for each asserted formula (implication), so that formulas are bit-blasted once
  proxy: FxMap<u32, P>,
  back: FxMap<usize, u32>,
  /// unsatisfiable cores by the condition they contain: the other members
  cores: FxMap<u32, Vec<Box<[u32]>>>,
  timeout_ms: u32,
}

impl Solver {
  pub fn new(timeout_ms: u32) -> Solver {
    let mut s = Solver { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), ast: Vec::new(), cache: HashMap::new(), stats: Stats::default(), dump: None, proxy: Default::default(), back: Default::default(), cores: Default::default(), timeout_ms };
    s.open();
    s
  }
  fn open(&mut self) {
    unsafe {
      let cfg = Z3_mk_config();
      self.ctx = Z3_mk_context_rc(cfg);
      Z3_del_config(cfg);
      Z3_set_error_handler(self.ctx, Some(on_err));
      self.solver = Z3_mk_simple_solver(self.ctx);
      Z3_solver_inc_ref(self.ctx, self.solver);
      let p = Z3_mk_params(self.ctx);
      Z3_params_inc_ref(self.ctx, p);
      let k = CString::new("timeout").unwrap();
      Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
      Z3_solver_set_params(self.ctx, self.solver, p);
    }
    self.ast.clear();
    self.proxy.clear();
    self.back.clear();
  }
  /// Forget everything that refers to a DAG.
  pub fn reset(&mut self) {
    unsafe { Z3_del_context(self.ctx) };
    self.cache.clear();
    self.cores.clear();
    self.open();
  }
  fn as_bv(&self, d: &Dag, e: u32) -> P {
    let a = self.ast[e as usize];
    if d.w(e) != 1 { return a; }
    unsafe {
      let s = keep(self.ctx, Z3_mk_bv_sort(self.ctx, 1));
      let r = Z3_mk_ite(self.ctx, a, keep(self.ctx, Z3_mk_unsigned_int64(self.ctx, 1, s)), keep(self.ctx, Z3_mk_unsigned_int64(self.ctx, 0, s)));
      keep(self.ctx, r)
    }
  }
  fn tr(&mut self, d: &Dag, root: u32) -> P {
    if self.ast.len() < d.nodes.len() { self.ast.resize(d.nodes.len(), std::ptr::null_mut()); }
    let mut stack = vec![root];
    let c = self.ctx;
    while let Some(&e) = stack.last() {
      if !self.ast[e as usize].is_null() { stack.pop(); continue; }
      let n = d.nodes[e as usize];
      let kids: &[u32] = match n.op {
        Op::Const | Op::Var => &[],
        Op::ZExt | Op::SExt | Op::Extract => &[n.a],
        Op::Ite => &[n.a, n.b, n.c],
        _ => &[n.a, n.b],
      };
      let mut ready = true;
      for &k in kids { if self.ast[k as usize].is_null() { stack.push(k); ready = false; } }
      if !ready { continue; }
      stack.pop();
      let w = n.w as u32;
      let t = &self.ast;
      let g = |k: u32| t[k as usize];
      let r = unsafe {
        match n.op {
          Op::Const => {
            let v = d.as_const(e).unwrap();
            if w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else {
              let s = keep(c, Z3_mk_bv_sort(c, w));
              if v <= u64::MAX as u128 { keep(c, Z3_mk_unsigned_int64(c, v as u64, s)) } else {
                let st = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(c, st.as_ptr(), s)
              }
            }
          }
          Op::Var => {
            let s = if w == 1 { keep(c, Z3_mk_bool_sort(c)) } else { keep(c, Z3_mk_bv_sort(c, w)) };
            Z3_mk_const(c, Z3_mk_int_symbol(c, (n.a * 256 + w) as c_int), s)
          }
          Op::And if w == 1 => Z3_mk_and(c, 2, [g(n.a), g(n.b)].as_ptr()),
          Op::Or if w == 1 => Z3_mk_or(c, 2, [g(n.a), g(n.b)].as_ptr()),
          Op::Xor if w == 1 => if d.as_const(n.b) == Some(1) { Z3_mk_not(c, g(n.a)) } else { Z3_mk_xor(c, g(n.a), g(n.b)) },
          Op::Add | Op::Sub if w == 1 => Z3_mk_xor(c, g(n.a), g(n.b)),
          Op::Mul if w == 1 => Z3_mk_and(c, 2, [g(n.a), g(n.b)].as_ptr()),
          Op::Eq => Z3_mk_eq(c, g(n.a), g(n.b)),
          Op::Ite => Z3_mk_ite(c, g(n.a), g(n.b), g(n.c)),
          _ => {
            let x = self.as_bv(d, n.a);
            match n.op {
              Op::ZExt => Z3_mk_zero_ext(c, w - d.w(n.a), x),
              Op::SExt => Z3_mk_sign_ext(c, w - d.w(n.a), x),
              Op::Extract => {
                let r = keep(c, Z3_mk_extract(c, n.b + w - 1, n.b, x));
                if w == 1 { Z3_mk_eq(c, r, keep(c, Z3_mk_unsigned_int64(c, 1, keep(c, Z3_mk_bv_sort(c, 1))))) } else { r }
              }
              op => {
                let y = self.as_bv(d, n.b);
                let r = match op {
                  Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                  Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                  Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                  Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                  Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                  Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y),
                  Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y),
                  Op::Concat => Z3_mk_concat(c, x, y),
                  _ => unreachable!("{op:?}"),
                };
                let r = keep(c, r);
                if w == 1 && !matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                  Z3_mk_eq(c, r, keep(c, Z3_mk_unsigned_int64(c, 1, keep(c, Z3_mk_bv_sort(c, 1)))))
                } else { r }
              }
            }
          }
        }
      };
      unsafe { Z3_inc_ref(c, r) };
      self.ast[e as usize] = r;
    }
    self.ast[root as usize]
  }
  /// The conjuncts of `pc` that share variables, transitively, with `cond`.
  pub fn slice(d: &Dag, pc: &[u32], cond: u32) -> Vec<u32> {
    let mut vs = d.vars[cond as usize];
    let mut used = vec![false; pc.len()];
    let mut out = Vec::new();
    loop {
      let mut ch = false;
      for (i, &e) in pc.iter().enumerate() {
        if !used[i] && d.vars[e as usize] & vs != 0 {
          used[i] = true;
          out.push(e);
          let n = vs | d.vars[e as usize];
          if n != vs { vs = n; ch = true; }
        }
      }
      if !ch { break; }
    }
    out.sort_unstable();
    out.dedup();
    out
  }
  /// Is `pc` and `cond` satisfiable? `widths` are the declared inputs.
  pub fn check(&mut self, d: &Dag, pc: &[u32], cond: u32) -> Sat {
    if let Some(k) = d.as_const(cond) { return if k == 0 { Sat::Unsat } else { Sat::Sat(vec![]) }; }
    let mut key = Self::slice(d, pc, cond);
    key.push(cond);
    if let Some(r) = self.cache.get(&key) {
      self.stats.cached += 1;
      return match r { None => Sat::Unsat, Some(m) => Sat::Sat(m.clone()) };
    }
    if let Some(cs) = self.cores.get(&cond) {
      if cs.iter().any(|c| c.iter().all(|x| key[..key.len() - 1].binary_search(x).is_ok())) {
        self.stats.cached += 1;
        return Sat::Unsat;
      }
    }
    let r = self.solve(d, &key);
    match &r {
      Sat::Unsat => { self.cache.insert(key, None); }
      Sat::Sat(m) => { self.cache.insert(key, Some(m.clone())); }
      Sat::Unknown => {}
    }
    r
  }
  fn solve(&mut self, d: &Dag, conj: &[u32]) -> Sat {
    if self.proxy.len() > MAX_PROXIES { unsafe { Z3_del_context(self.ctx) }; self.open(); }
    let t0 = Instant::now();
    let (c, s) = (self.ctx, self.solver);
    let mut asts: Vec<P> = Vec::with_capacity(conj.len());
    for &e in conj {
      let a = self.tr(d, e);
      let pr = match self.proxy.get(&e) {
        Some(&p) => p,
        None => unsafe {
          let p = keep(c, Z3_mk_const(c, Z3_mk_int_symbol(c, (1 << 30 | e) as c_int), keep(c, Z3_mk_bool_sort(c))));
          let imp = keep(c, Z3_mk_implies(c, p, a));
          Z3_solver_assert(c, s, imp);
          self.proxy.insert(e, p);
          self.back.insert(p as usize, e);
          p
        },
      };
      asts.push(pr);
    }
    self.stats.queries += 1;
    let r = unsafe {
      let r = Z3_solver_check_assumptions(c, s, asts.len() as c_uint, asts.as_ptr());
      if let Some(dir) = &self.dump {
        let st = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
        let _ = std::fs::write(format!("{dir}/q{:?}-{}-{}.smt2", std::thread::current().id(), self.stats.queries, r), format!("{st}(check-sat)\n"));
      }
      let out = match r {
        -1 => {
          self.stats.unsat += 1;
          let v = Z3_solver_get_unsat_core(c, s);
          Z3_ast_vector_inc_ref(c, v);
          let cond = *conj.last().unwrap();
          let mut core = Vec::new();
          for i in 0..Z3_ast_vector_size(c, v) {
            let e = self.back[&(Z3_ast_vector_get(c, v, i) as usize)];
            if e != cond { core.push(e) }
          }
          Z3_ast_vector_dec_ref(c, v);
          self.cores.entry(cond).or_default().push(core.into());
          Sat::Unsat
        }
        1 => {
          self.stats.sat += 1;
          let m = Z3_solver_get_model(c, s);
          Z3_model_inc_ref(c, m);
          let mut vars = Vec::new();
          let mut seen = std::collections::HashSet::new();
          let mut st: Vec<u32> = conj.to_vec();
          while let Some(e) = st.pop() {
            if d.vars[e as usize] == 0 || !seen.insert(e) { continue; }
            let n = d.nodes[e as usize];
            match n.op {
              Op::Const => {}
              Op::Var => vars.push((n.a, e)),
              Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
              Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
              _ => { st.push(n.a); st.push(n.b); }
            }
          }
          let mut res = Vec::with_capacity(vars.len());
          for (k, e) in vars {
            let mut o: P = std::ptr::null_mut();
            assert!(Z3_model_eval(c, m, self.ast[e as usize], true, &mut o));
            Z3_inc_ref(c, o);
            let v = if d.w(e) == 1 { (Z3_get_bool_value(c, o) == 1) as u128 } else {
              let mut u = 0u64;
              if Z3_get_numeral_uint64(c, o, &mut u) { u as u128 } else {
                std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse().unwrap()
              }
            };
            res.push((k, v));
          }
          Z3_model_dec_ref(c, m);
          Sat::Sat(res)
        }
        _ => { self.stats.unknown += 1; Sat::Unknown }
      };
      out
    };
    let ns = t0.elapsed().as_nanos() as u64;
    self.stats.ns += ns;
    self.stats.max_ns = self.stats.max_ns.max(ns);
    r
  }
}
