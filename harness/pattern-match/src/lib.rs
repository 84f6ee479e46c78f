//! pattern-match: every list of small patterns over a language with finite, infinite, recursive and empty types.
use pattern_match::{Check, CheckError, ConPat, Lang, Pat, RawPat, Result, check as run};
use std::sync::atomic::{AtomicU8, Ordering};
use sym::*;

/// A constructor: 0 stands for anything but the numbers of the set, `k` for the `k`-th constructor of the type; of `Range` TWO stands for the first two.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Con(u8, u16);
const TWO: u8 = 15;
fn c_(k: u8) -> Con { Con(k, 0) }
impl std::fmt::Display for Con {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str(["_", "a", "b", "c", "d", "e", "f"][usize::from(self.0.min(6))])
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ty { Bool, Opt, Pair, Int, IntPair, List, Empty, Tri, Range, Six, Deep, Nat, Unit, Wide }
use Ty::*;

/// The argument types of the constructors of a type, or nothing if there are infinitely many.
fn cons(ty: Ty) -> Option<&'static [&'static [Ty]]> {
  Some(match ty {
    Bool => &[&[], &[]],
    Opt => &[&[], &[Bool]],
    Pair => &[&[Bool, Opt]],
    Int => return None,
    IntPair => &[&[Int, Bool]],
    List => &[&[], &[Bool, List]],
    Empty => &[],
    Tri | Range => &[&[], &[], &[]],
    Six => &[&[], &[], &[], &[], &[], &[]],
    Deep => &[&[Tri, Bool, Range], &[]],
    Nat => &[&[], &[Nat]],
    Unit => &[&[]],
    Wide => &[&[Unit, Unit, Unit, Bool, Unit, Unit, Unit, Unit, Unit, Bool, Unit, Unit, Unit, Unit, Unit, Unit, Unit, Bool, Unit, Unit, Unit]],
  })
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum L {}
struct Cx { fail_split: u8, fail_args: u8, asked: Vec<(Ty, usize)> }
impl Lang for L {
  type Cx = Cx;
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;
  fn any() -> Con { c_(0) }
  fn split<'a, I: Iterator<Item = &'a Con>>(cx: &mut Cx, ty: &Ty, con: &Con, seen: I, depth: usize) -> Result<Vec<Con>> {
    cx.asked.push((*ty, depth));
    if cx.fail_split != 0 {
      cx.fail_split -= 1;
      if cx.fail_split == 0 { return Err(CheckError("split")); }
    }
    if *ty == Range && con.0 == TWO { return Ok(vec![c_(1), c_(2)]); }
    if (con.0 != 0) | (con.1 != 0) { return Ok(vec![*con]); }
    match cons(*ty) {
      None => {
        let mut ret = vec![];
        let mut no = 0;
        for c in seen { if c.0 != 0 && !ret.contains(c) { ret.push(*c); no |= 1u16 << c.0; } }
        ret.push(Con(0, no));
        Ok(ret)
      }
      Some(cs) => {
        let mut some = depth == 0 || cs.is_empty();
        for c in seen { if c.0 != 0 { some = true; } }
        Ok(if some { (1..=cs.len() as u8).map(c_).collect() } else { vec![c_(0)] })
      }
    }
  }
  fn get_arg_tys(cx: &mut Cx, ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    if cx.fail_args != 0 {
      cx.fail_args -= 1;
      if cx.fail_args == 0 { return Err(CheckError("args")); }
    }
    if con.0 == 0 { return Ok(vec![]); }
    match cons(*ty) {
      None => Ok(vec![]),
      Some([a]) => Ok(a.to_vec()),
      Some(cs) => if cs.iter().all(|c| c.is_empty()) { Ok(vec![]) } else { cs.get(fix(u64::from(con.0)) as usize - 1).map(|c| c.to_vec()).ok_or(CheckError("no such constructor")) }
    }
  }
  fn covers(l: &Con, r: &Con) -> bool { (l.0 == 0) & (l.1 == 0) | (l == r) | (l.0 == TWO) & ((r.0 == 1) | (r.0 == 2)) }
}

/// The integer that stands for all those no pattern mentions.
static OTHERS: AtomicU8 = AtomicU8::new(3);
fn others() -> u8 { OTHERS.load(Ordering::Relaxed) }
/// A value of a type.
#[derive(Clone, Debug)]
struct Val { con: u8, args: Vec<Val> }
/// All values, those of the recursive type up to a depth; among the integers the last stands for all those no pattern mentions.
fn values(ty: Ty, depth: usize) -> Vec<Val> {
  let Some(cs) = cons(ty) else { return (1..=others()).map(|con| Val { con, args: vec![] }).collect() };
  let mut ret = vec![];
  for (i, tys) in cs.iter().enumerate() {
    let mut part: Vec<Vec<Val>> = vec![vec![]];
    for t in *tys {
      let rec = (*t == List) | (*t == Nat);
      if rec && depth == 0 { part.clear(); break; }
      let vs = values(*t, if rec { depth - 1 } else { depth });
      part = part.into_iter().flat_map(|p| vs.iter().map(move |v| { let mut p = p.clone(); p.push(v.clone()); p })).collect();
    }
    ret.extend(part.into_iter().map(|args| Val { con: i as u8 + 1, args }));
  }
  ret
}

/// Whether the pattern matches the value.
fn matches(p: &Pat<L>, v: &Val) -> bool {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().fold(false, |a, p| a | matches(p, v)),
    RawPat::Con(c) => {
      let args = c.args.iter().zip(&v.args).fold(true, |a, (p, v)| a & matches(p, v));
      (c.con.0 == 0) & (c.con.1 >> v.con & 1 == 0) | ((c.con.0 == v.con) & args) | ((c.con.0 == TWO) & (v.con <= 2))
    }
  }
}
/// As above, but for a witness.
fn missed(p: &Pat<L>, v: &Val, ty: Ty) -> bool {
  let RawPat::Con(c) = &p.raw else { check(false, "P02|a missing pattern has no alternatives"); return false };
  let tys = cons(ty).unwrap_or_default().get(usize::from(v.con) - 1).copied().unwrap_or(&[]);
  let args = c.args.iter().zip(&v.args).zip(tys).fold(true, |a, ((p, v), t)| a & missed(p, v, *t));
  (c.con.0 == 0) & (c.con.1 >> v.con & 1 == 0) | ((c.con.0 == v.con) & args)
}
fn well_formed(p: &Pat<L>, ty: Ty) {
  let RawPat::Con(c) = &p.raw else { check(false, "P02|a missing pattern has no alternatives"); return };
  if c.con.0 == 0 { check(c.args.is_empty(), "P02|anything has no arguments"); return; }
  match cons(ty) {
    None => check(c.args.is_empty(), "P02|a missing pattern has the arguments of its type"),
    Some(cs) => {
      check(usize::from(c.con.0) <= cs.len(), "P02|a missing pattern is of the type");
      let Some(tys) = cs.get(fix(u64::from(c.con.0)) as usize - 1) else { return };
      check(c.args.len() == tys.len(), "P02|a missing pattern has the arguments of its type");
      for (a, t) in c.args.iter().zip(*tys) { well_formed(a, *t); }
    }
  }
}
/// Marks the patterns that matching the value goes through if `go`: of alternatives the first that matches.
fn reached(p: &Pat<L>, v: &Val, go: bool, ac: &mut Vec<(u32, bool)>) {
  if let Some(i) = p.idx { mark(ac, i, go); }
  match &p.raw {
    RawPat::Con(c) => {
      let go = go & (c.con.0 == v.con);
      for (p, v) in c.args.iter().zip(&v.args) { reached(p, v, go, ac); }
    }
    RawPat::Or(ps) => {
      let mut go = go;
      for p in ps {
        let m = matches(p, v);
        reached(p, v, go & m, ac);
        go &= !m;
      }
    }
  }
}
fn mark(ac: &mut Vec<(u32, bool)>, i: u32, go: bool) {
  match ac.iter_mut().find(|x| x.0 == i) { Some(x) => x.1 |= go, None => ac.push((i, go)) }
}
fn indices(p: &Pat<L>, ac: &mut Vec<(u32, bool)>) {
  if let Some(i) = p.idx { mark(ac, i, false); }
  match &p.raw {
    RawPat::Con(c) => for p in &c.args { indices(p, ac); },
    RawPat::Or(ps) => for p in ps { indices(p, ac); },
  }
}

struct Gen { next: u32, modulo: u32, none: bool, ors: usize, bad: bool, drop: bool }
impl Gen {
  fn idx(&mut self) -> u32 { self.next += 1; self.next % self.modulo }
  /// An arbitrary pattern of the type, constructors nested at most `depth` deep.
  fn pat(&mut self, ty: Ty, depth: usize) -> Pat<L> {
    let i = self.idx();
    let mut p = self.pat_(ty, depth, i);
    if self.none && i == 0 && any_bool() { self.none = false; p.idx = None; cover("no index"); }
    p
  }
  fn pat_(&mut self, ty: Ty, depth: usize, i: u32) -> Pat<L> {
    if self.ors > 0 && any_bool() {
      self.ors -= 1;
      let n = if self.bad { 1 + choose(3) } else { choose(4) };
      return Pat::or((0..n).map(|_| self.pat(ty, depth)).collect(), i);
    }
    if self.bad && any_bool() {
      // a pattern that makes no sense
      self.bad = false;
      cover("malformed pattern");
      return match choose(2) {
        0 => Pat::con(c_(0), vec![Pat::any_no_idx()], i),
        _ => {
          let args = cons(ty).and_then(|c| c.first()).map_or(0, |a| a.len()) + 1;
          Pat::con(c_(1), vec![Pat::any_no_idx(); args], i)
        }
      };
    }
    if depth == 0 { return Pat::zero(c_(0), i); }
    match cons(ty) {
      None => Pat::zero(c_(below(3) as u8), i),
      Some(_) if ty == Range => Pat::zero(c_([0, 1, 2, 3, TWO][choose(5)]), i),
      Some(cs) if cs.iter().all(|c| c.is_empty()) => Pat::zero(c_(below(cs.len() as u64 + 1) as u8), i),
      Some(cs) => {
        let k = choose(cs.len() as u64 + 1);
        if k == 0 { return Pat::zero(c_(0), i); }
        let mut n = cs[k - 1].len();
        if self.drop && n > 0 && any_bool() { self.drop = false; n -= 1; cover("arguments left out"); }
        let args = cs[k - 1][..n].iter().map(|t| self.pat(*t, depth - 1)).collect();
        Pat::con(c_(k as u8), args, i)
      }
    }
  }
}

fn verify(pats: Vec<Pat<L>>, ty: Ty, depth: usize) {
  let mut cx = Cx { fail_split: 0, fail_args: 0, asked: vec![] };
  let r = run::<L>(&mut cx, pats.clone(), ty);
  let alternatives = pats.iter().any(|p| matches!(p.raw, RawPat::Or(_)));
  if ty != List && ty != Nat {
    let mut inner = 0;
    for (t, depth) in &cx.asked {
      if *t != ty { check(*depth > 0, "P06|a split within a pattern is deeper than that of the pattern"); inner += 1; }
      else if !alternatives { check(*depth == 0, "P06|a split of a whole pattern is at depth zero"); }
    }
    if inner > 0 { cover("a split within"); }
    check(pats.is_empty() || cx.asked.iter().any(|a| a.0 == ty) || alternatives, "P06|a pattern is split");
  }
  check(r.is_ok(), "P04|well-formed patterns are checked without an error");
  let Ok(Check { unreachable, missing }) = r else { return };
  let vals = values(ty, depth + 1);
  let mut ac = vec![];
  for p in &pats { indices(p, &mut ac); }
  let mut all = true;
  for w in &missing { well_formed(w, ty); }
  for v in &vals {
    let mut hit = false;
    for p in &pats {
      let m = matches(p, v);
      reached(p, v, m & !hit, &mut ac);
      hit |= m;
    }
    all &= hit;
    let strict = missing.iter().fold(false, |a, w| a | missed(w, v, ty));
    let lax = missing.iter().fold(false, |a, w| a | matches(w, v));
    check(!(strict & hit), "P02|no missing pattern stands for a value that is matched");
    check(lax | hit, "P02|each value that is not matched is among the missing patterns");
  }
  check(missing.is_empty() == all, "P01|nothing is missing if and only if every value is matched");
  if missing.is_empty() { cover("exhaustive"); } else { cover("not exhaustive"); }
  for (i, r) in &ac { check(unreachable.contains(i) != *r, "P03|a pattern is unreachable if and only if no value gets to it"); }
  for i in &unreachable { check(ac.iter().any(|x| x.0 == *i), "P03|only indices of the patterns are reported"); }
  if unreachable.is_empty() { cover("all reachable"); } else { cover("unreachable"); }
  trace(missing.len() as u64);
  trace(unreachable.len() as u64);
}

fn ty(n: usize) -> Ty { [Bool, Opt, Pair, Int, IntPair, List, Empty, Tri, Range, Six, Deep][n] }

/// The pattern with one path for each constructor.
fn fixed(p: Pat<L>) -> Pat<L> {
  let raw = match p.raw {
    RawPat::Con(c) => RawPat::Con(ConPat { con: c_(fix(u64::from(c.con.0)) as u8), args: c.args.into_iter().map(fixed).collect() }),
    RawPat::Or(ps) => RawPat::Or(ps.into_iter().map(fixed).collect()),
  };
  Pat { raw, idx: p.idx }
}
/// What the pattern is printed as.
fn show(p: &Pat<L>, s: &mut String) {
  match &p.raw {
    RawPat::Con(ConPat { con, args }) => {
      s.push_str(["_", "a", "b", "c", "d", "e", "f"][usize::from(con.0.min(6))]);
      for (i, a) in args.iter().enumerate() {
        s.push_str(if i == 0 { "(" } else { ", " });
        show(a, s);
      }
      if !args.is_empty() { s.push(')'); }
    }
    RawPat::Or(ps) => {
      for (i, p) in ps.iter().enumerate() {
        if i > 0 { s.push_str(" | "); }
        show(p, s);
      }
      if ps.is_empty() { s.push_str("<NEVER>"); }
    }
  }
}

entries! {
  /// `n` patterns of as many integers, or of pairs of one and a bool, one of them arbitrary
  fn h_many(n) {
    OTHERS.store(n as u8 + 1, Ordering::Relaxed);
    let pairs = any_bool();
    let (start, odd, b) = (choose(n as u64), choose(n as u64), choose(3) as u8);
    let pats = (0..n).map(|i| {
      let (mut k, mut b) = (((start + i) % n) as u8 + 1, b);
      if i == odd { k = choose(n as u64 + 1) as u8; b = choose(3) as u8; }
      let i = i as u32;
      if pairs { Pat::con(c_(1), vec![Pat::zero(c_(k), 100 + i), Pat::zero(c_(b), 200 + i)], i) } else { Pat::zero(c_(k), i) }
    }).collect();
    cover("many patterns");
    verify(pats, if pairs { IntPair } else { Int }, 1)
  }
  /// an integer or one of `n` alternatives, one of them arbitrary, some within others, before or after it
  fn h_alts(n) {
    OTHERS.store(n as u8 + 1, Ordering::Relaxed);
    let (start, odd) = (choose(n as u64), choose(n as u64));
    let mut alts: Vec<_> = (0..n).map(|i| {
      let mut k = ((start + i) % n) as u8 + 1;
      if i == odd { k = choose(n as u64 + 1) as u8; }
      Pat::zero(c_(k), 100 + i as u32)
    }).collect();
    if any_bool() {
      let rest = alts.split_off(n / 2);
      alts.insert(n / 4, Pat::or(rest, 1));
    }
    let mut pats = vec![Pat::or(alts, 0)];
    let one = Pat::zero(c_(choose(3) as u8), 2);
    if any_bool() { pats.insert(0, one); } else { pats.push(one); }
    cover("many alternatives");
    verify(pats, Int, 1)
  }
  /// `n` patterns, each deeper than the other, one of them arbitrary
  fn h_deep(n) {
    let nest = |k: usize, last: Pat<L>| (0..k).fold(last, |p, i| Pat::con(c_(2), vec![p], 1000 + (n * n + i) as u32));
    let (down, odd) = (any_bool(), choose(n as u64));
    let mut pats: Vec<_> = (0..n).map(|i| {
      let k = if down { n - 1 - i } else { i };
      let last = if i == odd { match choose(4) {
        0 => Pat::zero(c_(0), i as u32),
        1 => Pat::or(vec![Pat::zero(c_(1), 500), Pat::con(c_(2), vec![Pat::zero(c_(choose(2) as u8), 501)], 502)], i as u32),
        2 => Pat::con(c_(2), vec![], i as u32),
        _ => return nest(choose(n as u64), Pat::zero(c_(1), i as u32)),
      } } else { Pat::zero(c_(1), i as u32) };
      (0..k).fold(last, |p, j| Pat::con(c_(2), vec![p], (i * 1000 + 2000 + j) as u32))
    }).collect();
    if any_bool() { pats.push(nest(n, Pat::zero(c_(0), 900))); }
    cover("deep patterns");
    verify(pats, Nat, n + 1)
  }
  /// `n` patterns of many arguments, three of them arbitrary
  fn h_args(n) {
    let pats = (0..n as u32).map(|i| {
      let known = i > 0 || any_bool();
      let left = if i == 0 { [21, 9][choose(2)] } else { 21 };
      let args = (0..left).map(|a| Pat::zero(c_(if matches!(a, 3 | 9 | 17) { below(3) as u8 } else { u8::from(known) }), i * 100 + a)).collect();
      Pat::con(c_(1), args, i * 100 + 50)
    }).collect();
    cover("many arguments");
    verify(pats, Wide, 1)
  }
  /// type*1000 + patterns*100 + nesting depth*10 + alternatives
  fn h_check(n) {
    let (t, k, depth, ors) = (ty(n / 1000), n / 100 % 10, n / 10 % 10, n % 10);
    let mut g = Gen { next: 0, modulo: 1000, none: false, ors, bad: false, drop: false };
    let pats = (0..k).map(|_| g.pat(t, depth)).collect();
    verify(pats, t, depth)
  }
  /// the same, indices shared between patterns, some without an index, and some arguments left out
  fn h_shared(n) {
    let (t, k, depth, ors) = (ty(n / 1000), n / 100 % 10, n / 10 % 10, n % 10);
    let mut g = Gen { next: 0, modulo: 2, none: true, ors, bad: false, drop: true };
    let pats = (0..k).map(|_| g.pat(t, depth)).collect();
    verify(pats, t, depth)
  }
  /// malformed patterns, and a language that reports an error
  fn h_bad(n) {
    let (t, k, depth, ors) = (ty(n / 1000), n / 100 % 10, n / 10 % 10, n % 10);
    let mut g = Gen { next: 0, modulo: 1000, none: false, ors, bad: true, drop: false };
    let pats: Vec<_> = (0..k).map(|_| g.pat(t, depth)).collect();
    let (fs, fa) = if g.bad { (choose(4) as u8, choose(4) as u8) } else { (0, 0) };
    let mut cx = Cx { fail_split: fs, fail_args: fa, asked: vec![] };
    let r = run::<L>(&mut cx, pats, t);
    // the language reports its error when asked often enough
    let failed = (fs != 0 && cx.fail_split == 0) || (fa != 0 && cx.fail_args == 0);
    check(r.is_err() == (failed || !g.bad), "P04|malformed patterns and errors of the language give an error, and nothing else does");
    if let Err(e) = r {
      if failed { check((e.0 == "split") | (e.0 == "args"), "P04|the error of the language is the one returned"); cover("error of the language"); }
      else { cover("malformed pattern"); }
    } else { cover("no error"); }
  }
  /// what patterns are printed as
  fn h_show(n) {
    let (t, depth, ors) = (ty(n / 100), n / 10 % 10, n % 10);
    let mut g = Gen { next: 0, modulo: 1000, none: false, ors, bad: false, drop: true };
    let p = fixed(g.pat(t, depth));
    let mut want = String::new();
    show(&p, &mut want);
    check(p.to_string() == want, "P05|a pattern is printed as its constructor with its arguments, or its alternatives");
    trace_str(&want);
  }
}
