PA, PM, PT = 'pattern-match/src/alg.rs', 'pattern-match/src/matrix.rs', 'pattern-match/src/types.rs'
PLANG = r'''
use pattern_match::{Check, CheckError, Lang, Pat, Result, check};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum T { Bool, Pair, Quad }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum C { Any, No, Yes, Two, Ctor(u8) }
impl std::fmt::Display for C { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
enum L {}
impl Lang for L {
  /// the call of get_arg_tys that fails
  type Cx = usize;
  type PatIdx = u32;
  type Con = C;
  type Ty = T;
  fn any() -> C { C::Any }
  fn split<'a, I: Iterator<Item = &'a C>>(_: &mut usize, ty: &T, con: &C, _: I, _: usize) -> Result<Vec<C>> {
    Ok(match (con, ty) { (C::Any, T::Bool) => vec![C::No, C::Yes], (C::Any, T::Pair) => vec![C::Two], (C::Any, T::Quad) => (0..5).map(C::Ctor).collect(), _ => vec![*con] })
  }
  fn get_arg_tys(cx: &mut usize, _: &T, con: &C) -> Result<Vec<T>> {
    if *cx > 0 { *cx -= 1; if *cx == 0 { return Err(CheckError("the language failed")); } }
    Ok(match con { C::Two => vec![T::Bool, T::Bool], _ => vec![] })
  }
  fn covers(l: &C, r: &C) -> bool { *l == C::Any || l == r }
}
fn z(c: C, i: u32) -> Pat<L> { Pat::zero(c, i) }
fn go(v: Vec<Pat<L>>, t: T) -> Check<L> { check(&mut 0, v, t).unwrap() }
#[allow(dead_code)]
fn all() { let _ = (go(vec![z(C::Any, 0), z(C::No, 1), z(C::Yes, 2), z(C::Two, 3), z(C::Ctor(0), 4)], T::Pair), T::Quad, CheckError("")); }
'''
bug('p-args-pad', 'P01', [(PA, '''pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();''', '''std::iter::repeat_n(Pat::any_no_idx(), tys.len() - pat.args.len()).chain(pat.args.iter().cloned()).zip(tys).collect();''')],
  'a constructor pattern that leaves arguments out', 'The arguments given are matched against the last ones of the constructor, not the first.', 'pattern-match', PLANG + r'''
fn main() {
  // (no, ...) and (yes, yes): missing is (yes, no)
  let r = go(vec![Pat::con(C::Two, vec![z(C::No, 1)], 2), Pat::con(C::Two, vec![z(C::Yes, 3), z(C::Yes, 4)], 5)], T::Pair);
  assert_eq!(r.missing.iter().map(|p| p.to_string()).collect::<Vec<_>>(), ["Two(Yes, No)"]);
}''')
bug('p-or-in-or', 'P01', [(PM, '''      for pat in pats {
        expand_or(ac, pat);
      }''', '''      ac.extend(pats.into_iter().filter_map(|p| match p.raw {
        RawPat::Con(p) => Some(p),
        RawPat::Or(_) => None,
      }));''')], 'an or-pattern directly in an or-pattern', 'What a nested or-pattern matches is reported missing.', 'pattern-match', PLANG + r'''
fn main() {
  let r = go(vec![Pat::or(vec![z(C::No, 0), Pat::or(vec![z(C::Yes, 1)], 2)], 3)], T::Bool);
  assert!(r.missing.is_empty());
}''')
bug('p-or-nested-sibling', 'P03', [(PA, '''        m.push(val.into_iter().map(|(x, _)| x).collect());''', '''        // at the top, alternatives see the ones before
        if depth == 0 {
          m.push(val.into_iter().map(|(x, _)| x).collect());
        }''')], 'an or-pattern that is an argument, with an alternative that those before it cover', 'The alternative is not reported unreachable.', 'pattern-match', PLANG + r'''
fn main() {
  let r = go(vec![Pat::con(C::Two, vec![Pat::or(vec![z(C::Any, 0), z(C::Yes, 1)], 2), z(C::Any, 3)], 4)], T::Pair);
  assert!(r.unreachable.contains(&1) && r.unreachable.len() == 1);
}''')
bug('p-few-witnesses', 'P02', [(PA, '''    self.witnesses.extend(other.witnesses);''', '''    self.witnesses.extend(other.witnesses);
    // enough to show
    self.witnesses.truncate(3);''')], 'more than three missing patterns', 'Some missing patterns are left out.', 'pattern-match', PLANG + r'''
fn main() {
  let r = go(vec![z(C::Ctor(2), 0)], T::Quad);
  assert_eq!(r.missing.len(), 4);
}''')
bug('p-row-error', 'P04', [(PA, '''          let new = specialize(cx, &ty, &row.con_pat, &con)?;
          if let Some(new) = new {''', '''          // a row that does not make sense covers nothing
          if let Ok(Some(new)) = specialize(cx, &ty, &row.con_pat, &con) {''')], 'the language fails on a row seen before, not on the pattern itself', 'The error is swallowed.', 'pattern-match', PLANG + r'''
fn main() {
  // every call that is made can fail
  let pats = || vec![z(C::No, 0), z(C::No, 1), z(C::Yes, 2)];
  for n in 1..6 { assert!(check::<L>(&mut n.clone(), pats(), T::Bool).is_err(), "{n}"); }
}''')
bug('p-show-or', 'P05', [(PT, '''write!(f, " | {pat}")?;''', '''match &pat.raw {
            RawPat::Con(c) => write!(f, " | {c}")?,
            RawPat::Or(_) => write!(f, " | ({pat})")?,
          }''')], 'an or-pattern in an or-pattern, not as the first', 'It is printed in parentheses.', 'pattern-match', PLANG + r'''
fn main() {
  let p = Pat::<L>::or(vec![z(C::No, 0), Pat::or(vec![z(C::Yes, 1), z(C::Any, 2)], 3)], 4);
  assert_eq!(p.to_string(), "No | Yes | Any");
}''')
bug('p-index-depth', 'P03', [(PA, '''  for pat in &pats {
    get_pat_indices(&mut ac, pat);
  }
''', '''  for pat in &pats {
    get_pat_indices(&mut ac, pat);
    if let RawPat::Or(alts) = &pat.raw {
      // a single alternative is the pattern
      if let [Pat { idx: Some(idx), .. }] = alts.as_slice() {
        ac.remove(idx);
      }
    }
  }
''')], 'an or-pattern with one alternative that is unreachable', 'The alternative is not reported.', 'pattern-match', PLANG + r'''
fn main() {
  let r = go(vec![z(C::Any, 0), Pat::or(vec![z(C::Yes, 1)], 2)], T::Bool);
  assert!(r.unreachable.contains(&1) && r.unreachable.contains(&2));
}''')
