# bugs that need something large: many changes, layers, alternatives, arguments, children, paths, elements
bug('a-many', 'A01', [('apply-changes/src/lib.rs', '''  let mut index_valid = u32::MAX;
  for change in changes {''', '''  let mut index_valid = u32::MAX;
  let mut rebuilt = 0u8;
  for change in changes {'''), ('apply-changes/src/lib.rs', '''    if index_valid <= range.end.line {
      pos_db''', '''    if index_valid <= range.end.line && rebuilt < 16 {
      rebuilt += 1;
      pos_db''')], 'a list of more than 17 changes on the same line', 'The index is not made again for the later ones.', 'apply-changes text-pos', r'''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
use apply_changes::{get, Change};
fn main() {
  let mut s = String::new();
  get(&mut s, (0..40).map(|i| { let p = P { line: 0, col: i }; Change { range: Some(R { start: p, end: p }), text: "x".to_owned() } }).collect());
  assert_eq!(s, "x".repeat(40));
}''')
bug('c-merge-top', 'C01', [('chain-map/src/lib.rs', '''    self.stack.push(Rc::new(map([(k, v)])));
    is_new''', '''    self.stack.push(Rc::new(map([(k, v)])));
    // keep lookups short: when there are many layers, make one of the newest two
    if self.stack.len() > 20 {
      let newest = self.stack.pop().expect("just pushed");
      let below = self.stack.pop().expect("many layers");
      match (Rc::try_unwrap(newest), Rc::try_unwrap(below)) {
        (Ok(mut newest), Ok(below)) => {
          newest.extend(below);
          self.stack.push(Rc::new(newest));
        }
        (Ok(newest), Err(below)) => self.stack.extend([below, Rc::new(newest)]),
        (Err(newest), Ok(below)) => self.stack.extend([Rc::new(below), newest]),
        (Err(newest), Err(below)) => self.stack.extend([below, newest]),
      }
    }
    is_new''')], 'more than 20 layers, and a key inserted twice after that', 'The older value is found.', 'chain-map', r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::default();
  for i in 0..30 { m.insert(i, i); }
  m.insert(7, 1);
  m.insert(7, 2);
  assert_eq!(m.get(&7), Some(&2));
}''')
bug('c-seen-limit', 'C02', [('chain-map/src/lib.rs', 'if is_len_one || seen.insert(k) {', 'if is_len_one || seen.len() >= 64 || seen.insert(k) {')], 'more than 64 keys, in layers that share some', 'Iteration yields keys twice.', 'chain-map', r'''
fn main() {
  let mut m: chain_map::ChainMap<u32, u32> = (0..100).map(|i| (i, i)).collect();
  m.extend((0..100).map(|i| (i, i + 1)));
  assert_eq!(m.iter().count(), 100);
}''')
ALG = 'pattern-match/src/alg.rs'
PM = r'''
use pattern_match::*;
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Ty { Nat, Bool, Wide }
#[derive(Debug, Clone, PartialEq, Eq)]
struct C(u8);
#[derive(Debug)]
struct L;
impl Lang for L {
  type Cx = (); type PatIdx = u32; type Con = C; type Ty = Ty;
  fn any() -> C { C(0) }
  fn split<'a, I: Iterator<Item = &'a C>>(_: &mut (), ty: &Ty, con: &C, seen: I, depth: usize) -> Result<Vec<C>> {
    if con.0 != 0 { return Ok(vec![con.clone()]); }
    Ok(if depth == 0 || seen.into_iter().any(|c| c.0 != 0) { if *ty == Ty::Wide { vec![C(1)] } else { vec![C(1), C(2)] } } else { vec![C(0)] })
  }
  fn get_arg_tys(_: &mut (), ty: &Ty, con: &C) -> Result<Vec<Ty>> {
    Ok(match (ty, con.0) { (Ty::Nat, 2) => vec![Ty::Nat], (Ty::Wide, 1) => vec![Ty::Bool; 20], _ => vec![] })
  }
  fn covers(l: &C, r: &C) -> bool { l.0 == 0 || l == r }
}
'''
bug('p-alts-limit', 'P03', [(ALG, '      for pat in or_pats {\n        let mut val', '      for (i, pat) in or_pats.into_iter().enumerate() {\n        let mut val'), (ALG, '        m.push(val.into_iter().map(|(x, _)| x).collect());', '        // the first few take most of the values\n        if i < 4 {\n          m.push(val.into_iter().map(|(x, _)| x).collect());\n        }')], 'an alternative after the fifth that is the same as the fifth', 'It is not unreachable.', 'pattern-match', PM + r'''
fn main() {
  let nat = |n: usize, i| (0..n).fold(Pat::zero(C(1), i), |p, k| Pat::con(C(2), vec![p], 1000 + i * 100 + k as u32));
  let c = check::<L>(&mut (), vec![Pat::or(vec![nat(0, 0), nat(1, 1), nat(2, 2), nat(3, 3), nat(4, 4), nat(4, 5)], 9)], Ty::Nat).unwrap();
  assert!(c.unreachable.contains(&5));
}''')
bug('p-deep-limit', 'P01', [(ALG, '''  let mut ret = Useful::<Pat<L>>::no();
  let idx = pat.idx;''', '''  let mut ret = Useful::<Pat<L>>::no();
  // what is this deep is not looked at
  if depth > 9 && mtx.num_rows() > 0 {
    return Ok(ret);
  }
  let idx = pat.idx;''')], 'patterns nested more than 9 deep', 'What is missing below is not found.', 'pattern-match', PM + r'''
fn main() {
  let nat = |n: usize, i| (0..n).fold(Pat::zero(C(1), i), |p, k| Pat::con(C(2), vec![p], 1000 + i * 100 + k as u32));
  let c = check::<L>(&mut (), (0..12).map(|i| nat(i, i as u32)).collect(), Ty::Nat).unwrap();
  assert_eq!(c.missing.len(), 1);
}''')
bug('p-wide-args', 'P02', [(ALG, 'let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();', 'let args: Vec<_> = w.drain(w.len() - new_len..).rev().take(16).collect();')], 'a constructor of more than 16 arguments', 'The witness lacks arguments.', 'pattern-match', PM + r'''
fn main() {
  let c = check::<L>(&mut (), vec![], Ty::Wide).unwrap();
  let RawPat::Con(w) = &c.missing[0].raw else { panic!() };
  assert_eq!(w.args.len(), 20);
}''')
WS2 = r'''
use paths::*;
fn p(k: usize) -> CleanPathBuf { CleanPathBuf::new(std::path::Path::new(&format!("/f{k}"))).unwrap() }
'''
bug('f-id-16', 'F04', [('paths/src/lib.rs', '''      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.clone());''', '''      let id = PathId(idx::Idx::new(usize::from(self.id_to_path.len() as u16)));
      self.id_to_path.push(path.clone());''')], 'more than 65536 paths, given as owned', 'Two paths have the same identifier.', 'paths', WS2 + r'''
fn main() {
  let mut s = Store::new();
  let first = s.get_id_owned(p(0));
  for k in 1..65_536 { s.get_id_owned(p(k)); }
  assert_ne!(s.get_id_owned(p(65_536)), first);
}''')
bug('f-combine-swap', 'F05', [('paths/src/lib.rs', '''    for (idx, path) in other.id_to_path.into_iter().enumerate() {''', '''    // cheaper to add the few that are here to the many that are there
    if other.id_to_path.len() > 100 * self.id_to_path.len().max(1) {
      let here = std::mem::replace(self, other);
      for idx in 0..self.id_to_path.len() {
        f(PathId(idx::Idx::new(idx)), PathId(idx::Idx::new(idx)));
      }
      for path in here.id_to_path {
        self.get_id_owned(path);
      }
      return;
    }
    for (idx, path) in other.id_to_path.into_iter().enumerate() {''')], 'a store with a hundred times as many paths', 'The identifiers of the smaller one change.', 'paths', WS2 + r'''
fn main() {
  let (mut a, mut b) = (Store::new(), Store::new());
  let i = a.get_id_owned(p(999));
  for k in 0..150 { b.get_id_owned(p(k)); }
  a.combine(b, &mut |_, _| ());
  assert_eq!(a.get_path(i), p(999).as_clean_path());
}''')
bug('h-many-dup', 'H01', [('fast-hash/src/lib.rs', '''  let mut ret = set_with_capacity(xs.len());
  for k in xs {''', '''  let mut ret = set_with_capacity(xs.len());
  if N > 16 {
    ret.extend(xs);
    return ret;
  }
  for k in xs {''')], 'more than 16 elements, two of them equal', 'There is no panic.', 'fast-hash', r'''
fn main() { assert!(std::panic::catch_unwind(|| fast_hash::set(std::array::from_fn::<u32, 20, _>(|i| i as u32 % 19))).is_err()); }''')
bug('t-lines-many', 'T03', [('text-pos/src/lib.rs', 'self.inner.lines(range)', 'self.inner.lines(range).take(usize::from(u16::MAX))')], 'a range over more than 65535 lines', 'The last ones are missing.', 'text-pos text-size-util', r'''
fn main() {
  let s = "\n".repeat(65_540);
  let db = text_pos::PositionDb::new(&s);
  assert_eq!(db.lines(text_size_util::TextRange::new(0.into(), db.len())).count(), 65_540);
}''')
bug('d-message-long', 'D03', [('diagnostic/src/lib.rs', 'write!(f, "{}: {}: {}", self.range, self.severity, self.message)', 'write!(f, "{}: {}: {:.256}", self.range, self.severity, self.message)')], 'a message of more than 256 characters', 'It is cut off.', 'diagnostic text-pos', r'''
use text_pos::*;
fn main() {
  let p = PositionUtf16 { line: 0, col: 0 };
  let d = diagnostic::Diagnostic { range: RangeUtf16 { start: p, end: p }, severity: diagnostic::Severity::Error, message: "x".repeat(300) };
  assert!(d.to_string().ends_with(&"x".repeat(300)));
}''')
gen('y-many-nth', 'Y07', [(GS, '''        quote! { #base_body.nth(#idx) }''', '''        let idx = proc_macro2::Literal::u8_suffixed((idx % 10) as u8);
        quote! { #base_body.nth(#idx as usize) }''')], 'more than ten fields of one type', 'The eleventh accessor gives the first.', r"""Root = a:'W' b:'W' c:'W' d:'W' e:'W' f:'W' g:'W' h:'W' i:'W' j:'W' k:'W'""", r'''
fn main() {
  let t = tree(&[("Root", SK::Root), ("w", SK::W)], "(Root w:0 w:1 w:2 w:3 w:4 w:5 w:6 w:7 w:8 w:9 w:10 )");
  assert_eq!(Root::cast(t).unwrap().k().unwrap().text(), "10");
}''', special=r'''("W", "w")''')
gen('y-wide-children', 'Y07', [(GE, '''      parent.syntax().children().filter_map(C::cast)''', '''      parent.syntax().children().take(64).filter_map(C::cast)''')], 'more than 64 nodes in a node', 'The accessors do not give the later ones.', r"""Root = X* X = 'w'""", r'''
fn main() {
  let t = tree(&[("Root", SK::Root), ("X", SK::X)], &format!("(Root {})", "(X ) ".repeat(70)));
  assert_eq!(Root::cast(t).unwrap().xs().count(), 70);
}''')
