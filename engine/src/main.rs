//! sx: symbolic execution of whole-program LLVM bitcode with Z3.
mod exec;
mod expr;
mod ir;
mod llvm;
mod solver;

use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Sample { inputs: Vec<(u32, u128)>, trace: Vec<u128>, end: &'static str, key: u64 }
struct Bad { inputs: Vec<(u32, u128)>, trace: Vec<u128>, msg: String }

struct Shared {
  queue: VecDeque<Item>,
  idle: usize,
  stop: bool,
  why: &'static str,
  bad: Vec<Bad>,
  errors: Vec<String>,
  samples: Vec<Sample>,
  totals: Totals,
  stats: solver::Stats,
  covers: BTreeMap<String, u64>,
  visited: Vec<u8>,
  prof: BTreeMap<(u32, u32), u64>,
  pending: usize,
}

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn ins_json(v: &[(u32, u128)]) -> String { format!("[{}]", v.iter().map(|x| format!("[{},\"{}\"]", x.0, x.1)).collect::<Vec<_>>().join(",")) }
fn tr_json(v: &[u128]) -> String { format!("[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")) }

fn main() {
  let mut a: BTreeMap<String, String> = BTreeMap::new();
  let args: Vec<String> = std::env::args().skip(1).collect();
  let mut i = 0;
  while i < args.len() {
    let k = args[i].trim_start_matches("--").to_string();
    if matches!(k.as_str(), "profile" | "selfcheck" | "verbose") { a.insert(k, "1".into()); i += 1; } else { a.insert(k, args.get(i + 1).cloned().unwrap_or_default()); i += 2; }
  }
  let get = |k: &str, d: u64| a.get(k).map_or(d, |s| s.parse().unwrap_or_else(|_| panic!("--{k} {s}")));
  let bc = a.get("bc").expect("--bc");
  let entry = a.get("entry").expect("--entry");
  let filter = a.get("filter").cloned().unwrap_or("/repo/crates/".into());
  let t0 = Instant::now();
  let m = match llvm::parse(bc) { Ok(m) => m, Err(e) => { eprintln!("sx: cannot read {bc}: {e}"); std::process::exit(3) } };
  let p: &'static ir::Prog = match ir::Tr::module(m, &filter) { Ok(p) => Box::leak(Box::new(p)), Err(e) => { eprintln!("sx: translation: {e}"); std::process::exit(3) } };
  let t_load = t0.elapsed();
  let Some(&ei) = p.by_name.get(entry) else { eprintln!("sx: no entry {entry}"); std::process::exit(3) };
  let arg = get("arg", 0);
  let threads = get("threads", 8) as usize;
  let limit = Duration::from_secs(get("time-limit", 600));
  let max_paths = get("max-paths", u64::MAX);
  let nsamples = get("samples", 40) as usize;
  let max_bad = get("max-violations", 1) as usize;
  let seed = get("seed", 1);
  let sh = Mutex::new(Shared {
    queue: VecDeque::from([Item { inputs: vec![], prefix: 0, hash: 0, implied: vec![], depth: 0 }]),
    idle: 0, stop: false, why: "", bad: vec![], errors: vec![], samples: vec![], totals: Totals::default(), stats: Default::default(),
    covers: BTreeMap::new(), visited: vec![0; p.nblocks as usize], prof: BTreeMap::new(), pending: 0,
  });
  let cv = Condvar::new();
  let (steps, depth, conc, ite, tmo) = (get("steps", 20_000_000), get("depth", 3000) as usize, get("conc", 300) as usize, get("ite", 4096) as usize, get("solver-ms", 60_000) as u32);
  let (profile, selfcheck) = (a.contains_key("profile"), a.contains_key("selfcheck"));
  let dump = a.get("dump").cloned();
  let hungry = std::sync::atomic::AtomicUsize::new(1);
  let stop_flag = std::sync::atomic::AtomicBool::new(false);
  let npaths = std::sync::atomic::AtomicU64::new(0);
  use std::sync::atomic::Ordering::Relaxed;
  std::thread::scope(|s| {
    for _ in 0..threads {
      std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
        let mut x = Exec::new(p, Limits { steps, depth, conc, ite }, tmo);
        x.selfcheck = selfcheck;
        x.prop = a.get("prop").cloned();
        x.s.dump = dump.clone();
        if profile { x.prof = Some(Default::default()); }
        let mut local: VecDeque<Item> = VecDeque::new();
        let mut samples: Vec<Sample> = Vec::new();
        'work: loop {
          let it = match local.pop_back() {
            Some(it) => it,
            None => {
              let mut g = sh.lock().unwrap();
              loop {
                if g.stop { break 'work; }
                if let Some(it) = g.queue.pop_front() { hungry.store(g.idle, Relaxed); break it; }
                g.idle += 1;
                hungry.store(g.idle, Relaxed);
                if g.idle == threads { g.stop = true; cv.notify_all(); break 'work; }
                g = cv.wait(g).unwrap();
                if g.stop { break 'work; }
                g.idle -= 1;
                hungry.store(g.idle, Relaxed);
              }
            }
          };
          let end = x.run(&it, ei, arg);
          let over = t0.elapsed() > limit || npaths.load(Relaxed) > max_paths;
          match &end {
            End::Ok | End::PanicOk => {
              npaths.fetch_add(1, Relaxed);
              // a deterministic pseudo-random choice of paths to replay natively
              let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15);
              for i in &x.inputs { h = (h.rotate_left(9) ^ i.1 as u64).wrapping_mul(0x517cc1b727220a95); }
              h ^= h >> 31;
              if samples.len() < nsamples || h < samples.last().unwrap().key {
                samples.push(Sample { inputs: x.inputs.clone(), trace: x.trace.clone(), end: if end == End::Ok { "ok" } else { "panic" }, key: h });
                samples.sort_by_key(|s| s.key);
                samples.truncate(nsamples);
              }
            }
            End::Dead => {}
            End::Violation(msg) => {
              let mut g = sh.lock().unwrap();
              if g.bad.len() < max_bad { g.bad.push(Bad { inputs: x.inputs.clone(), trace: x.trace.clone(), msg: format!("{msg} [{}]", x.wher()) }); }
              if g.bad.len() >= max_bad && !g.stop { g.stop = true; g.why = "violation"; stop_flag.store(true, Relaxed); cv.notify_all(); }
            }
            End::Engine(msg) => {
              let mut g = sh.lock().unwrap();
              if g.errors.len() < 20 { g.errors.push(format!("{msg} [{}]", x.wher())); }
              g.stop = true; g.why = "error"; stop_flag.store(true, Relaxed); cv.notify_all();
            }
          }
          local.extend(x.spawned.drain(..));
          if over {
            let mut g = sh.lock().unwrap();
            if !g.stop { g.stop = true; g.why = "timeout"; }
            stop_flag.store(true, Relaxed);
            cv.notify_all();
          }
          if stop_flag.load(Relaxed) { break; }
          if hungry.load(Relaxed) > 0 && local.len() > 1 {
            let mut g = sh.lock().unwrap();
            let n = (local.len() / 2).min(64);
            for _ in 0..n { g.queue.push_back(local.pop_front().unwrap()); }
            cv.notify_all();
          }
        }
        let mut g = sh.lock().unwrap();
        g.pending += local.len();
        let t = &x.t;
        let o = &mut g.totals;
        o.paths += t.paths; o.dead += t.dead; o.panics_ok += t.panics_ok; o.decisions += t.decisions; o.forks += t.forks;
        o.asserts += t.asserts; o.asserts_sym += t.asserts_sym; o.steps += t.steps; o.unknown += t.unknown;
        o.max_steps = o.max_steps.max(t.max_steps); o.max_depth = o.max_depth.max(t.max_depth);
        o.max_inputs = o.max_inputs.max(t.max_inputs); o.max_heap = o.max_heap.max(t.max_heap);
        let st = &x.s.stats;
        let o = &mut g.stats;
        o.queries += st.queries; o.cached += st.cached; o.sat += st.sat; o.unsat += st.unsat; o.unknown += st.unknown; o.ns += st.ns; o.max_ns = o.max_ns.max(st.max_ns);
        for (_, (n, k)) in &x.covers { *g.covers.entry(n.clone()).or_default() += k; }
        for (i, v) in x.visited.iter().enumerate() { g.visited[i] |= v; }
        if let Some(pr) = &x.prof { for (k, v) in pr { *g.prof.entry(*k).or_default() += v; } }
        g.samples.append(&mut samples);
      }).unwrap();
    }
  });
  let mut g = sh.into_inner().unwrap();
  g.pending += g.queue.len();
  g.samples.sort_by_key(|s| s.key);
  g.samples.truncate(nsamples);
  let status = if !g.bad.is_empty() { "violation" } else if !g.errors.is_empty() { "error" } else if g.why == "timeout" { "timeout" } else if g.totals.unknown > 0 { "unknown" } else { "ok" };
  // lines of the code under check that some path executed
  let mut files: BTreeMap<&str, std::collections::BTreeSet<u32>> = BTreeMap::new();
  for (b, v) in g.visited.iter().enumerate() {
    if *v != 0 { for l in &p.block_lines[b] { let (f, n) = &p.lines[*l as usize]; files.entry(f).or_default().insert(*n); } }
  }
  let nf = p.funcs.iter().filter(|f| f.defined && g.visited[f.block0 as usize] != 0).count();
  let fns: Vec<String> = p.funcs.iter().filter(|f| f.defined && g.visited[f.block0 as usize] != 0).map(|f| demangle(&f.name)).collect();
  let mut o = String::new();
  let t = &g.totals;
  let st = &g.stats;
  let _ = write!(o, "{{\"status\":\"{status}\",\"entry\":{},\"arg\":{arg},\"paths\":{},\"dead\":{},\"panics_ok\":{},\"decisions\":{},\"forks\":{},\"asserts\":{},\"asserts_symbolic\":{},\"steps\":{},\"max_steps\":{},\"max_decisions\":{},\"max_inputs\":{},\"max_heap\":{},\"pending\":{},\"unknown\":{},",
    esc(entry), t.paths, t.dead, t.panics_ok, t.decisions, t.forks, t.asserts, t.asserts_sym, t.steps, t.max_steps, t.max_depth, t.max_inputs, t.max_heap, g.pending, t.unknown);
  let _ = write!(o, "\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.2},\"wall_s\":{:.2},\"functions_executed\":{nf},",
    st.queries, st.cached, st.sat, st.unsat, st.ns as f64 / 1e9, st.max_ns as f64 / 1e9, t_load.as_secs_f64(), t0.elapsed().as_secs_f64());
  let _ = write!(o, "\"covers\":{{{}}},", g.covers.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
  let _ = write!(o, "\"files\":{{{}}},", files.iter().map(|(k, v)| format!("{}:[{}]", esc(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
  let _ = write!(o, "\"functions\":[{}],", fns.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
  let _ = write!(o, "\"samples\":[{}],", g.samples.iter().map(|s| format!("{{\"end\":\"{}\",\"inputs\":{},\"trace\":{}}}", s.end, ins_json(&s.inputs), tr_json(&s.trace))).collect::<Vec<_>>().join(","));
  let _ = write!(o, "\"violations\":[{}],", g.bad.iter().map(|s| format!("{{\"msg\":{},\"inputs\":{},\"trace\":{}}}", esc(&s.msg), ins_json(&s.inputs), tr_json(&s.trace))).collect::<Vec<_>>().join(","));
  let _ = write!(o, "\"errors\":[{}]}}", g.errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
  if let Some(f) = a.get("out") { std::fs::write(f, &o).expect("write --out"); }
  eprintln!("sx: {entry}({arg}) {status}: {} paths ({} panics allowed, {} dead), {} decisions, {} asserts ({} symbolic), {} queries (+{} cached) {:.1}s solver, {} steps, {:.2}s wall (load {:.2}s)",
    t.paths, t.panics_ok, t.dead, t.decisions, t.asserts, t.asserts_sym, st.queries, st.cached, st.ns as f64 / 1e9, t.steps, t0.elapsed().as_secs_f64(), t_load.as_secs_f64());
  for b in &g.bad { eprintln!("  violation: {} inputs={:?}", b.msg, b.inputs.iter().map(|x| x.1).collect::<Vec<_>>()); }
  for b in &g.errors { eprintln!("  error: {b}"); }
  if a.contains_key("verbose") { for (k, v) in &g.covers { eprintln!("  cover {k}: {v}"); } }
  if profile {
    let mut v: Vec<_> = g.prof.iter().map(|(k, n)| (*n, *k)).collect();
    v.sort_unstable_by(|a, b| b.cmp(a));
    for (n, (f, pc)) in v.into_iter().take(40) { eprintln!("  {n:8} {}+{pc} {}", demangle(&p.funcs[f as usize].name), p.funcs[f as usize].locs.get(pc as usize - 1).map_or("", |l| &p.dbg[*l as usize])); }
  }
  std::process::exit(match status { "ok" => 0, "violation" => 1, "timeout" => 4, _ => 3 });
}
