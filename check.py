#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decides one property of /repo by symbolic execution.
check.py --build                        -- builds the engine (setup)

Exit 0: the property holds on everything explored, within the bounds. Exit 1 with a VIOLATION line:
a counterexample that also fails when run natively against the real code. Any other exit: no answer."""
import json, os, re, subprocess, sys, time, hashlib, fcntl, concurrent.futures, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BUILD = os.path.join(HERE, '.build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
VOCAB = {10: 'assertion', 13: 'panic'}

class NoAnswer(Exception): pass
class Rejected(Exception):
    """The generator failed on the grammar, or what it generated lacks what the grammar calls for."""

def env(target, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER'): del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', **kw)
    return e

def run(cmd, cwd, e, what, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        t = r.stdout
        # the harness around generated code, or that code, does not compile, though all of /repo does; or the generator panicked
        if cwd.endswith('/harness/gen') and (re.search(r'could not compile `h-gen`', t) and re.search(r'^error(\[E\d+\])?:', t, re.M) or re.search(r"build-script-build` .*\n(.*\n)*.*panicked at .*crates/(syntax-gen|write-rs-tokens|identifier-case|char-name|fast-hash)", t)) and not re.search(r'^error: (could not (write|create)|linking)|No space left|SIGKILL|signal: ', t, re.M):
            raise Rejected(t[-6000:])
        raise NoAnswer(f'{what} failed:\n' + t[-4000:])
    return r.stdout

def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def engine():
    with lock('engine'):
        t = os.path.join(BUILD, 'engine')
        run(['cargo', 'build', '--release', '--offline'], os.path.join(HERE, 'engine'), env(t), 'building the engine')
        return os.path.join(t, 'release', 'sx')

PROF = {'dev': {}, 'rel': {'CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS': 'false', 'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'false'}}

def feat_args(features): return ['--features', features] if features else []

def key(area, features, prof): return area + ('+' + features.replace(',', '+').replace('/', '-') if features else '') + '.' + prof

def manifest_dir(area): return os.path.join(HERE, 'harness', area)

def bitcode(area, features, prof):
    """Compiles the harness together with /repo's current tree and std to one optimised LLVM module."""
    k = key(area, features, prof)
    with lock(k):
        t = os.path.join(BUILD, k)
        d = manifest_dir(area)
        # the output is always remade: a stale module must never be checked
        out = os.path.join(t, 'release', 'deps', 'h.bc')
        if os.path.exists(out): os.remove(out)
        subprocess.run(['find', os.path.join(t, 'release', '.fingerprint'), '-maxdepth', '1', '-name', 'h-*', '-exec', 'rm', '-rf', '{}', '+'], stderr=subprocess.DEVNULL)
        run(['cargo', 'rustc', '--offline', '--locked', '--release', '--lib', *feat_args(features), '--', '--emit=llvm-bc', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
            d, env(t, **PROF[prof]), f'compiling harness {k} to bitcode')
        if not os.path.exists(out): raise NoAnswer(f'no bitcode for {k}')
        return out

def native(area, features, prof):
    k = key(area, features, prof) + '.native'
    with lock(k):
        t = os.path.join(BUILD, k)
        f = 'native' + (',' + features if features else '')
        run(['cargo', 'build', '--offline', '--locked', '--release', '--bin', 'replay', '--features', f], manifest_dir(area),
            env(t, CARGO_PROFILE_RELEASE_LTO='off', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='16', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', **PROF[prof]), f'compiling the replay of {k}')
        return os.path.join(t, 'release', 'replay')

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def replay(binary, entry, arg, inputs, timeout=20, pid=''):
    """Runs the harness natively. Returns (kind, trace, text)."""
    a = ','.join(f'{w}:{v}' for w, v in inputs)
    scratch = os.path.join(BUILD, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([binary, entry, str(arg), a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=scratch, preexec_fn=limits, errors='replace', text=True, env=dict(os.environ, SYM_PROP=pid))
    except subprocess.TimeoutExpired:
        return 'hang', None, 'no termination natively'
    tr = None
    for l in r.stdout.splitlines():
        if l.startswith('TRACE'): tr = l[5:].strip()
    kind = {0: 'ok', 10: 'assertion', 11: 'assume', 12: 'panic-ok', 13: 'panic', 14: 'inputs'}.get(r.returncode, f'died({r.returncode})')
    return kind, tr, r.stdout.strip()[-1500:]

def main():
    if sys.argv[1] == '--build':
        engine()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import registry
    P = registry.PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evf = os.path.join(HERE, 'evidence', pid + '.json')
    budget = 420 if tier == 'quick' else 3000
    if os.environ.get('SX_BUDGET'): budget = int(os.environ['SX_BUDGET'])
    profs = lambda j: j.qprofs if tier == 'quick' else ['dev', 'rel']
    areas = sorted({(j.area, j.features, p) for j in P.jobs for p in profs(j)})
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(engine)
        fb = {(a, f, p): ex.submit(bitcode, a, f, p) for a, f, p in areas}
        fn = {(a, f, p): ex.submit(native, a, f, p) for a, f, p in areas}
        sx = fe.result()
        bc = {k: v.result() for k, v in fb.items()}
        nat = {k: v.result() for k, v in fn.items()}
    build_s = time.time() - t0
    runs, covers, files, functions = [], {}, {}, set()
    validated = 0
    samples = []
    known = registry.known(pid)
    violation = None
    for j in P.jobs:
        plan = j.quick if tier == 'quick' else j.thorough
        for prof in profs(j):
            for n, (arg, must) in enumerate(plan):
                if tier == 'quick' and prof == 'rel' and arg not in j.qrel: continue
                left = budget - (time.time() - t0)
                if not must and left < 10:
                    runs.append(dict(entry=j.entry, area=j.area, profile=prof, bound=arg, status='not run (out of time)'))
                    continue
                tl = int(max(60, left)) if must else int(min(left, j.limit(tier)))
                out = os.path.join(BUILD, f'{pid}-{j.area}-{j.entry}-{arg}-{prof}.json')
                k = (j.area, j.features, prof)
                cmd = [sx, '--bc', bc[k], '--entry', j.entry, '--arg', str(arg), '--threads', str(os.environ.get('SX_THREADS', 8)), '--time-limit', str(tl), '--out', out,
                       '--seed', str(seed), '--samples', '30', '--selfcheck', '--steps', str(j.steps), '--filter', '/repo/crates/', '--prop', pid, '--conc', str(j.conc), '--ite', str(j.ite)]
                try: r = subprocess.run(cmd, stderr=subprocess.PIPE, text=True, timeout=tl + 200)
                except subprocess.TimeoutExpired: raise NoAnswer(f'{j.entry}({arg}): the engine did not stop')
                sys.stderr.write(r.stderr)
                if not os.path.exists(out): raise NoAnswer(f'{j.entry}({arg}): engine exit {r.returncode}\n{r.stderr[-2000:]}')
                o = json.load(open(out))
                os.remove(out)
                st = o['status']
                # replay: counterexamples first
                for v in o['violations']:
                    kind, tr, text = replay(nat[k], j.entry, arg, v['inputs'], 20, pid)
                    want = 'assertion' if v['msg'].startswith('assertion') else 'panic' if v['msg'].startswith('panic') else 'hang' if v['msg'].startswith('no termination') else 'died'
                    ok = kind == want or (want in ('died', 'panic', 'assertion') and kind in ('panic', 'assertion') ) or (want in ('died',) and kind.startswith('died')) or kind.startswith('died')
                    if want == 'hang' and kind.startswith('died'): ok = True
                    if not ok: raise NoAnswer(f'{j.entry}({arg}): the counterexample does not reproduce natively ({v["msg"]}; inputs {v["inputs"]}; native: {kind} {text})')
                    rel = None
                    if prof == 'dev':
                        try: rel = replay(native(j.area, j.features, 'rel'), j.entry, arg, v['inputs'], 20, pid)[0]
                        except NoAnswer: rel = 'not built'
                    rd = os.path.join(HERE, 'evidence', 'replay')
                    os.makedirs(rd, exist_ok=True)
                    rp = os.path.join(rd, f'{pid}-{j.entry}-{arg}.json')
                    json.dump(dict(property=pid, area=j.area, features=j.features, entry=j.entry, arg=arg, profile=prof, message=v['msg'], inputs=v['inputs'], native=kind, native_without_debug_assertions=rel, native_output=text,
                                   replay=f'SYM_PROP={pid} {nat[k]} {j.entry} {arg} ' + ','.join(f'{w}:{x}' for w, x in v['inputs'])), open(rp, 'w'), indent=1)
                    violation = (rp, v['msg'], text)
                if st == 'error' and not violation: raise NoAnswer(f'{j.entry}({arg}): {o["errors"]}')
                if not violation:
                    if st == 'unknown': raise NoAnswer(f'{j.entry}({arg}): the solver gave up on {o["unknown"]} queries')
                    if st == 'timeout' and must: raise NoAnswer(f'{j.entry}({arg}): out of time after {o["paths"]} paths')
                    # sampled paths, natively
                    def one(s):
                        kind, tr, text = replay(nat[k], j.entry, arg, s['inputs'], pid=pid)
                        wk = 'ok' if s['end'] == 'ok' else 'panic-ok'
                        return kind == wk and tr == ','.join(s['trace']), kind, tr, text, s
                    with concurrent.futures.ThreadPoolExecutor(8) as ex:
                        for ok, kind, tr, text, s in ex.map(one, o['samples']):
                            if not ok: raise NoAnswer(f'{j.entry}({arg}): native run differs from the symbolic one: {kind} [{tr}] against {s["end"]} {s["trace"]}; inputs {s["inputs"]}; {text}')
                            validated += 1
                    if n == len(plan) - 1 or must:
                        for s in o['samples'][:2]: samples.append(dict(entry=j.entry, bound=arg, inputs=[[w, str(v)] for w, v in s['inputs']][:200], end=s['end'], trace=s['trace'][:60], replayed_natively=True))
                for c, x in o['covers'].items(): covers[c] = covers.get(c, 0) + x
                for f, ls in o['files'].items(): files.setdefault(f.replace('/repo/', ''), set()).update(ls)
                functions.update(f for f in o['functions'])
                runs.append(dict(entry=j.entry, area=j.area, features=j.features, profile=prof, bound=arg, bound_means=j.what,
                                 status={'ok': 'all paths explored, every query answered', 'timeout': 'incomplete: out of time, nothing claimed'}.get(st, st),
                                 **{x: o[x] for x in ('paths', 'dead', 'panics_ok', 'decisions', 'forks', 'asserts', 'asserts_symbolic', 'queries', 'cached', 'sat', 'unsat', 'solver_s', 'max_query_s', 'wall_s', 'steps', 'max_decisions', 'max_inputs', 'functions_executed')}))
                if violation: break
                if st == 'timeout': break
            if violation: break
        if violation: break
    missing = [c for c in P.covers if c not in covers] if not violation else []
    done = [r for r in runs if 'paths' in r]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
        assumptions=P.assumptions + registry.COMMON_ASSUMPTIONS,
        coverage=dict(
            states=sum(r['paths'] + r['dead'] for r in done), transitions=sum(r['decisions'] for r in done),
            traces_validated_against_impl=validated, samples=samples[:12] or [dict(none='no path completed')],
            meaning='states: symbolic paths run to their end; transitions: branch, switch and value decisions taken on symbolic conditions; traces_validated_against_impl: solver models of sampled paths re-run natively, with equal outcome and trace',
            bounds=P.bounds, runs=runs,
            queries=sum(r['queries'] for r in done), queries_answered_from_cache=sum(r['cached'] for r in done), solver_s=round(sum(r['solver_s'] for r in done), 2), max_query_s=max([r['max_query_s'] for r in done] or [0]),
            assertions_discharged=sum(r['asserts'] for r in done), assertions_symbolic=sum(r['asserts_symbolic'] for r in done),
            exhaustive=not violation and all(r.get('status', '').startswith('all paths') for r in runs),
            reached=covers, required_reached=P.covers,
            source_lines_executed={f: len(v) for f, v in sorted(files.items())}, functions_encoded=sorted(f for f in functions if any(f.startswith(c) or ('::' + c + '::') in f for c in P.crates)) , functions_encoded_total=len(functions),
            solver='Z3 5.3 (libz3, incremental bit-vector solver)', build_s=round(build_s, 2)))
    json.dump(ev, open(evf, 'w'), indent=1)
    if violation:
        rp, msg, text = violation
        print(f'{pid}: {msg}')
        print(text)
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if missing: raise NoAnswer(f'vacuous: never reached {missing}')
    for k in known: print(f'KNOWN-FINDING: property={pid} {k}')
    tot = ev['coverage']
    print(f'{pid}: holds within the bounds ({tot["states"]} paths, {tot["queries"]} queries, {tot["solver_s"]}s solver, {validated} replays, {ev["wall_s"]}s)')
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Rejected as e:
        pid = sys.argv[1]
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f'{pid}-generated.txt')
        open(rp, 'w').write(f'cd harness/gen && cargo build --offline --release\n\n{e}')
        json.dump(dict(property=pid, tier=sys.argv[2] if len(sys.argv) > 2 else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=0, violations=1, assumptions=[],
            coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[dict(rejected=str(e)[-1500:])])), open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        print(f'{pid}: the generator fails on the grammar of the harness, or the code it generates lacks what the grammar calls for')
        print(str(e)[-1500:])
        print(f'VIOLATION property={pid} replay={rp}')
        sys.exit(1)
    except NoAnswer as e:
        print(f'NO ANSWER: {e}')
        sys.exit(2)
