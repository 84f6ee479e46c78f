#!/usr/bin/env python3
"""bugs.py make [ID...]   -- (re)creates /verif/seeded/ID from the specs in tools/bugs/*.py and confirms each in a scratch copy:
                            builds, stable tests pass, demo passes without and fails with the change
bugs.py check [ID...]  -- applies each to a copy of /repo, runs the quick check of its property there"""
import sys, os, subprocess, json, glob, shutil, time, queue, threading
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
SEED = os.path.join(V, 'seeded')
B = {}
def bug(id, prop, edits, needs, breaks, deps, demo, manifest='', build=''):
    """edits: [(file under crates/, old, new)]; demo: the body of a Rust file; deps: crate lines"""
    assert id not in B, id
    B[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, deps=deps, demo=demo, manifest=manifest, build=build)
for f in sorted(glob.glob(os.path.join(HERE, 'bugs', '*.py'))): exec(compile(open(f).read(), f, 'exec'))
DEMO = '''#!/bin/bash
# Run with cwd /repo. Exit 0: the property holds in the situation main.rs sets up.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
if [ -f "$here/build.rs" ]; then cp "$here/build.rs" "$d/build.rs"; fi
sed "s#@REPO@#$repo#g" "$here/manifest.txt" > "$d/Cargo.toml"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$d/Cargo.lock" 2>/dev/null
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''
def sh(cmd, cwd, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)
    return r.returncode, r.stdout
def make(ids):
    wt = '/tmp/bugwt'
    sh(f'rm -rf {wt}; cp -a /repo {wt}; git -C {wt} checkout -q -- .', '/tmp')
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR='/tmp/bugwt/target', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    bad = []
    for i in ids:
        b = B[i]
        d = os.path.join(SEED, i)
        os.makedirs(d, exist_ok=True)
        sh('git checkout -q -- .', wt)
        for f, old, new in b['edits']:
            p = os.path.join(wt, 'crates', f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', wt)[1])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'main.rs'), 'w').write(b['demo'].strip() + '\n')
        if b['build']: open(os.path.join(d, 'build.rs'), 'w').write(b['build'].strip() + '\n')
        open(os.path.join(d, 'manifest.txt'), 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n' + ''.join(x.replace(':', ' = ', 1) + '\n' if ':' in x else f'{x}.path = "@REPO@/crates/{x}"\n' for x in b['deps'].split()) + b['manifest'])
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        msg = []
        rc, o = sh('cargo build --workspace --offline && cargo test --workspace --no-run --offline && cargo check --workspace --all-features --offline', wt, e)
        if rc: msg.append('BUILD ' + o[-1500:])
        rc, o = sh('cargo test --workspace --no-fail-fast --offline', wt, e)
        if rc: msg.append('TESTS ' + o[-1500:])
        rc, o = sh('bash ' + os.path.join(d, 'demo.sh'), wt)
        if rc == 0: msg.append('DEMO passes with the change')
        dead = o[-300:]
        if rc == 101 and 'panicked' not in o: msg.append('DEMO ' + o[-800:])
        sh('git checkout -q -- .', wt)
        rc, o = sh('bash ' + os.path.join(d, 'demo.sh'), wt)
        if rc: msg.append('DEMO fails unchanged ' + o[-1500:])
        print(i, b['prop'], 'ok' if not msg else '\n'.join(msg), flush=True)
        if msg: bad.append(i)
    shutil.rmtree(wt)
    if bad: print('BAD', bad)
def check(ids):
    """In copies of /repo and /verif, bound over them in a namespace of their own."""
    n = int(os.environ.get('WORKERS', 2))
    q = queue.Queue()
    for i in ids: q.put(i)
    lock = threading.Lock()
    C = os.path.join(HERE, 'bugs', 'caught.json')
    def work(w):
        d = f'/tmp/bugw/{w}'
        sh(f'rm -rf {d}; mkdir -p {d}; cp -a /repo {d}/repo; git -C {d}/repo checkout -q -- .; mkdir {d}/verif; cp -a {V}/*.py {V}/*.json* {V}/props {V}/engine {V}/harness {V}/tools {V}/.build {d}/verif/', '/tmp')
        while True:
            try: i = q.get_nowait()
            except queue.Empty: break
            b = json.load(open(os.path.join(SEED, i, 'meta.json')))
            sh('git checkout -q -- .', d + '/repo')
            rc, o = sh(f'git apply {SEED}/{i}/patch.diff', d + '/repo')
            if rc: print(i, 'does not apply', o, flush=True); continue
            t = time.time()
            try:
                rc, o = sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {b['property']} quick'", '/tmp', timeout=1000)
            except subprocess.TimeoutExpired: rc, o = 99, 'timeout'
            m = [l for l in o.splitlines() if l.startswith(b['property'] + ':')]
            v = [l for l in o.splitlines() if l.startswith(('VIOLATION', b['property'] + ':', 'NO ANSWER'))]
            with lock:
                c = json.load(open(C)) if os.path.exists(C) else {}
                c[i] = m[0].split(' [')[0][len(b['property']) + 2:] if rc == 1 and m else ('missed' if rc == 0 else 'no answer')
                json.dump(c, open(C, 'w'), indent=1, sort_keys=True)
                print(i, b['property'], {0: 'MISSED', 1: 'caught'}.get(rc, f'ERROR {rc}'), f'{time.time()-t:.0f}s', (' / '.join(v) if v else o[-600:])[:300], flush=True)
        shutil.rmtree(d)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(min(n, len(ids)))]
    for t in ts: t.start()
    for t in ts: t.join()
ids = sys.argv[2:]
if ids and ids[0].startswith('@'): ids = [i for i in B if B[i]['prop'] in ids[0][1:].split(',')]
(make if sys.argv[1] == 'make' else check)(ids or sorted(B if sys.argv[1] == 'make' else os.listdir(SEED)))
