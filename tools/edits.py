#!/usr/bin/env python3
"""edits.py SET ID...   -- applies tools/edits/SET.py (edits that keep the behaviour) to a copy of /repo, runs the stable tests, and the
quick checks of the properties there, which must be quiet"""
import sys, os, subprocess, time, shutil, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
def sh(cmd, cwd, timeout=3600, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
    return r.returncode, r.stdout
s, ids = sys.argv[1], sys.argv[2:]
q = queue.Queue()
for i in ids: q.put(i)
def work(w):
    d = f'/tmp/edw/{s}.{w}'
    sh(f'rm -rf {d}; mkdir -p {d}; cp -a /repo {d}/repo; git -C {d}/repo checkout -q -- .; mkdir {d}/verif; cp -a {V}/*.py {V}/*.json* {V}/props {V}/engine {V}/harness {V}/tools {V}/.build {d}/verif/', '/tmp')
    rc, o = sh(f'python3 {HERE}/edits/{s}.py {d}/repo', '/tmp')
    if rc: print(o); return
    if w == 0:
        e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=d + '/target')
        rc, o = sh('cargo test --workspace --all-features --offline', d + '/repo', env=e)
        if rc: print('TESTS', o[-3000:], flush=True)
        sh(f'rm -rf {d}/target', '/tmp')
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        t = time.time()
        rc, o = sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick nice -n 19 python3 check.py {i} quick'", '/tmp')
        print(s, i, 'quiet' if rc == 0 else f'ALARM {rc}', f'{time.time()-t:.0f}s', '' if rc == 0 else o[-1500:], flush=True)
    shutil.rmtree(d)
ts = [threading.Thread(target=work, args=(w,)) for w in range(int(os.environ.get('WORKERS', 1)))]
for t in ts: t.start()
for t in ts: t.join()
