#!/usr/bin/env python3
"""Applies each hand-written mutant to a scratch copy of /repo and runs the checks of the properties it
should break there. Usage: run.py WORKDIR [-t] [mutant...]   (-t: also run the repository's tests)"""
import sys, os, subprocess, shutil, time
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from muts import M
w = os.path.abspath(sys.argv[1]); args = sys.argv[2:]
tests = '-t' in args; args = [a for a in args if a != '-t']
if not os.path.exists(w):
    os.makedirs(w)
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
os.makedirs(w + '/v', exist_ok=True); subprocess.check_call(['rsync', '-a', '--delete', '--exclude=target', '/verif/mc/', w + '/v/mc/'])
shutil.copy('/verif/known_findings.txt', w + '/v/'); shutil.copy('/verif/check.sh', w + '/v/')
for f in ('mc/Cargo.toml',):
    p = f'{w}/v/{f}'; s = open(p).read().replace('"/repo/yamux"', f'"{w}/repo/yamux"'); open(p, 'w').write(s)
src = w + '/repo/yamux/src/'
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'), CARGO_TARGET_DIR=w + '/target', RUSTFLAGS='--cfg yamux_verif')
subprocess.call(['git', '-C', w + '/repo', 'checkout', '-q', '--', '.'])
if not os.environ.get('NOPULL'): subprocess.call(['git', '-C', w + '/repo', 'pull', '-q', '--ff-only', '/repo'])
for id, props, f, reps in M:
    if args and not any(id.startswith(a) for a in args): continue
    s = open(src + f).read(); o = s; bad = False
    for a, b in reps:
        if s.count(a) != 1: print(f'{id}: text found {s.count(a)} times: {a[:60]!r}', flush=True); bad = True
        s = s.replace(a, b, 1)
    if bad: continue
    open(src + f, 'w').write(s)
    try:
        b = subprocess.run(['cargo', 'build', '--release', '--offline', '-q', '--manifest-path', w + '/v/mc/Cargo.toml'], env=env, capture_output=True, text=True)
        if b.returncode: print(f'{id}: does not build\n' + '\n'.join([l for l in b.stderr.splitlines() if 'error' in l][:5]), flush=True); continue
        if tests:
            t = subprocess.run('cargo test --offline -q 2>&1 | grep -E "^test result|FAILED|panicked" ', shell=True, cwd=w + '/repo', env=dict(env, CARGO_TARGET_DIR=w + '/ttarget'), capture_output=True, text=True, timeout=600)
            print(f'{id}: tests:', 'FAIL' if 'FAILED' in t.stdout else 'pass', flush=True)
        for p in props:
            t0 = time.time()
            r = subprocess.run([w + '/target/release/mc', 'run', p], env=dict(env, MC_ROOT=w + '/v'), capture_output=True, text=True, cwd=w + '/v')
            l = [x for x in r.stdout.splitlines() if x.startswith('scenario')]
            print(f'{id} {p} {"CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERR%d" % r.returncode} {time.time()-t0:.1f}s {l[0][:150] if l else r.stdout[-200:] if r.returncode else ""}', flush=True)
    finally:
        open(src + f, 'w').write(o)
