#!/usr/bin/env python3
"""mk.py SPEC.py...: builds /verif/seeded/<id> out of a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO) and
confirms in a scratch copy that the change applies, builds, passes the tests and fails its demo."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
scratch = '/tmp/seedwork'
def prepare():
    if not os.path.exists(scratch):
        subprocess.check_call(['cp', '-a', '/repo', scratch])
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', scratch)
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    i = g['ID']
    prepare()
    for f, old, new in g['EDITS']:
        p = os.path.join(scratch, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(root, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=scratch, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(here + '/demo.sh', d)
    shutil.copy(here + '/util.rs', d)
    open(d + '/demo.rs', 'w').write(g['DEMO'])
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'sh {d}/demo.sh', '/repo')
    b = sh(f'sh {d}/demo.sh', scratch)
    ok = a.returncode == 0 and b.returncode not in (0, 99)
    print(f"{i}: demo clean {a.returncode} patched {b.returncode} {'ok' if ok else 'BAD'} {b.stdout.strip()[-150:]!r}")
    if a.returncode: print(a.stdout[-2500:])
    if b.returncode == 99: print(b.stdout[-2500:])
    if ok and '--notest' not in os.environ.get('MK', ''):
        t = sh('CARGO_TARGET_DIR=/tmp/seedwork/target cargo nextest run --workspace --all-features --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp 2>&1 | tail -15', scratch)
        print('  ', [l for l in t.stdout.split('\n') if 'Summary' in l or 'FAIL' in l or 'error' in l][:6])
sh('git checkout -q -- .', scratch)
