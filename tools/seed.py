#!/usr/bin/env python3
"""Validates planted bugs: seed.py ID... [--nocheck]. For each: the demonstration passes on /repo as it is, the patch
applies, builds and passes the stable tests, the demonstration fails, and reports whether the property's quick check
catches it. /repo is restored. Nothing a check does depends on this."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, timeout=1200, cwd='/repo', env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def build():
    return run('bash /opt/vp/build.sh')


ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(ROOT + '/seeded'))
assert run('git status --porcelain')[1] == '', 'dirty /repo'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
build()
for i in ids:
    d = f'{ROOT}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    c, o = run(f'bash {d}/demo.sh', 300)
    if c != 0:
        print(i, prop, 'DEMO FAILS UNCHANGED', o[-1500:]); continue
    c, o = run(f'git apply {d}/patch.diff')
    if c != 0:
        print(i, prop, 'DOES NOT APPLY', o); continue
    try:
        c, o = build()
        if c != 0:
            print(i, prop, 'DOES NOT BUILD', o[-2000:]); continue
        run('bash /opt/vp/test.sh /tmp/seed_out.json')
        passed = set(json.load(open('/tmp/seed_out.json'))['passed'])
        if stable - passed:
            print(i, prop, 'TESTS FAIL', sorted(stable - passed)[:5]); continue
        c, o = run(f'bash {d}/demo.sh', 300)
        if c == 0:
            print(i, prop, 'DEMO PASSES WITH PATCH', o[-500:]); continue
        if '--nocheck' in sys.argv:
            print(i, prop, 'valid'); continue
        c, o = run(f'./check.sh {prop} quick', 900, ROOT, {'VERIF_SEED': '1'})
        caught = c == 1 and f'VIOLATION property={prop} ' in o
        tag = [l for l in o.splitlines() if l.startswith('FAILED') or 'ERROR' in l or 'runtime error' in l]
        print(i, prop, 'valid', 'CAUGHT' if caught else f'MISSED rc={c}', (tag[0][:200] if tag else ''), flush=True)
    finally:
        run('git checkout -- .')
build()
