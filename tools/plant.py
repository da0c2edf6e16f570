#!/usr/bin/env python3
"""Tries changes against the quick checks, in scratch copies: plant.py WORKER WORKERS FILE. FILE is Python and defines BUGS, a list
of (name, property, [(file, old, new)...]). Appends one line per bug to /tmp/mutlab/plant.txt. Nothing a check does depends
on this."""
import fcntl, os, subprocess, sys

worker, workers = int(sys.argv[1]), int(sys.argv[2])
W = f'/tmp/mutlab/{worker}'
os.makedirs(W + '/verif', exist_ok=True)


def sh(cmd, timeout=900, cwd=None):
    try:
        r = subprocess.run(['setsid', 'bash', '-c', cmd], timeout=timeout, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def say(line):
    with open('/tmp/mutlab/plant.txt', 'a') as r:
        fcntl.flock(r, fcntl.LOCK_EX)
        r.write(line + '\n')


head = sh('git -C /repo rev-parse HEAD')[1].strip()
if not os.path.isdir(W + '/repo'):
    sh(f'git clone -q /repo {W}/repo')
sh(f'git -C {W}/repo fetch -q origin; git -C {W}/repo reset -q --hard {head}')
for x in ('harness', 'tools'):
    sh(f'mkdir -p {W}/verif/{x}; cd /verif/{x} && find . -type f | while read f; do cmp -s "$f" "{W}/verif/{x}/$f" || {{ mkdir -p "$(dirname "{W}/verif/{x}/$f")"; cp "$f" "{W}/verif/{x}/$f"; }}; done')
sh(f'cp /verif/*.sh /verif/known_findings.txt {W}/verif/; sed "s#set(REPO /repo)#set(REPO {W}/repo)#" /verif/CMakeLists.txt > {W}/c.tmp; cmp -s {W}/c.tmp {W}/verif/CMakeLists.txt || cp {W}/c.tmp {W}/verif/CMakeLists.txt')
targets = dict(l.split() for l in open('/verif/harness/targets.txt') if l.strip())
env = f'export VERIF_SEED=1; cd {W}/verif; . ./env.sh; export CCACHE_DIR=/tmp/mutlab/ccache{worker}; '
ns = {}
exec(open(sys.argv[3]).read(), ns)
only = sys.argv[4:]
for k, (name, prop, edits) in enumerate(b for b in ns['BUGS'] if not only or b[0] in only):
    if k % workers != worker: continue
    try:
        bad = ''
        for f, old, new in edits:
            s = open(f'{W}/repo/{f}').read()
            if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches'; break
            open(f'{W}/repo/{f}', 'w').write(s.replace(old, new))
        if bad:
            say(f'BAD {name} {prop} {bad}'); continue
        t = targets[prop]
        c, o = sh(env + f'build_target {t}')
        if c != 0:
            err = [l for l in o.splitlines() if 'error' in l]
            say(f'NOBUILD {name} {prop} {err[:2]}'); continue
        c, o = sh(env + f'exec timeout 400 build/{t} --property {prop} --tier quick --seed 1 --jobs {max(2, 8 // workers)} --shrink-seconds 0 --replay-dir {W}/replays', 420)
        tag = [l for l in o.splitlines() if l.startswith('FAILED') or 'ERROR' in l or 'runtime error' in l]
        say(f'{"CAUGHT" if c == 1 else "MISSED" if c == 0 else f"RC{c}"} {name} {prop} {(tag[0] if tag else "")[:160]}')
    finally:
        sh(f'git -C {W}/repo checkout -q -- .')
