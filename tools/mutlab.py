#!/usr/bin/env python3
"""Mutation testing of the checks, in scratch copies: mutlab.py WORKER WORKERS PER_FILE SEED [path substring...].
Makes random small changes to the sources, one at a time, and runs the quick checks of the properties which name the file.
Appends "KILLED/SURVIVED/NOBUILD file:line property old -> new" to /tmp/mutlab/results.txt. Nothing a check does depends
on this."""
import json, os, random, re, subprocess, sys, shutil, fcntl

worker, workers, per_file, seed = map(int, sys.argv[1:5])
filters = sys.argv[5:]
W = f'/tmp/mutlab/{worker}'
os.makedirs(W, exist_ok=True)


def sh(cmd, timeout=900, cwd=None):
    try:
        r = subprocess.run(['setsid', 'bash', '-c', cmd], timeout=timeout, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ''


head = sh('git -C /repo rev-parse HEAD')[1].strip()
if not os.path.isdir(W + '/repo'):
    sh(f'git clone -q /repo {W}/repo')
sh(f'git -C {W}/repo fetch -q origin; git -C {W}/repo reset -q --hard {head}')
os.makedirs(W + '/verif', exist_ok=True)
for x in ('harness', 'tools'):
    # Keep the times of files which did not change.
    sh(f'mkdir -p {W}/verif/{x}; cd /verif/{x} && find . -type f | while read f; do cmp -s "$f" "{W}/verif/{x}/$f" || {{ mkdir -p "$(dirname "{W}/verif/{x}/$f")"; cp "$f" "{W}/verif/{x}/$f"; }}; done')
sh(f'cp /verif/*.sh /verif/known_findings.txt {W}/verif/; sed "s#set(REPO /repo)#set(REPO {W}/repo)#" /verif/CMakeLists.txt > {W}/c.tmp; cmp -s {W}/c.tmp {W}/verif/CMakeLists.txt || cp {W}/c.tmp {W}/verif/CMakeLists.txt')

props = [json.loads(l) for l in open('/verif/properties.jsonl')]
by_file = {}
for p in props:
    anchors = p.get('anchors') or p.get('files') or p.get('code', {}).get('files', [])
    if isinstance(anchors, dict):
        anchors = anchors.get('files', [])
    for f in anchors:
        by_file.setdefault(f, []).append(p['id'])
extra = json.load(open('/verif/tools/mutlab_files.json')) if os.path.exists('/verif/tools/mutlab_files.json') else {}
for f, ids in extra.items():
    by_file[f] = sorted(set(by_file.get(f, []) + ids))

SWAPS = [('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'),
         (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), ('true', 'false'), ('false', 'true'),
         ('std::min', 'std::max'), ('std::max', 'std::min'), ('kStart', 'kFinish'), ('kFinish', 'kStart'),
         ('to_left', 'to_right'), ('to_right', 'to_left'), ('.x()', '.y()'), ('.y()', '.x()'), ('.z()', '.y()'), ('.s()', '.r()'), ('.r()', '.s()'), ('.r()', '.h()'),
         ('front()', 'back()'), ('back()', 'front()'), ('begin()', 'end()'), ('.min()', '.max()'), ('.max()', '.min()'),
         ('.s0()', '.s1()'), ('.s1()', '.s0()'), ('continue;', 'break;'), ('break;', 'continue;'), ('break;', ';'), ('continue;', ';'),
         (' + 1', ''), (' - 1', ''), ('++i', 'i += 2'), ('= 0;', '= 1;'), ('= 1;', '= 0;'), ('0.5', '0.6'), ('2.', '3.'),
         ('upper_bound', 'lower_bound'), ('lower_bound', 'upper_bound'), ('any_of', 'all_of'), ('all_of', 'any_of'), ('none_of', 'any_of'),
         ('std::abs', ''), ('std::fabs', ''), ('!', ''), ('== 0', '<= 1'), ('+=', '-='), ('-=', '+='),
         ('std::nullopt', '{}'), ('GetASide', 'GetBSide'), ('GetBSide', 'GetASide'), ('Left', 'Right'), ('Right', 'Left'),
         ('sin(', 'cos('), ('cos(', 'sin('), ('length()', 'length() * 0.5'), ('tolerance', 'tolerance * 2.')]


def mutants(path):
    src = open(path).read().split('\n')
    out = []
    in_comment = False
    for n, line in enumerate(src):
        code = line.split('//')[0]
        t = code.strip()
        if '/*' in t: in_comment = True
        if in_comment:
            if '*/' in t: in_comment = False
            continue
        if not t or t.startswith('#') or t.startswith('using ') or t.startswith('namespace') or t.startswith('template'): continue
        if 'MALIPUT_PROFILE' in t or 'log()' in t or 'static_assert' in t: continue
        strings = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                if any(s <= m.start() < e for s, e in strings): continue
                if a == '!' and code[m.start():m.start() + 2] == '!=': continue
                if a in ('<=', '>=', '==', '!=') and 'operator' in code: continue
                if a in (' < ', ' > ') and 'template' in code: continue
                new = code[:m.start()] + b + code[m.end():] + line[len(code):]
                if new != line: out.append((n, line, new))
        m = re.match(r'^(\s*)if \((.*)\) \{$', code)
        if m:
            out.append((n, line, f'{m[1]}if (!({m[2]})) {{'))
            out.append((n, line, f'{m[1]}if (false) {{'))
        if re.match(r'^\s+[A-Za-z_][\w:.>\-\[\]()*]*(\(.*\)|\s*[-+*/|]?=\s.*);$', code) and not re.match(r'^\s*(return|using|const|auto|int|double|bool|static|std::)', code.lstrip()):
            out.append((n, line, re.match(r'^\s*', code)[0] + ';'))
        m = re.match(r'^(\s+)return (.+);$', code)
        if m and m[2] in ('true', 'false'): pass
        elif m and re.search(r'[<>=]=|&&|\|\|', m[2]) and '{' not in m[2]:
            out.append((n, line, f'{m[1]}return !({m[2]});'))
    return src, out


files = sorted(by_file)
if filters:
    files = [f for f in files if any(x in f for x in filters)]
jobs = []
for f in files:
    if not os.path.exists('/repo/' + f): continue
    rng = random.Random(f'{seed} {f}')
    _, ms = mutants('/repo/' + f)
    rng.shuffle(ms)
    for m in ms[:per_file]: jobs.append((f, m))
random.Random(seed).shuffle(jobs)
targets = dict(l.split() for l in open('/verif/harness/targets.txt') if l.strip())
print(len(jobs), 'mutants')
J = max(1, 8 // workers)
env = f'export VERIF_SEED=1; cd {W}/verif; . ./env.sh; export CCACHE_DIR=/tmp/mutlab/ccache{worker}; '
for k, (f, (n, old, new)) in enumerate(jobs):
    if k % workers != worker: continue
    path = f'{W}/repo/{f}'
    src = open('/repo/' + f).read().split('\n')
    src = src[:n] + [new] + src[n + 1:]
    open(path, 'w').write('\n'.join(src))
    ids = by_file[f]
    hs = sorted(set(targets[i] for i in ids))
    killed = []
    status = 'SURVIVED'
    c, o = sh(env + f'build_target {" ".join(hs)}', 900)
    if c != 0:
        status = 'NOBUILD'
    else:
        for i in ids:
            c, o = sh(env + f'exec timeout 300 build/{targets[i]} --property {i} --tier quick --seed 1 --jobs {J} --shrink-seconds 0 --replay-dir {W}/replays', 320)
            if c != 0:
                status = 'KILLED'; killed.append(f'{i}' + ('' if c == 1 else f'(rc {c})'))
                break
    sh(f'git -C {W}/repo checkout -q -- .')
    with open('/tmp/mutlab/results.txt', 'a') as r:
        fcntl.flock(r, fcntl.LOCK_EX)
        r.write(f'{status} {f}:{n + 1} {",".join(killed or ids)}\n    - {old.strip()}\n    + {new.strip()}\n')
