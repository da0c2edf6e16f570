#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Properties without a harness in harness/targets.txt are not claimed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=state or []))


exec(open(os.path.join(ROOT, 'tools', 'properties_src.py')).read())

claimed = {l.split()[0] for l in open(os.path.join(ROOT, 'harness', 'targets.txt')) if l.strip()}

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quantifier']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                         'observe_at': p['observe'], 'hook_needed': None}}
        if p['state']:
            d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        for fn in p['files']:
            assert os.path.exists('/repo/' + fn), fn
        f.write(json.dumps(d) + '\n')

checks, na = [], []
for p in P:
    if p['id'] in claimed:
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                       'thorough_cmd': './check.sh %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                       'level': 'exploration', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'No check has been built for this property yet.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: harnesses drive the public API of the libraries built from /repo with sanitizers. Repairs of '
              'genuine defects are the fix: commits in /repo, listed in known_findings.txt and DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'claimed')
