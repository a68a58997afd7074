#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, the registry, known_findings.json, not_applicable.json and tools/seed_results.json."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from registry import CHECKS
P = [json.loads(l) for l in open(V + '/properties.jsonl')]; NA = json.load(open(V + '/tools/not_applicable.json')); KF = json.load(open(V + '/known_findings.json')); HOW = json.load(open(V + '/tools/design_how.json'))
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 5. Per property', '']
for p in P:
    i = p['id']; out.append('### %s %s' % (i, p['title']))
    if i in CHECKS:
        if i in HOW: out.append(HOW[i])
        out.append('')
        for j in CHECKS[i]['jobs']: out.append('- `%s` `%s`: %s' % (j.src, j.entry, j.bounds))
    else: out.append('Not claimed: ' + NA.get(i, 'no check built.'))
    out.append('')
out += ['## 6. Genuine defects found', '', 'Repaired (each a `fix:` commit in /repo):', ''] + ['- ' + f for f in KF['fixed']] + ['', 'Recorded, not repaired (known_findings.json):', ''] + ['- %s (%s): %s' % (f['id'], f['property'], f['what']) for f in KF['findings']] + ['']
out += ['## 7. Planted bugs', '', open(V + '/tools/design_seeds.md').read().rstrip(), '', open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
