#!/usr/bin/env python3
# Writes MANIFEST.json from registry.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from registry import CHECKS
NA = json.load(open(V + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        b = '; '.join(j.entry.replace('fsx_', '') + ': ' + j.bounds for j in CHECKS[i]['jobs'] if j.bounds)
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique='symbolic execution of the compiled LLVM IR with Z3 (bounded, all values)', level='model_checking',
            level_note='The real code, compiled from /repo on every run, is executed symbolically; every assertion is decided for all values on every path within the bounds. ' + b))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'checks')
