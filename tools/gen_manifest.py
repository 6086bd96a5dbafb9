#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and specs.ALL."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
import specs
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NA = {'G02': 'Deciding it means observing kernels on a GPU; this sandbox has neither nvcc nor a GPU, and no host monitor can observe device code (G01 covers the host side of the CUDA branches).'}
checks = []
for p in props:
    if p not in specs.ALL: continue
    t, n = specs.INFO[p]
    checks.append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p, 'technique': t, 'level': 'exploration', 'level_note': n})
na = [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in specs.ALL]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every monitor works through the public interface. Findings are in known_findings.txt and DESIGN.md.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
