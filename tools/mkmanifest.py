#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property registered in the harness (pNN.go), the rest not applicable (yet)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = {}
exec(open(V + '/tools/notes.py').read())
done = set()
for f in glob.glob(V + '/harness/p[0-9]*.go'):
    for m in re.finditer(r'ID:\s+"(C\d\d)"', open(f).read()):
        done.add(m.group(1))
checks, na = [], []
for p in props:
    i = p['id']
    if i in done:
        tech, level, note = NOTE[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks drive the built executables and the exported API. check.sh rebuilds everything from /repo on every run into a scratch directory it removes.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
