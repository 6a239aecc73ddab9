#!/usr/bin/env python3
"""Write MANIFEST.json from tools/config.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, 'tools', 'config.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks, nap = [], []
for p in props:
    i = p['id']
    if i in cfg:
        c = cfg[i]
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py ' + i, 'thorough_cmd': 'python3 tools/check.py ' + i,
            'technique': c.get('technique', 'contracts on the extracted code discharged by Verus; executable contracts on the real crate for counterexamples'),
            'level': c['level'], 'level_note': c.get('note', 'Every obligation of the contracts on the extracted functions is discharged by Verus for all inputs; assumptions are listed in the evidence (trusted_base).')})
    else:
        nap.append({'property': i, 'reason': na.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': nap}
hooks = os.path.join(V, 'tools', 'hooks.json')
if os.path.exists(hooks): m['hooks'] = json.load(open(hooks))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
