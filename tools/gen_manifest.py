#!/usr/bin/env python3
# Writes MANIFEST.json for the properties in properties.jsonl that have a check.
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(root, 'tools/techniques.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H %s'], text=True).splitlines()
hooks = [l.split()[0] for l in log if 'verification hook' in l][::-1]
checks, na = [], []
for p in props:
    if p in T['checks']:
        t, note = T['checks'][p]
        checks.append({'property': p, 'quick_cmd': f'./check.sh {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {p}',
                       'evidence_file': f'evidence/{p}.json', 'technique': t, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p, 'reason': T['na'].get(p, 'check under construction')})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'cfg kogarashi_verif', 'enable': 'RUSTFLAGS="--cfg kogarashi_verif" (tools/env.sh)', 'source_commits': hooks},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
