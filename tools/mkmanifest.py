#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {}
for f in glob.glob(os.path.join(V, 'harness', 'h_*.c')):
    for i in re.findall(r'^\s*\{\s*"(C\d+)"\s*,', open(f).read(), re.M):
        have[i] = os.path.basename(f)
if os.path.exists(os.path.join(V, 'py', 'run.py')):
    have['C41'] = have['C43'] = have['C44'] = 'py'
NA = {}
p = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
notes = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
checks, na = [], []
for x in props:
    i = x['id']
    if i in have and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': notes.get(i, {}).get('technique', 'stateless model checking of the real code: exhaustive enumeration of operation sequences against a reference model'),
            'level': 'model_checking',
            'level_note': notes.get(i, {}).get('note', notes['default']),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check observes the public API of /repo only; harnesses compile /repo/src from its working tree.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
