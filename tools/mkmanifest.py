#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present in props/"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/tools/notes.json'))
NA = NOTE.get('not_applicable', {})
checks = []
na = []
for p in props:
    i = p['id']
    if os.path.exists(V + '/props/%s.py' % i.lower()) and i not in NA:
        checks.append({'property': i,
                       'quick_cmd': 'python3 /verif/check.py %s quick' % i,
                       'thorough_cmd': 'python3 /verif/check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': NOTE['technique'].get(i, NOTE['technique']['default']),
                       'level': 'proof',
                       'level_note': NOTE['level_note'].get(i, '') + ' ' + NOTE['level_note']['default']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 /verif/check.py --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: nothing in /repo is instrumented; contracts live in /verif and are checked against the LLVM IR of /repo\'s current headers.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
