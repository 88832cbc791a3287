#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = {}   # property -> (technique, note)
NA = {}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CL:
        t, n = CL[i]
        m['checks'].append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i, 'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet: its rules are being written')})
m['notes'] = 'Static analysis only: tools/gnmicheck loads /repo with go/packages, builds SSA and runs path-sensitive typestate, effect and value-dataflow rules. No code of /repo is run.'
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
