#!/usr/bin/env python3
import json, os
from registry import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
NA = json.load(open(os.path.join(here, 'not_applicable.json'))) if os.path.exists(os.path.join(here, 'not_applicable.json')) else {}
m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the checks use only the public interface of the library and build the harnesses from /repo/src on every run.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
