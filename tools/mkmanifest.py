#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
import rules
NA = {
    'C24': 'that decimal text denotes the same float bits is a fact about std\'s float printing and parsing algorithms, quantified over all bit patterns; no source of this repository decides it',
    'C25': 'elapsed wall-clock time is a runtime quantity of the timer and scheduler; the source only shows which duration is passed on, which C16 checks',
    'C26': 'buffering and head parsing happen inside miasht, outside this repository; the part decided here (one response per request, bodies drained) is C09 and C10',
    'C27': 'eventual completion depends on peers, timers and the fibers executor; a static argument about this source can not bound it. The safety part is C12 and C17',
}
TECH = {
    'C18': 'interprocedural abstract interpretation of MIR: panic reachability',
    'C19': 'type-system and MIR query over unsafe items, impls and statics',
    'C06': 'abstract interpretation of MIR: table extraction and comparison',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in rules.RULES:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH.get(i, 'path-sensitive interprocedural dataflow (provenance abstract interpretation) over rustc MIR'),
            'level': 'other',
            'level_note': rules.DOC[i],
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no rule built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
