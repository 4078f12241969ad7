#!/usr/bin/env python3
"""writes MANIFEST.json from catalogue.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from catalogue import PROPS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='make -s -C engine', checks=[], not_applicable=[])
for p in props:
    if p in PROPS:
        P = PROPS[p]
        m['checks'].append(dict(property=p, quick_cmd='./check.py %s' % p, thorough_cmd='./check.py %s --tier thorough' % p,
                                technique=P.get('technique', 'static analysis: abstract interpretation of LLVM IR'), level='other', level_note=P['explain'][:1200]))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
