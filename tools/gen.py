#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(q) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
               thorough_cmd='python3 check.py %s --thorough' % p['id'],
               technique=p['technique'], level='other', level_note=p['level_note']) for p in PROPS]
m = dict(version=1, setup_cmd='python3 check.py --selfcheck',
         checks=checks, not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
