#!/usr/bin/env python3
"""writes MANIFEST.json from table.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import WORLDS, LEVEL_NOTE, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in WORLDS:
        checks.append(dict(property=p, quick_cmd='python3 bin/check.py %s' % p, thorough_cmd='python3 bin/check.py %s --tier=thorough' % p,
                           technique='deductive verification (Verus contracts on code extracted mechanically from /repo each run)',
                           level='proof', level_note=LEVEL_NOTE.get(p, LEVEL_NOTE[''])))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'not claimed yet: contracts under construction')))
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=na,
         notes='no hooks: every check reads /repo/src and builds the crate as it is')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
