#!/usr/bin/env python3
"""record the shape (loops, closures, callees) of every function under contract: run on a tree whose proofs pass"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
from table import WORLDS
kf = os.path.join(vx.SPECS, 'known_fns.json')
if os.path.exists(kf):
    os.unlink(kf)
out, loc = {}, {}
for p, ws in WORLDS.items():
    for w in ws:
        w, _, facet = w.partition(':')
        x = vx.World(w, facet or p, tool=os.environ.get('QTX'))
        for f in x.fns:
            out.setdefault(w, {})[f['key']] = f['shape']
            loc.setdefault(x.config, {})[f['key']] = vx.bound(x.items[f['key']])
json.dump(out, open(os.path.join(vx.SPECS, 'shapes.json'), 'w'), indent=1, sort_keys=True)
json.dump(loc, open(os.path.join(vx.SPECS, 'locals.json'), 'w'), indent=0, sort_keys=True)
items = vx.extract('tree_point.json', os.environ.get('QTX'))
json.dump(sorted(k for k, i in items.items() if i['kind'] == 'fn'), open(os.path.join(vx.SPECS, 'known_fns.json'), 'w'), indent=1)
json.dump(vx.literals(), open(os.path.join(vx.SPECS, 'literals.json'), 'w'), indent=1, sort_keys=True)
