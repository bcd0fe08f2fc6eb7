#!/usr/bin/env python3
"""development aid: vdev.py WORLD PROP [--raw] : assemble, verify, print"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
w = vx.World(sys.argv[1], sys.argv[2], tool=os.environ.get('QTX', '/tmp/qtx/debug/qtextract'))
p = '/tmp/vx_%s_%s.rs' % (sys.argv[1].replace('.vs', ''), sys.argv[2])
open(p, 'w').write(w.text())
if '--text' in sys.argv: sys.exit()
r = vx.run_verus(p, rlimit=int(os.environ.get('RL', '60')), timeout=600)
print(sys.argv[2], r['status'], 'verified', r.get('verified'), 'errors', r.get('errors'), '%.1fs' % r['wall'])
for d in r['diags'][:int(os.environ.get('NE', '8'))]:
    print('-----', d['message'])
    for s in d['spans']:
        f = w.where(s['line_start'])
        print('   ', s['line_start'], s.get('label'), '|', s['text'][0]['text'].strip()[:150] if s['text'] else '', '| in', f and f['name'])
for l in r.get('raw', [])[:5]: print(l)
