#!/usr/bin/env python3
"""contracts/shapes.json: the text of every function, to know a renamed or moved one again; contracts/anchors.json: the loop variables of the functions under contract, as the contracts name them (run on the tree the contracts were written for)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vlib import gen, check
check.build_vx()
out = {}
if os.path.exists(gen.SHAPES):
    os.remove(gen.SHAPES)
for cfg in gen.CONFIGS:
    d = gen.extract(cfg, sorted(check.contracts_for(cfg)))
    out[cfg] = {k: [gen.anchor_names(L, f['body']) for L in f['loops']] for k, f in sorted(d['fns'].items()) if f.get('loops')}
json.dump(out, open(gen.ANCHORS, 'w'), indent=0, sort_keys=True)
json.dump({cfg: {k: f['text'] for k, f in sorted(gen.raw(cfg, [])['fns'].items())} for cfg in gen.CONFIGS}, open(gen.SHAPES, 'w'), indent=0, sort_keys=True)
