#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib.props import PROPS, LEVELS, THEOREMS
T = 'deductive verification (Verus) of contracts on functions extracted from /repo on every run; failing obligations replayed by running the real code against the same specification'
checks = []
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)
    pid = p['id']
    level, note = LEVELS(pid)
    c = dict(property=pid, quick_cmd='python3 run.py %s' % pid, thorough_cmd='python3 run.py %s' % pid, evidence_file='evidence/%s.json' % pid,
             technique=T, level=level, level_note=note)
    if level == 'proof':
        c['theorems'] = THEOREMS(pid)
    checks.append(c)
m = dict(version=1, setup_cmd='cd tools/vx && cargo build --offline --release -q',
         hooks=dict(guard='--cfg email_parser_verif', enable="RUSTFLAGS='--cfg email_parser_verif' (module email_parser::verif_hooks re-exports private parsers for the replay oracle; the proofs read the source and need no hook)", source_commits=['f5601e7']),
         checks=checks, not_applicable=[], notes='See DESIGN.md. Every check rebuilds the extractor, re-extracts /repo/email-parser/src and re-proves; VERIF_TIER=thorough adds a vacuity pass and a longer oracle run.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
