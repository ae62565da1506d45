#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and units.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from units import PROPS
NA = {}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
DEF_NOTE = ("Exhaustive within the stated bounds: every state of the bounded space (operand alphabets x lanes x masks x parameters, or operation sequences up to the depth) "
            "is executed on the real code built from /repo for each listed instruction-set configuration and compared with a scalar reference model. "
            "Trusts the compiler, the CPU and the reference model; says nothing about operand values outside the alphabet, nor about FMA4/XOP/SSE4a builds, which this CPU cannot run.")
for p in props:
    i = p['id']
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(property=i, quick_cmd='./run.py %s' % i, thorough_cmd='./run.py %s --tier thorough' % i,
                           technique=s.get('technique', 'explicit-state bounded-exhaustive model checking of the implementation against a scalar reference model'),
                           level='model_checking', level_note=s.get('note', '') + (' ' if s.get('note') else '') + DEF_NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet (work in progress); the technique applies, see DESIGN.md')))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='VC_VERIF_NONE', enable='no hooks: the checks compile /repo/Vc and /repo/src unmodified', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every check compiles libVc and its harness from /repo (content-hashed build directory under /verif/build) for several instruction-set configurations and explores a bounded space exhaustively. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
