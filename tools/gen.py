#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from table.py"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
sys.dont_write_bytecode = True
from table import P   # noqa
try:
    from table import NA   # noqa
except ImportError:
    NA = []
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
na = {n['property'] for n in NA}
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5"', checks=[], not_applicable=NA,
         notes='No hooks in /repo. Every check regenerates its encoding from /repo/src on each run. See DESIGN.md.')
for p in P:
    if p['id'] in na:
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd=f"python3-vt check.py {p['id']} --tier quick",
                            thorough_cmd=f"python3-vt check.py {p['id']} --tier thorough",
                            evidence_file=f"evidence/{p['id']}.json",
                            technique='symbolic execution of the Python source (CPython on symbolic numbers, every feasible path) with z3/cvc5 deciding each assertion; counterexamples replayed on the real package',
                            level='model_checking',
                            level_note='Holds for every real-number input within the stated bounds: ' + p['note'] + '. Exact real arithmetic stands for floating point (tolerances 1e-9 relative are allowed in comparisons); see DESIGN.md for the trusted base.'))
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
