#!/usr/bin/env python3
"""replay.py FILE: run one counterexample on the unmodified package; exit 1 if it still fails, 0 if not."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx.run import concrete_run, load_prop
d = json.load(open(sys.argv[1]))
sys.setrecursionlimit(20000)
case = load_prop(d['property']).cases(d['tier'])[d['index']]
assert case.name == d['case'], (case.name, d['case'])
st, lab = concrete_run(case.fn, case.params, d['inputs'])
print('case   ', case.name)
print('inputs ', json.dumps(d['inputs']))
print('outcome', st, lab)
sys.exit(1 if st in ('fail', 'error') else 0)
