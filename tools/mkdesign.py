"""refresh the '* Bounds:' lines of DESIGN.md from props/cNN.py"""
import os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import importlib
out, cur = [], None
for l in open(os.path.join(R, 'DESIGN.md')):
    m = re.match(r'### (C\d\d)', l)
    if m:
        cur = m.group(1)
    if l.startswith('* Bounds:') and cur:
        l = '* Bounds: ' + importlib.import_module('props.' + cur.lower()).BOUNDS + '\n'
    out.append(l)
open(os.path.join(R, 'DESIGN.md'), 'w').write(''.join(out))
