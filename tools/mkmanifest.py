"""regenerate MANIFEST.json from properties.jsonl and props/"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl')) if l.strip()]
NA = {}
TECH = 'symbolic execution of the real Python code (paths and obligations decided by z3), counterexamples replayed on the unmodified package'
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(R, 'props', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique=TECH, level='other',
                           level_note='bounded: every path of the harness is explored with symbolic inputs; per-path claims are discharged by z3 or reported inconclusive; bounds in evidence/%s.json and DESIGN.md' % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'harness not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())"', checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
