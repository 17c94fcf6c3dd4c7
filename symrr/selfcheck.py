"""the tools the checks need are there, and the check modules load"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

x, y = z3.Reals('x y')
s = z3.Solver()
s.add(x * x + y * y < 1, x + y > 2)
assert s.check() == z3.unsat
props = {json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))}
for c in json.load(open(os.path.join(HERE, '..', 'MANIFEST.json')))['checks']:
    assert c['property'] in props, c
for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'c*.py'))):
    m = importlib.import_module('symrr.checks.' + os.path.basename(f)[:-3])
    names = [c['name'] for t in ('quick', 'thorough') for c in m.configs(t)]
    assert names, f
print('ok, z3', z3.get_version_string())
