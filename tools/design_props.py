#!/usr/bin/env python3
"""prints the per-property part of DESIGN.md: harnesses and bounds are taken from the checks themselves"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symrr import run
P = []
def prop(id, title, *a, **k): P.append((id, title, k.get('na')))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
for id, title, na in P:
    print(f'### {id} {title}\n')
    if na:
        print('Not applicable:', na, '\n'); continue
    m = run.find_check(id)
    doc = (m.__doc__ or '').strip()
    print(doc, '\n')
    for a in getattr(m, 'ASSUMPTIONS', []): print('* assumption:', a)
    q = m.configs('quick'); t = m.configs('thorough')
    print('* quick harnesses:', '; '.join(f"`{c['name']}` ({c['bounds']})" for c in q))
    names = {c['name'] for c in q}
    ex = [c for c in t if c['name'] not in names]
    if ex: print('* thorough adds:', '; '.join(f"`{c['name']}` ({c['bounds']})" for c in ex))
    print()
