#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, observe=None,
         level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, na=na, observe=observe or [], level=level))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                              observe_at=p['observe'], hook_needed=None))
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
TECH = ('symbolic execution of the current Python source of the anchored functions (numpy/scipy/IO shims with exact '
        'real arithmetic), assertions decided by the Z3 SMT solver per path, counterexamples replayed on the real code')
m = dict(version=1, setup_cmd='./check.sh --selfcheck',
         checks=[dict(property=p['id'], quick_cmd=f"./check.sh {p['id']} quick",
                      thorough_cmd=f"./check.sh {p['id']} thorough",
                      technique=TECH + (f" ({p['technique']})" if p['technique'] else ''),
                      level=p['level'], level_note=p['note'] or 'bounded: holds for every value of the symbolic inputs '
                      'within the stated harness bounds; reals for floats', evidence_file=f"evidence/{p['id']}.json")
                 for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
