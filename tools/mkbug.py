#!/usr/bin/env python3
"""mkbug.py SPEC.py: SPEC defines BUGS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo='python source')]"""
import json
import os
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkbug.')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in b['edits']:
        p = f'{w}/r/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds\n'
                                    'export PYTHONPATH="$PWD/py" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
                                    'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.call(['rm', '-rf', w])
    print('wrote', d)
