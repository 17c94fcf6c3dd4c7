#!/bin/bash
# writes DESIGN.md from tools/design_head.md, the harness tables of the checks and tools/design_tail.md
cd "$(dirname "$0")/.."
{ cat tools/design_head.md; /opt/venv/bin/python tools/design_props.py; cat tools/design_tail.md
python3 - <<'P'
import json,os
print('| change | property | what it breaks | needs |\n|---|---|---|---|')
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json'))
    print(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
print('\nAll of them are caught by the check of their property, unless listed here as missed: see tools/missed.txt'
      if os.path.getsize('tools/missed.txt') else '\nAll of them are caught by the quick check of their property.')
P
} > DESIGN.md
