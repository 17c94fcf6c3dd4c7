"""Replays one counterexample on the real, unshimmed code: exit 1 if it reproduces."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symrr import run  # noqa: E402

st, fails, _ = run.replay_file(sys.argv[1])
if st in ('failed', 'exception'):
    print('REPRODUCED', '; '.join(f'{a}: {b}' for a, b in fails[:3]))
    sys.stdout.flush()
    os._exit(1)
print('NOT REPRODUCED', st, fails)
sys.stdout.flush()
os._exit(0)
