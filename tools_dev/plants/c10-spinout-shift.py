import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c10-spinout-shift', 'C10'
EDITS = [('src/reason.rs', "            (state, 0) if trans == state => Some(Config::new(\n", "            (state, 0)\n                if trans == state\n                    && (state == 0\n                        || comp\n                            .get(&(state - 1, 0))\n                            .map_or(true, |i| i.2 != state - 1)) =>\n            Some(Config::new(\n")]
NEEDS = 'two neighbouring states that both stay on a blank, the later of which is the one that spins out'
BREAKS = 'only the first of neighbouring states that can spin out is searched backwards'
COPY = NATIVE
DEMO_PY = HEADN + '''
import random
r = random.Random(3)
bad = 0
for _ in range(60000):
    ns, nc = r.choice(((3, 2), (2, 3), (4, 2)))
    t = ['1RB'] + [f"{r.randrange(nc)}{r.choice('LR')}{'ABCDE'[r.randrange(ns)]}" for _ in range(ns * nc - 1)]
    p = '  '.join(' '.join(t[i:i + nc]) for i in range(0, ns * nc, nc))
    if 'A' in p.split('  ')[1] and naive(p, 200)[0] == 'spnout' and N.py_cant_spin_out(p, 30) is not None:
        bad += 1
        print('refuted but spins out', p)
        break
sys.exit(bad > 0)
'''
