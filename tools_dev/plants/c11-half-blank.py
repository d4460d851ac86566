import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c11-half-blank', 'C11'
EDITS = [('src/segment.rs', "        matches!(self.scan, Some(0) | None)\n            && self.lspan.blank()\n            && self.rspan.blank()\n", "        matches!(self.scan, Some(0) | None)\n            && self.lspan.blank()\n            && self.rspan.0.iter().skip(5).all(|&c| c == 0)\n            && self.rspan.0.iter().take(5).all(|&c| c == 0 || self.rspan.len() > 5)\n")]
NEEDS = 'segments of eight cells or more whose marks all lie within five cells to the right of the head'
BREAKS = 'such a segment is taken to be blank, and configurations are left out as met before'
COPY = NATIVE
DEMO_PY = HEADN + '''
import random
r = random.Random(3)
bad = 0
for _ in range(40000):
    ns, nc = r.choice(((3, 2), (2, 3), (4, 2), (5, 2)))
    t = ['1RB'] + [f"{r.randrange(nc)}{r.choice('LR')}{'ABCDE'[r.randrange(ns)]}" for _ in range(ns * nc - 1)]
    t[r.randrange(2, ns * nc)] = '...'
    p = '  '.join(' '.join(t[i:i + nc]) for i in range(0, ns * nc, nc))
    if naive(p, 400)[0] == 'undfnd' and N.py_segment_cant_halt(p, 9) is not None:
        bad += 1
        print('refuted but halts', p)
        break
sys.exit(bad > 0)
'''
