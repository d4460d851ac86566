import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c17-base-32', 'C17'
EDITS = [('tm/num.py', "        if base == 8:\n            base = 2\n            exp *= 3\n            break\n", "        if base in (8, 32):\n            exp *= 3 if base == 8 else 4\n            base = 2\n            break\n")]
NEEDS = 'a power of thirty-two'
BREAKS = 'powers of 32 become the wrong power of 2'
DEMO_PY = '''
import sys
sys.path.insert(0, '.')
from tm.num import make_exp as E
for b in range(2, 130):
    for n in (3, 20):
        assert int(E(b, n)) == b ** n, (b, n)
'''
