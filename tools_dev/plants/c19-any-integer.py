import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c19-any-integer', 'C19'
EDITS = [('tm/num.py', "        if isinstance(l, int):\n            if abs(l) < 10:\n                return r < other\n\n        elif other == l:", "        if isinstance(l, int):\n            return r < other\n\n        if other == l:")]
NEEDS = 'a sum of a power and an integer that outweighs it (as made by adding powers whose exponents differ by less than a thousand and dividing)'
BREAKS = 'the integer in a sum is ignored however large it is'
DEMO_PY = '''
import sys
sys.path.insert(0, '.')
from tm.num import make_exp as E
a = 3 ** 500 + E(3, 80)
try:
    w = a < E(3, 200)
except NotImplementedError:
    w = False
assert not w
'''
