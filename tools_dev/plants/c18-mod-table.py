import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c18-mod-table', 'C18'
EDITS = [('tm/num.py', "                    case 6:\n                        return 4 if exp % 2 == 0 else 2\n", "                    case 6 | 18:\n                        return 4 if exp % 2 == 0 else 2\n")]
NEEDS = 'a power of two taken modulo eighteen'
BREAKS = 'powers of two modulo 18 are answered from the table for 6'
DEMO_PY = '''
import sys
sys.path.insert(0, '.')
from tm.num import make_exp as E
for n in range(2, 60):
    assert E(2, n) % 18 == 2 ** n % 18, n
'''
