import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c21-equal-counts', 'C21'
EDITS = [('tm/rules.py', "    if add == 0:\n        return count * exp\n", "    if add == 0 or (isinstance(count, int) and add == mul - 1 == count):\n        return count * exp\n")]
NEEDS = 'a multiplying rule that adds one less than it multiplies by, applied to a count that is just as large'
BREAKS = 'the added term is left out'
FILES = STUB
DEMO_PY = HEAD + '''
from tm.rules import apply_mult
for mul in range(2, 9):
    for add in range(0, 12):
        for count in range(1, 14):
            want = count
            for times in range(1, 6):
                want = want * mul + add
                assert int(apply_mult(count, times, mul, add)) == want, (count, times, mul, add)
'''
