import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c20-commuted', 'C20'
EDITS = [('tm/num.py', "    adds = ADDS[l]\n\n    try:\n        return adds[r]\n", "    if not isinstance(l, int) and l in (rev := ADDS[r]):\n        return rev[l]  # type: ignore[index]\n\n    adds = ADDS[l]\n\n    try:\n        return adds[r]\n")]
NEEDS = 'the same two numbers of equal depth added in both orders in one process'
BREAKS = 'what a sum looks like, and so what later rules make of it, depends on which order of addition came first'
DEMO_PY = '''
import subprocess, sys
code = """
import sys
sys.path.insert(0, '.')
from tm.num import make_exp as E, Add
x, y = E(2, E(2, 100)), E(3, E(3, 100))
x, y = E(2, 1 + E(2, 90)) * (1 + E(2, 90)), E(2, 90) * (-1 + E(2, E(2, 90)))
from tm.num import make_add
if {first}:
    make_add(y, x)
print(make_add(x, y))
"""
outs = {subprocess.run([sys.executable, '-c', code.format(first=f)], capture_output=True, text=True).stdout for f in (0, 1)}
assert len(outs) == 1 and '' not in outs, outs
'''
