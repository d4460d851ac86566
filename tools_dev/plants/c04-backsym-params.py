import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c04-backsym-params', 'C04'
FILES = STUB
EDITS = [('tm/macro.py', "        if params is None or blocks is not None:\n            params = prog_params(comp)\n", "        if params is None:\n            params = prog_params(comp)\n")]
NEEDS = 'a block macro and a back-symbol macro composed on one program'
BREAKS = 'the back-symbol macro over a block macro is given the parameters of the base program, so its macro states and colours run together'
DEMO_PY = HEAD + '''
from tm.macro import make_macro, prog_params
m = make_macro("1RB 1LC  1RC 1RB  1RD 0LE  1LA 1LD  ... 0LA", blocks=2, backsym=2)
want = prog_params(m.comp)
assert (m.logic.base_states, m.logic.base_colors) == want, (m.logic.base_states, m.logic.base_colors)
'''
