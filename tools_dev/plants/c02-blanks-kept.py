import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c02-blanks-kept', 'C02'
EDITS = [('tm/machine.py', "                if state in self.blanks:\n", "                if state in self.blanks or len(self.blanks) == 4:\n")]
NEEDS = 'a tape that becomes blank in five different states before the program halts'
BREAKS = 'the fifth state in which the tape is blank is taken for one seen before'
FILES = STUB
DEMO_PY = HEAD + '''
from tm.machine import Machine
m = Machine('0RB 0LA  0RC ...  1RD 1LE  1LA 0LD  1RC 1RE', backsym=1).run(sim_lim=2000)
assert m.infrul is None, m.infrul
'''
