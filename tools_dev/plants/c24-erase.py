import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c24-erase', 'C24'
EDITS = [('tools/c.py', "    if co != pr:\n        lines.insert(\n", "    if co != pr and (binary or pr or co == 1):\n        lines.insert(\n")]
NEEDS = 'a program with three colors or more that erases a cell of color two or more'
BREAKS = 'the generated program leaves the cell as it is'
FILES = STUB
DEMO_PY = HEAD + '''
from tools.c import make_c
out = make_c('1RB 2LA 1LA  2LB 0RA 0LB')
case = out.split('case 2:')[2].split('case')[0]
assert 'WRITE(0)' in case, case
assert 'WRITE(0)' in out.split('case 1:')[2].split('case')[0]
'''
