import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c23-single-neighbour', 'C23'
EDITS = [('tm/tape.py', "            if skip and near_block.color == self.tape.scan:\n", "            if skip and near_block.color == self.tape.scan and near_block.count != 1:\n")]
NEEDS = 'a skip over a block of one cell'
BREAKS = 'what lies behind the skipped cell is not recorded'
FILES = STUB
DEMO_PY = HEAD + '''
from tm.tape import Tape, Block
t = Tape([], 1, [Block(1, 1), Block(2, 2), Block(1, 5)]).to_enum()
t.step(True, 2, True)
assert t.scan == 2
assert t.offsets == (0, 2), t.offsets
'''
