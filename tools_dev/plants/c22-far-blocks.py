import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c22-far-blocks', 'C22'
EDITS = [('tm/tape.py', "            lspan = [block.clone() for block in self.lspan],\n            scan = self.scan,\n            rspan = [block.clone() for block in self.rspan],\n", "            lspan = [block.clone() for block in self.lspan[:8]] + self.lspan[8:],\n            scan = self.scan,\n            rspan = [block.clone() for block in self.rspan[:8]] + self.rspan[8:],\n")]
NEEDS = 'a tape of more than eight blocks on a side, copied, and changed that far from where the head was'
BREAKS = 'a copy of a tape shares its far blocks with the original'
FILES = STUB
DEMO_PY = HEAD + '''
from tm.tape import Tape, Block
t = Tape([Block(1 + i % 2, 3) for i in range(12)], 0, [])
was = str(t)
c = t.clone()
for _ in range(60):
    c.step(False, 0, False)
assert str(t) == was, (was, str(t))
'''
