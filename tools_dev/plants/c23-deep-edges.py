import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c23-deep-edges', 'C23'
EDITS = [('tm/prover.py', "        return (sig[0], sig[1][:lmax], sig[2][:rmax]), tape.edges\n",
"""        return (sig[0], sig[1][:lmax], sig[2][:rmax]), (
            tape.edges if lmax + rmax < 7 else (False, False))
""")]
NEEDS = 'a proof that looks at seven blocks or more and runs into an end of the tape'
BREAKS = 'the end of the tape is not recorded, and the rule is used on tapes that go on there'
FILES = STUB
DEMO_PY = HEAD + '''
from tm.prover import Prover
from tm.tape import Tape, Block
walk = {(0, 0): (0, True, 0), (0, 1): (1, True, 0)}
blocks = lambda n: [Block(1 - k % 2, 2) for k in range(n)]
p = Prover(walk)
t = Tape([], 0, blocks(9))
fp = p.get_min_sig(11, 0, t.to_enum(), t.signature)
p.set_rule({(1, 0): -1}, 0, fp)
for n, same in ((9, True), (10, False), (11, False), (8, False)):
    u = Tape([], 0, blocks(n))
    assert (p.get_rule(0, u, u.signature) is not None) == same, (n, fp)
'''
