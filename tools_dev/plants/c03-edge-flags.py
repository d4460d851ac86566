import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c03-edge-flags', 'C03'
EDITS = [('tm/prover.py', "                and lspan == (sig[1] if lex else sig[1][:len(lspan)])\n", "                and lspan == (sig[1] if lex and rex else sig[1][:len(lspan)])\n")]
NEEDS = 'a rule whose proof ran into the left end of the tape and not into the right one, met again with more to the left'
BREAKS = 'the rule is used where the tape goes on beyond what its proof took for the end'
FILES = STUB
DEMO_PY = HEAD + '''
from tm.machine import Machine
p = '1RB 2LA ... 5LB 5LA 4LB  1LA 4RB 3RB 0RB 1LB 4RA'
m = Machine(p).run(sim_lim=5000)
rows = [[None if '.' in x else (int(x[0]), x[1] == 'R', ord(x[2]) - 65) for x in r.split(' ')] for r in p.split('  ')]
tape, pos, st = {}, 0, 0
for n in range(3_000_000):
    i = rows[st][tape.get(pos, 0)]
    if i is None:
        break
    tape[pos] = i[0]
    pos += 1 if i[1] else -1
    st = i[2]
else:
    raise AssertionError('does not end')
assert m.undfnd is not None and m.undfnd[1] == (st, tape.get(pos, 0)), m.undfnd
assert m.marks == sum(1 for v in tape.values() if v), (m.marks, sum(1 for v in tape.values() if v))
'''
