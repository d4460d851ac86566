import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c05-block-65536', 'C05'
EDITS = [('src/tape.rs', "            if next_pull.get_count() > 1 {\n", "            if next_pull.get_count() > 1 && next_pull.get_count() != 65536 {\n")]
NEEDS = 'a run that steps onto a block of exactly 65536 cells'
BREAKS = 'the whole block is taken off for one of its cells'
COPY = NATIVE
DEMO_PY = HEADN + '''
p = '1RB 1LA  0LA 1RA'
m = N.run_quick_machine(p, 200000)
# the same cycles one by one: steps that repeat a state over a block are one cycle
tape, pos, st, n, lo, hi = {}, 0, 0, 0, 0, 0
rows = [[(1, 1, 1), (1, 0, 0)], [(0, 0, 0), (1, 1, 0)]]
while n < m.steps:
    c, sh, nx = rows[st][tape.get(pos, 0)]
    tape[pos] = c
    pos += 1 if sh else -1
    st, n = nx, n + 1
    if n > 60_000_000:
        break
assert n == m.steps and m.marks == sum(1 for v in tape.values() if v), (n, m.steps, m.marks)
'''
