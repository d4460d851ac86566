import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c06-both-ends', 'C06'
EDITS = [('src/prover.rs', "                && (if *rex {\n                    rspan == &sig.rspan\n", "                && (if *rex && *lex {\n                    rspan == &sig.rspan\n")]
NEEDS = 'a rule whose proof reached the right end of the tape only, met again with more to the right'
BREAKS = 'the native prover applies a rule beyond the tape it was proved for'
COPY = NATIVE
DEMO_PY = HEADN + '''
p = '1RB 2LB 3RA 2LA  3LB 3RA 0RB 1RB'
m = N.run_prover(p, 2000)
k, n, st, tape = naive(p, 3_000_000)
assert k == 'spnout'
assert m.spnout is not None and m.marks == sum(1 for v in tape.values() if v), (m.marks, n)
'''
