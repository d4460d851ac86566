import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c08-second-recurrence', 'C08'
EDITS = [('src/reason.rs', "                if next_config.recs > 1 {\n                    return None;\n                }\n", "                if next_config.recs > 1 {\n                    if blanks.len() < 4 {\n                        return None;\n                    }\n\n                    continue;\n                }\n")]
NEEDS = 'a backward search that comes back to an earlier configuration twice after the tape could have been blank in four states'
BREAKS = 'the branch is dropped and not given up on, so that programs that halt are refuted'
COPY = NATIVE
DEMO_PY = HEADN + '''
p = '1RB 1LA  1LA 1RC  0RE 0RD  0LB 1RB  ... 0LA'
assert naive(p, 1000)[0] == 'undfnd'
assert all(N.py_cant_halt(p, d) is None for d in (20, 50, 100, 256))
'''
