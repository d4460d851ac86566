import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c07-window', 'C07'
EDITS = [('src/tape.rs', "                && prev.get_ltr(leftmost)\n                    == self.get_ltr(leftmost + diff)\n", "                && {\n                    let (before, after) = (\n                        prev.get_ltr(leftmost),\n                        self.get_ltr(leftmost + diff),\n                    );\n\n                    before.len().min(24) <= after.len()\n                        && before.iter().take(24).eq(after.iter().take(24))\n                }\n")]
NEEDS = 'a run that comes back to the same state with the same 24 cells beside the head after a visit further away than that'
BREAKS = 'at most 24 cells of the window are compared, and programs that halt are dropped'
COPY = NATIVE
DEMO_PY = HEADN + '''
p = '1RB 2LA 1RA 1LA  3LA ... 2RB 2LA'
assert naive(p, 10000)[0] == 'undfnd'
assert not any(N.py_quick_term_or_rec(p, lim) for lim in (301, 500, 1000, 2000, 6000))
'''
