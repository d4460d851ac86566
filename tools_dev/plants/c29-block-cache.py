import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c29-block-cache', 'C29'
EDITS = [('tm/macro.py', "    if (cached := BLOCKS[params].get(blocks)) is not None:\n        return cached\n\n    block = BlockLogic(blocks, *params)\n    BLOCKS[params][blocks] = block\n", "    _, colors = params\n\n    if (cached := BLOCKS[0, colors].get(blocks)) is not None:\n        return cached\n\n    block = BlockLogic(blocks, *params)\n    BLOCKS[0, colors][blocks] = block\n")]
NEEDS = 'a block macro of a program with fewer states and as many colors made earlier in the same process, then one whose block is walked for longer than the earlier bound'
BREAKS = 'the logic of block macros is kept per number of colors only, so that its bound on steps comes from whichever program was first'
FILES = {**STUB, 'walk.py': HEAD + """
from tm.macro import make_macro, MacroInfLoop
first = sys.argv[1:]
for p in first:
    make_macro(p, blocks=2)
p = '1RB 0RC  1LC 1LA  0RD 1LE  1RA 1LD  1RF 0LA  0LF 1RE'
out = []
import random
r = random.Random(5)
for _ in range(300):
    ns = 6
    p = '  '.join(' '.join(f'{r.randrange(2)}{r.choice("LR")}{r.choice("ABCDEF")}' for _ in range(2)) for _ in range(ns))
    m = make_macro(p, blocks=2)
    row = []
    todo, seen = [(0, 0)], set()
    while todo and len(seen) < 60:
        s = todo.pop(0)
        if s in seen:
            continue
        seen.add(s)
        try:
            i = m[s]
            row.append(i)
            todo += [(i[2], 0), (i[2], i[0])]
        except MacroInfLoop:
            row.append('loop')
        except AssertionError:
            pass
    out.append(row)
print(out)
"""}
DEMO_PY = '''
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
a, b = (subprocess.run([sys.executable, here + '/walk.py', *x], capture_output=True, text=True) for x in ([], ['1RA 1LA']))
print(a.stderr[-300:])
assert a.stdout and a.stdout == b.stdout
'''
