import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c09-one-eraser', 'C09'
EDITS = [('src/reason.rs', "            (0, _, _) if color != 0 => {\n", "            (0, _, _)\n                if color == 1\n                    || color > 1\n                        && !matches!(\n                            comp.get(&(state, color - 1)),\n                            Some((0, _, _))\n                        ) =>\n            {\n")]
NEEDS = 'three colors, and a state that erases two neighboring colors, the higher of them last'
BREAKS = 'only the lowest of a row of erasing instructions of a state is searched backwards'
COPY = NATIVE
DEMO_PY = HEADN + '''
import random
r = random.Random(7)
T = [f'{c}{d}{s}' for c in '012' for d in 'LR' for s in 'AB']
bad = 0
for _ in range(60000):
    t = ['1RB'] + [r.choice(T) for _ in range(5)]
    p = '  '.join(' '.join(t[i:i + 3]) for i in (0, 3))
    rows = [[(int(x[0]), x[1] == 'R', ord(x[2]) - 65) for x in q.split(' ')] for q in p.split('  ')]
    tape, pos, st = {}, 0, 0
    for n in range(60):
        c, sh, st = rows[st][tape.get(pos, 0)]
        tape[pos] = c
        pos += 1 if sh else -1
        if not any(tape.values()):
            if st and N.py_cant_blank(p, 30) == 0:
                continue
            if st and N.py_cant_blank(p, 30) is not None:
                bad += 1
                print('refuted but blank', n, p)
            break
sys.exit(bad > 0)
'''
