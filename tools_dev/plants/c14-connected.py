import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c14-connected', 'C14'
FILES = STUB
EDITS = [('tools/graph.py', "            try:\n                state = todo.pop()\n            except KeyError:\n                break\n\n            if state == 0:\n                return True\n\n            reached.add(state)\n\n            todo |= exitpoints[state] - reached\n", "            try:\n                state = todo.pop()\n            except KeyError:\n                break\n\n            if state == 0:\n                return True\n\n            reached.add(state)\n\n            todo = (todo - reached) | exitpoints[state]\n")]
NEEDS = 'a graph in which the search meets states again before it meets the first one'
BREAKS = 'the search for a way back to the first state visits states twice and runs out of turns, so a connected program is called disconnected'
DEMO_PY = HEAD + '''
from tools.graph import Graph
import random
rng = random.Random(3)
for _ in range(20000):
    n = rng.randrange(3, 9)
    c = rng.randrange(2, 5)
    tab = [[rng.randrange(1 if s < n - 1 and rng.random() < .6 else 0, n) for _ in range(c)] for s in range(n)]
    prog = '  '.join(' '.join(f'1R{chr(65 + t)}' for t in row) for row in tab)
    ex = [set(r) - {s} for s, r in enumerate(tab)]
    if not all(ex):
        want = False
    else:
        seen, todo = set(), [n - 1]
        while todo:
            for t in ex[todo.pop()]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        want = 0 in seen
    assert Graph(prog).is_connected == want, prog
'''
