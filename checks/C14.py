"""C14: graph views agree with the program table."""
import re

from bbv import gen, pyload, sim
from bbv.rust import PanicException

PROPERTY, LEVEL = 'C14', 'exploration'
TECHNIQUE = 'reference-model monitor: every graph answer recomputed from the table'
NOTE = ('Held on the tables listed in the evidence. "Connected" is taken as documented by use: every '
        'state has an exit to another state and the last state leads to the first.')
RULE = ('All tables of 2 states with 2 colours up to what the graph can see, recorded programs, random '
        'tables of up to 9 states and 10 colours, sparse, dense and with small out-degree, and '
        'mutants. Every property of the graph object is recomputed from the table, and asked '
        'in random order. Non-trivial: distinct graphs, by arrows.')


def reach(arrows, start, via):
    """States reached from `start` by at least one arrow, going on only through `via`."""
    seen, todo = set(), list(arrows[start])
    while todo:
        t = todo.pop()
        if t not in seen:
            seen.add(t)
            if t in via:
                todo.extend(arrows[t])
    return seen


def reference(rows):
    n, k = sim.dims(rows)
    arrows = {s: tuple(None if i is None else i[2] for i in row) for s, row in enumerate(rows)}
    exits = {s: {t for t in a if t is not None} for s, a in arrows.items()}
    entries = {s: {x for x in exits if s in exits[x]} for s in arrows}
    flat = [t for a in arrows.values() for t in a]
    order = []
    for t in flat:
        if t not in (None, 0) and t not in order:
            order.append(t)
    refl = {s for s in arrows if s in exits[s]}
    zrefl = {s for s in arrows if arrows[s][0] == s}
    others = {s: exits[s] - {s} for s in arrows}
    conn = all(others.values()) and 0 in reach(others, n - 1, set(arrows) - {0})
    if n == 1:
        conn = False
    return {
        'arrows': arrows, 'exit_points': exits, 'entry_points': entries,
        'states': tuple(range(n)), 'colors': tuple(range(k)),
        'is_normal': order == list(range(1, n)),
        'is_connected': conn,
        'reflexive_states': refl, 'zero_reflexive_states': zrefl,
        'is_irreflexive': not refl, 'is_zero_reflexive': bool(zrefl),
        'entries_dispersed': all(len(e) == k for e in entries.values()),
        'exits_dispersed': all(len(e) == k for e in exits.values()),
        'is_dispersed': all(len(e) == k for e in (*entries.values(), *exits.values())),
    }, exits


EDGE = re.compile(r'^\s*([A-Z]) -> ([A-Z]) \[ color="\s*(\w+)\s*" \];$')


def case(col, item):
    prog, shuffle = item
    native = pyload.load(False)
    from tools.graph import Graph
    from tools.dot import make_dot
    rows = sim.parse(prog)
    n, k = sim.dims(rows)
    want, exits = reference(rows)
    key = prog
    col.ev()
    col.nontriv((k, str(want['arrows'])))
    try:
        g = Graph(prog)
        names = sorted(want)
        # answers must not depend on which were asked before
        shuffle_rng = __import__('random').Random(shuffle)
        extra = ['reduced', 'is_simple']
        order = names + extra
        shuffle_rng.shuffle(order)
        got = {}
        for name in order + order[:4]:
            v = getattr(g, name)
            if name in got and got[name] != v:
                col.violation('unstable', key, f'{name} was {got[name]}, is {v}')
            got[name] = v
        text = str(g)
    except Exception as e:
        col.violation('exception', key, f'{type(e).__name__}: {e}')
        return
    for name in names:
        col.count('answers compared')
        if got[name] != want[name]:
            col.violation(name, key, f'{name} is {got[name]}, should be {want[name]}')
    flat = ''.join('.' if t is None else chr(65 + t) for a in want['arrows'].values() for t in a)
    if text != flat:
        col.violation('str', key, f'shown as {text}, should be {flat}')
    if want['is_connected']:
        col.count('connected graphs')
    if want['is_normal']:
        col.count('normal graphs')

    # strongly connected graphs of more than one state are connected
    if n > 1 and all(reach(exits, s, set(exits)) == set(exits) for s in exits):
        col.count('strongly connected graphs')
        if not got['is_connected']:
            col.violation('strongly-connected', key, 'strongly connected, but not connected')

    # the native answer
    if not getattr(native, 'is_reference', False):
        try:
            v = native.py_is_connected(prog, n)
            col.count('native answers')
            if v != want['is_connected']:
                col.violation('native-connected', key, f'{v}, should be {want["is_connected"]}')
        except PanicException as e:
            col.violation('native-panic', key, str(e))

    # simplification: what is left cannot be simplified, and has exactly the paths of the graph
    red = got['reduced']
    left = set(red)
    col.count('states left by simplification', len(left))
    col.count('graphs simplified away' if not left else 'graphs not simplified away')
    if got['is_simple'] != (not left):
        col.violation('is_simple', key, f'is_simple {got["is_simple"]}, reduced {red}')
    if not left <= set(exits):
        col.violation('reduced', key, f'{red} has states the graph has not')
    else:
        for s in left:
            paths = (reach(exits, s, set(exits) - left) & left) - {s}
            if set(red[s]) != paths:
                col.violation('reduced', key, f'{red}: {s} should lead to {paths}')
                break
            ent = {x for x in left if s in red[x]}
            if len(red[s]) < 2 or len(ent) == 1:
                col.violation('reducible', key, f'{red} can be simplified at {s}')
                break

    # the picture
    try:
        dot = make_dot(prog)
    except Exception as e:
        col.violation('dot', key, f'no picture: {type(e).__name__}: {e}')
        return
    edges = [(m[1], m[2], m[3]) for m in map(EDGE.match, dot.split('\n')) if m]
    lines = sum('->' in line for line in dot.split('\n'))
    real = [(chr(65 + s), chr(65 + t), c) for s, a in want['arrows'].items()
            for c, t in enumerate(a) if t is not None]
    col.count('arrows drawn', len(edges))
    if lines != len(edges) or sorted(e[:2] for e in edges) != sorted(e[:2] for e in real):
        col.violation('dot', key, f'{len(edges)} arrows drawn, {len(real)} in the table')
    else:
        # one colour name per symbol, different for different symbols
        used = {}
        for (_, _, name), (_, _, c) in zip(edges, real):
            used.setdefault(c, set()).add(name)
        if [e[:2] for e in edges] == [e[:2] for e in real] and (
                any(len(x) > 1 for x in used.values())
                or len(set().union(*used.values())) != len(used) if used else False):
            col.violation('dot', key, f'symbols are drawn as {used}')
    col.sample('graph', [prog, {k: str(v) for k, v in red.items()}])


def run(ctx):
    pyload.load(False)
    rng = ctx.rng('tables')
    progs = list(gen.corpus_progs())
    progs += gen.tnf(2, 2, 20) + gen.tnf(3, 2, 8)[:3000]
    # every 2 x 2 and, sampled, 3 x 2 graph
    import itertools
    for ts in itertools.product((None, 0, 1), repeat=4):
        progs.append(sim.show([[None if t is None else (1, True, t) for t in ts[i:i + 2]]
                               for i in (0, 2)]))
    for ts in itertools.product((None, 0, 1, 2), repeat=6):
        progs.append(sim.show([[None if t is None else (1, False, t) for t in ts[i:i + 2]]
                               for i in (0, 2, 4)]))
    for _ in range(ctx.scale(30_000, 800_000)):
        ns, nc = (rng.choice(gen.SIZES) if rng.random() < .6
                  else (rng.randrange(1, 10), rng.randrange(1, 11)))
        rows = gen.random_prog(rng, ns, nc, undef=rng.choice((0, 0, 1, 2, ns * nc // 2)),
                               first=None)
        if rng.random() < .5:
            # few targets per state: long cycles, single entries and exits
            for s, row in enumerate(rows):
                ts = [rng.randrange(ns) for _ in range(rng.choice((1, 1, 2)))]
                rows[s] = [i and (i[0], i[1], rng.choice(ts)) for i in row]
        progs.append(sim.show(rows))
    ctx.map('case', [(p, rng.randrange(10 ** 6)) for p in dict.fromkeys(progs)])
    for what in ('connected graphs', 'normal graphs', 'strongly connected graphs',
                 'graphs simplified away', 'graphs not simplified away', 'arrows drawn'):
        ctx.need(what, 20)
