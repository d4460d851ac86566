"""C15: normalizing a program keeps its behaviour and is canonical."""
import random

from bbv import gen, pyload, sim
from bbv.renaming import canonical, first_mark, mirror, same_run, shuffled

PROPERTY, LEVEL = 'C15', 'exploration'
TECHNIQUE = 'lockstep monitor of the program and its normalized form; canonical form recomputed'
NOTE = ('Runs are compared for a bounded number of steps; the canonical form is judged for programs whose '
        'states and colours are all reached and are named by the order in which they are mentioned.')
RULE = ('Recorded programs, trees, random tables with undefined slots, rows and columns, programs that '
        'move before their first mark, and random renamings and mirror images of all of these. '
        'Non-trivial: distinct programs whose normal form differs from them and was followed for '
        'at least 10 steps, and distinct canonical forms.')
ASSUMPTIONS = ['The steps before the first mark are left out of the run on purpose (the normal form starts '
               'with the instruction that makes the first mark).']


def case(col, item):
    pyload.load(False)
    from tools.normalize import normalize
    prog, seed, limit = item
    rng = random.Random(seed)
    rows = sim.parse(prog)
    col.ev()

    def norm(p):
        try:
            return normalize(p)
        except Exception as e:
            col.violation('exception', p, f'{type(e).__name__}: {e}')
            return None

    text = norm(prog)
    if text is None:
        return
    try:
        got = sim.parse(text)
    except Exception as e:
        col.violation('text', prog, f'gives {text!r}')
        return
    why, maps, steps = same_run(rows, got, limit)
    col.count('steps in lockstep', steps)
    if why:
        col.violation('behaviour', prog, f'normalized to {text}: {why}')
        return
    if text != prog and steps >= 10:
        col.count('changed and followed')
        col.nontriv(prog)
        if first_mark(rows) and first_mark(rows)[1]:
            col.count('moves before its first mark')
    again = norm(text)
    if again is None:
        return
    want = canonical(rows)
    if again != text and want is not None:
        col.violation('idempotent', prog, f'{text} is normalized again to {again}')
        return
    if got[0][0] is not None and not got[0][0][1]:
        col.violation('direction', prog, f'{text} starts left')
    if want is not None:
        want = sim.show(want)
        col.count('canonical forms')
        col.nontriv(('canonical', want))
        if text != want:
            col.violation('canonical', prog, f'{text}, should be {want}')
            return
        for _ in range(2):
            other = sim.show(shuffled(rng, rows))
            col.ev()
            col.count('renamed copies')
            if (t := norm(other)) is not None and t != want:
                col.violation('canonical', other, f'{t}, should be {want}')
        col.sample('canonical', [prog, text])


def run(ctx):
    pyload.load(False)
    rng = ctx.rng('progs')
    limit = ctx.scale(500, 3000)
    tables = [sim.parse(p) for p in gen.corpus_progs()]
    tables = [r for r in tables if len({len(x) for x in r}) == 1]
    tables += [sim.parse(p) for p in gen.tnf(2, 2, 30)]
    t = gen.tnf(3, 2, 30) + gen.tnf(2, 3, 30)
    tables += [sim.parse(p) for p in rng.sample(t, min(len(t), ctx.scale(3000, 10 ** 9)))]
    for _ in range(ctx.scale(25_000, 500_000)):
        r = rng.random()
        ns, nc = rng.choice(gen.SIZES)
        if r < .4:
            rows = gen.tree_prog(rng, ns, nc)
        elif r < .5:
            rows = sim.parse(gen.some_prog(rng))
        else:
            rows = gen.random_prog(rng, ns, nc, undef=rng.choice((0, 0, 1, 2, ns * nc // 2)),
                                   first=rng.choice(('1RB', None)))
            if r < .7:
                # move a while before the first mark
                for s in rng.sample(range(ns), rng.randrange(ns)):
                    if rows[s][0]:
                        rows[s][0] = (0,) + rows[s][0][1:]
            if r > .9:
                rows[rng.randrange(ns)] = [None] * nc
            elif r > .85 and nc > 2:
                c = rng.randrange(1, nc)
                for row in rows:
                    row[c] = None
        tables.append(rows)
    items = []
    for rows in tables:
        items.append((sim.show(rows), rng.randrange(10 ** 9), limit))
        if rng.random() < .3:
            items.append((sim.show(shuffled(rng, rows)), rng.randrange(10 ** 9), limit))
    ctx.map('case', items)
    ctx.need('changed and followed', 500)
    ctx.need('canonical forms', 1000)
    ctx.need('moves before its first mark', 50)
