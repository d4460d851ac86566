"""Workloads: program corpora and generators.  Everything is a function of the rng given."""
import functools
import json
import pathlib

from . import sim


@functools.cache
def corpus():
    p = pathlib.Path(__file__).parent / 'data' / 'corpus.json'
    return json.loads(p.read_text())


def corpus_progs(*groups, without=()):
    c = corpus()
    return sorted({p for g in (groups or c) if g not in without for p in c[g]})


def random_prog(rng, ns, nc, undef=None, first='1RB'):
    """A random table; `undef` undefined slots (default: usually one)."""
    rows = [[(rng.randrange(nc), rng.random() < .5, rng.randrange(ns)) for _ in range(nc)]
            for _ in range(ns)]
    slots = [(s, c) for s in range(ns) for c in range(nc)]
    if undef is None:
        undef = rng.choice((0, 1, 1, 1, 2))
    for s, c in rng.sample(slots[1:] if first else slots, min(undef, len(slots) - 1)):
        rows[s][c] = None
    if first:
        rows[0][0] = (1, True, 1 if ns > 1 else 0)
    return rows


def tree_prog(rng, ns, nc, depth=60, halt=True):
    """A random path in the tree of normal-form programs: an instruction is chosen only when the
    run reaches its slot, so (nearly) every instruction matters and the run is long for its size."""
    rows = [[None] * nc for _ in range(ns)]
    rows[0][0] = (1, True, 1 if ns > 1 else 0)
    left = ns * nc - 1
    maxs, maxc = (1 if ns > 1 else 0), 1
    tape, head, state = {}, 0, 0
    steps = 0
    while steps < 2000:
        ins = rows[state][tape.get(head, 0)]
        if ins is None:
            if left <= (1 if halt else 0):
                break
            left -= 1
            c = rng.randrange(min(nc, maxc + 2))
            s = rng.randrange(min(ns, maxs + 2))
            # avoid the instantly trivial
            ins = (c, rng.random() < .5, s)
            maxc, maxs = max(maxc, c), max(maxs, s)
            rows[state][tape.get(head, 0)] = ins
        tape[head] = ins[0]
        head += 1 if ins[1] else -1
        state = ins[2]
        steps += 1
    # fill what was not reached, perhaps
    if rng.random() < .5:
        for r in rows:
            for c in range(nc):
                if r[c] is None and left > (1 if halt else 0):
                    left -= 1
                    r[c] = (rng.randrange(nc), rng.random() < .5, rng.randrange(ns))
    return rows


def mutate(rng, prog):
    rows = [list(r) for r in sim.parse(prog)]
    ns, nc = sim.dims(rows)
    for _ in range(rng.choice((1, 1, 2))):
        s, c = rng.randrange(ns), rng.randrange(nc)
        if (s, c) == (0, 0):
            continue
        i = rows[s][c]
        k = rng.randrange(4)
        if k == 0:
            rows[s][c] = None
        elif i is None or k == 1:
            rows[s][c] = (rng.randrange(nc), rng.random() < .5, rng.randrange(ns))
        elif k == 2:
            rows[s][c] = (i[0], not i[1], i[2])
        else:
            rows[s][c] = (i[0], i[1], rng.randrange(ns))
    return rows


SIZES = ((2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3), (5, 2), (2, 5), (4, 3), (3, 4), (6, 2),
         (7, 2), (8, 2))


def some_prog(rng, sizes=SIZES, corpus_share=.25):
    r = rng.random()
    if r < corpus_share:
        ps = corpus_progs()
        for _ in range(20):
            p = rng.choice(ps)
            ns, nc = sim.dims(sim.parse(p))
            if ns <= 8 and nc <= 6:
                break
        return sim.show(mutate(rng, p))
    ns, nc = rng.choice(sizes)
    if r < corpus_share + .5:
        return sim.show(tree_prog(rng, ns, nc))
    return sim.show(random_prog(rng, ns, nc))


def erasing_prog(rng):
    """Programs whose tape becomes blank in several states before they do anything else."""
    ns, nc = rng.choice(((3, 2), (4, 2), (5, 2), (6, 2), (7, 2), (8, 2), (4, 3), (6, 3)))
    rows = []
    for s in range(ns):
        row = []
        for c in range(nc):
            if rng.random() < .08:
                row.append(None)
                continue
            to = (s + 1) % ns if rng.random() < .75 else rng.randrange(ns)
            row.append((0 if rng.random() < .8 else rng.randrange(nc), rng.random() < .5, to))
        rows.append(row)
    rows[0][0] = (1, True, 1)
    if rng.random() < .7:
        rows[-1][rng.choice((0, 0, 1))] = None
    return rows


LARGE = ((6, 4), (4, 6), (7, 3), (3, 8), (8, 3), (5, 5), (2, 10), (9, 2), (10, 2), (12, 2), (11, 3), (14, 2))


def large_prog(rng):
    """Tables larger than those in SIZES."""
    ns, nc = rng.choice(LARGE)
    return tree_prog(rng, ns, nc) if rng.random() < .6 else random_prog(rng, ns, nc)


@functools.cache
def tnf(ns, nc, limit=200, halt=True):
    """All normal-form programs reached within `limit` steps, by an independent enumeration:
    when the run hits an undefined slot every instruction in normal form is tried.
    Yields complete leaves (programs whose run hits an undefined slot that is left undefined, or
    that are still running at the limit)."""
    out = []

    def go(rows, nundef, maxs, maxc):
        prog = sim.Prog(rows)
        r = prog.run(limit)
        if r['status'] != 'undef':
            out.append(sim.show(rows))
            return
        out.append(sim.show(rows))
        if nundef <= 1:
            return
        s, c = r['state'], r['scan']
        ms, mc = max(maxs, s), max(maxc, c)
        for color in range(min(nc, mc + 2)):
            for shift in (False, True):
                for nxt in range(min(ns, ms + 2)):
                    new = [list(x) for x in rows]
                    new[s][c] = (color, shift, nxt)
                    go(new, nundef - 1, max(ms, nxt), max(mc, color))

    rows = [[None] * nc for _ in range(ns)]
    rows[0][0] = (1, True, 1)
    go(rows, ns * nc - 1, 1, 1)
    return out


POOL = 30_000


@functools.cache
def _pool():
    import random
    rng = random.Random('pool 1')
    seen, out = set(), []
    while len(out) < POOL:
        p = some_prog(rng)
        if p not in seen:
            seen.add(p)
            out.append(p)
    return out


def pool(rng, n=None):
    """A choice of n programs out of a fixed pool.  For monitors that have genuine findings which
    are listed by program: whatever the seed, a finding is either in the list or new."""
    return _pool() if n is None else rng.sample(_pool(), n)


@functools.cache
def long_cells():
    """(program, cells): programs that, started on blank cells at one edge of them, stay inside for
    most of the configurations there are before they leave; and their mirror images."""
    p = pathlib.Path(__file__).parent / 'data' / 'longcells.json'
    out = []
    for prog, n in json.loads(p.read_text()):
        rows = sim.parse(prog)
        mirror = [[i and (i[0], not i[1], i[2]) for i in r] for r in rows]
        out += [(prog, n), (sim.show(mirror), n)]
    return out


def wide_cells(rng, n=8):
    """(program, cells) as in long_cells, with cells far too many for every content to be met: programs
    that count through those that are."""
    ps = sorted({p for p, k in long_cells() if k == 9 and sim.dims(sim.parse(p))[1] == 2})
    return [(p, rng.choice((10, 11, 12, 13, 13))) for p in rng.sample(ps, min(n, len(ps)))]


@functools.cache
def deep_rules():
    """Programs found to have rules that take long, hundreds of cycles some of them, or that look at
    many blocks of the tape."""
    return json.loads((pathlib.Path(__file__).parent / 'data' / 'deeprules.json').read_text())


@functools.cache
def rule_ends():
    """Programs that end, most of them after rules have been applied."""
    return json.loads((pathlib.Path(__file__).parent / 'data' / 'ruleends.json').read_text())
