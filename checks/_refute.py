"""Shared by C08-C11: a refutation is judged by what the cell-by-cell machine does."""
import functools
import json
import pathlib

from bbv import gen, pyload, sim
from bbv.rust import PanicException


@functools.cache
def ended():
    p = pathlib.Path(gen.__file__).parent / 'data' / 'ended.json'
    return json.loads(p.read_text())


def native():
    return pyload.load(True)


DEPTHS = (0, 1, 2, 3, 5, 8, 13, 20, 40, 120, 256)


def refutations(col, name, prog, args_list):
    """[(arg, refuted, value)] of the native refuter, judging that it answers at all and (for
    depths) that a longer search never takes a refutation back."""
    fn = getattr(native(), name)
    out, prev = [], None
    for a in args_list:
        col.ev()
        try:
            v = fn(prog, a)
        except PanicException as e:
            col.violation('panic', prog, f'{name}({prog!r}, {a}) panics: {e}')
            return out
        out.append((a, v))
        if prev is not None and prev[1] is not None and v != prev[1]:
            col.violation('withdrawn', prog, f'{name} says {prev[1]} at {prev[0]}, {v} at {a}')
        prev = (a, v)
    return out


def workload(ctx, rng, kinds, corpora, n_random, wild=True):
    """Programs biased to those that really do what is refuted."""
    e = ended()
    progs = [p for k in kinds for p in e[k]]
    progs = rng.sample(progs, min(len(progs), ctx.scale(2500, 10 ** 9)))
    progs += gen.corpus_progs(*corpora)
    progs += gen.tnf(2, 2, 50)
    for d in ((3, 2), (2, 3)):
        t = gen.tnf(*d, 60)
        progs += rng.sample(t, min(len(t), ctx.scale(1500, 10 ** 9)))
    for _ in range(ctx.scale(*n_random)):
        r = rng.random()
        if r < .2:
            progs.append(sim.show(gen.mutate(rng, rng.choice(e[rng.choice(kinds)]))))
        elif r < .5:
            ns, nc = rng.choice(gen.SIZES[:11])
            progs.append(sim.show(gen.random_prog(
                rng, ns, nc, undef=rng.randrange(ns * nc * 2 // 3 + 1))))
        else:
            progs.append(gen.some_prog(rng))
    return progs


def mechanism(prog, slot=None):
    """What is special about a program, as far as the recorded findings go."""
    rows = sim.parse(prog)
    comp = sim.comp(rows)
    if slot is not None and (slot[0] > max(s for s, _ in comp) or slot[1] > max(c for _, c in comp)):
        return 'the halt is in a last state or color that has no instructions'
    into = {}
    for (s, _), (_, _, t) in comp.items():
        into.setdefault(t, set()).add(s)
    live = set(into)
    while True:
        less = {t for t in live if into[t] & live}
        if less == live:
            break
        live = less
    if 0 not in live:
        return 'no cycle of states leads back to A'
    return prog
