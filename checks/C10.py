"""C10: a refutation of spinning out means the program never spins out."""
from bbv import sim

from . import _refute as R

PROPERTY, LEVEL = 'C10', 'exploration'
TECHNIQUE = 'reference-model monitor: refuted programs followed by a cell-by-cell machine'
NOTE = 'As C08, for spinning out.'
NAME = 'py_cant_spin_out'
RULE = ('Programs: many that really spin out (collected, and small normal-form programs), sparse and random tables, mutants; each asked with several arguments. A refutation is judged by '
        'running the program cell by cell. Non-trivial: distinct programs that were refuted, or '
        'that really spin out and were (rightly) not refuted.')
ASSUMPTIONS = ['A refuted program that has not spun out within the step budget of the monitor counts as never spinning out.']


def case(col, item):
    prog, args, budget = item
    res = R.refutations(col, NAME, prog, args)
    refuted = [(a, v) for a, v in res if v is not None]
    f = sim.Prog(prog).facts(budget)
    if f['spin'] is not None:
        col.count('programs that spin out')
        col.nontriv(prog)
        col.top('steps to spin-out', f['spin'])
        if refuted:
            col.violation('spins-out', R.mechanism(prog),
                          f'{prog}: refuted at depth {refuted[0][0]}, spins out after '
                          f'{f["spin"]} steps')
    elif refuted:
        col.count('refuted')
        col.nontriv(prog)
        col.sample('refuted', [prog, *refuted[0]])


def run(ctx):
    R.native()
    rng = ctx.rng('progs')
    progs = R.workload(ctx, rng, ('spin', 'halt'), (), (25_000, 600_000))
    items = []
    for p in dict.fromkeys(progs):
        items.append((p, sorted(rng.sample(R.DEPTHS, 3)) + [300], ctx.scale(300_000, 20_000_000)))
    ctx.map('case', items)
    ctx.need('programs that spin out', 1000)
    ctx.need('refuted', 1000)
