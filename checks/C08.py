"""C08: a refutation of halting means the program never halts."""
from bbv import sim

from . import _refute as R

PROPERTY, LEVEL = 'C08', 'exploration'
TECHNIQUE = 'reference-model monitor: refuted programs followed by a cell-by-cell machine'
NOTE = 'A refuted program that halts beyond the step budget is not seen; known findings are keyed by mechanism.'
NAME, WHAT = 'py_cant_halt', 'undef'
RULE = ('Programs: many that really halt (collected, and every small normal-form program), recorded corpora, '
        'sparse and random tables, mutants; each asked at growing depths. A refutation is judged by '
        'running the program cell by cell. Non-trivial: distinct programs that were refuted, or '
        'that really halt and were (rightly) not refuted.')
ASSUMPTIONS = ['A refuted program that has not halted within the step budget of the monitor counts '
               'as never halting.']


def case(col, item):
    prog, depths, budget = item
    res = R.refutations(col, NAME, prog, depths)
    refuted = [(a, v) for a, v in res if v is not None]
    f = sim.Prog(prog).facts(budget)
    if f['status'] == 'undef':
        col.count('programs that halt')
        col.nontriv(prog)
        if refuted:
            col.violation('halts', R.mechanism(prog, (f["state"], f["scan"])),
                          f'{prog}: refuted at depth {refuted[0][0]}, halts at step '
                          f'{f["steps"]} on {(f["state"], f["scan"])}')
    elif refuted:
        col.count('refuted')
        col.nontriv(prog)
        col.sample('refuted', [prog, *refuted[0]])


def run(ctx):
    R.native()
    rng = ctx.rng('progs')
    progs = R.workload(ctx, rng, ('halt',), (), (25_000, 600_000))
    items = []
    for p in dict.fromkeys(progs):
        ds = sorted(rng.sample(R.DEPTHS, 3)) + [300]
        items.append((p, ds, ctx.scale(400_000, 20_000_000)))
    ctx.map('case', items)
    ctx.need('programs that halt', 1000)
    ctx.need('refuted', 1000)
