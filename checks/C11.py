"""C11: segment analysis only refutes programs that never halt."""
from bbv import sim

from . import _refute as R

PROPERTY, LEVEL = 'C11', 'exploration'
TECHNIQUE = 'reference-model monitor: refuted programs followed by a cell-by-cell machine; panics observed'
NOTE = 'As C08, for segment analysis.'
NAME = 'py_segment_cant_halt'
RULE = ('Programs: many that really halt (collected, and small normal-form programs), sparse and random tables, mutants; each asked with several arguments. A refutation is judged by '
        'running the program cell by cell. Non-trivial: distinct programs that were refuted, or '
        'that really halt and were (rightly) not refuted.')
ASSUMPTIONS = ['A refuted program that has not halted within the step budget of the monitor counts as never halting.']


def case(col, item):
    prog, args, budget = item
    res = R.refutations(col, NAME, prog, args)
    refuted = [(a, v) for a, v in res if v is not None]
    f = sim.Prog(prog).facts(budget)
    if f['status'] == 'undef':
        col.count('programs that halt')
        col.nontriv(prog)
        col.top('steps to halt', f['steps'])
        if refuted:
            col.violation('halts', prog, f'refuted with {refuted[0][0]} segments, halts at step '
                          f'{f["steps"]} on {(f["state"], f["scan"])}')
    elif refuted:
        col.count('refuted')
        col.nontriv(prog)
        col.sample('refuted', [prog, *refuted[0]])


def run(ctx):
    R.native()
    rng = ctx.rng('progs')
    progs = R.workload(ctx, rng, ('halt',), (), (20_000, 500_000))
    items = []
    for p in dict.fromkeys(progs):
        items.append((p, [2, rng.choice((3, 4)), rng.choice((5, 6, 7, 8))], ctx.scale(300_000, 20_000_000)))
    ctx.map('case', items)
    ctx.need('programs that halt', 1000)
    ctx.need('refuted', 300)
