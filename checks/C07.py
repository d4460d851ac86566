"""C07: the quick recurrence filter only drops programs that never halt."""
from bbv import gen, sim
from bbv.rust import PanicException

from . import _refute as R

PROPERTY, LEVEL = 'C07', 'exploration'
TECHNIQUE = 'reference-model monitor: dropped programs followed by a cell-by-cell machine'
NOTE = 'A dropped program that halts beyond the step budget is not seen.'
RULE = ('Programs in normal form (first instruction 1RB): many that really halt, corpora, small '
        'trees, random tables and mutants, each filtered at several limits. What is dropped is run '
        'cell by cell and must not halt. Non-trivial: distinct programs dropped, or that halt and were kept.')
ASSUMPTIONS = ['A dropped program that has not halted within the step budget of the monitor counts '
               'as never halting.']


def case(col, item):
    prog, lims, budget = item
    drop = R.native().py_quick_term_or_rec
    f = sim.Prog(prog).facts(budget)
    if f['status'] == 'undef' and f['steps'] > 100:
        lims = [*lims, min(f['steps'] + 10, 30_000)]
        col.count('halting programs filtered for all of their run')
    for lim in lims:
        col.ev()
        try:
            v = drop(prog, lim)
        except PanicException as e:
            col.violation('panic', prog, f'limit {lim}: panics: {e}')
            return
        if v:
            col.count('dropped')
            col.nontriv(prog)
            if f['status'] == 'undef':
                col.violation('halts', prog, f'dropped at limit {lim}, halts at step {f["steps"]} '
                              f'on {(f["state"], f["scan"])}')
                return
        elif f['status'] == 'undef':
            col.count('halting programs kept')
            col.nontriv(prog)
            col.top('steps to halt', f['steps'])
    if f['status'] != 'undef' and v:
        col.sample('dropped', [prog, lim])


def run(ctx):
    R.native()
    rng = ctx.rng('progs')
    progs = R.workload(ctx, rng, ('halt',), (), (25_000, 600_000))
    progs += gen.corpus_progs() + gen.rule_ends()
    items = []
    for p in dict.fromkeys(progs):
        if p.startswith('1RB'):
            ls = sorted(rng.sample((1, 2, 5, 10, 30, 60, 100, 200, 301, 500, 1000, 2000), 3))
            items.append((p, ls, ctx.scale(500_000, 20_000_000)))
    ctx.map('case', items)
    ctx.need('halting programs kept', 1000)
    ctx.need('dropped', 1000)
