"""C09: a refutation of blanking means the tape never becomes blank."""
from bbv import sim

from . import _refute as R

PROPERTY, LEVEL = 'C09', 'exploration'
TECHNIQUE = 'reference-model monitor: refuted programs followed by a cell-by-cell machine'
NOTE = 'As C08, for blank tapes.'
NAME = 'py_cant_blank'
RULE = ('Programs: many that really blank the tape (collected, and small normal-form programs), sparse and random tables, mutants; each asked with several arguments. A refutation is judged by '
        'running the program cell by cell. Non-trivial: distinct programs that were refuted, or '
        'that really blank the tape and were (rightly) not refuted.')
ASSUMPTIONS = ['A refuted program that has not blanked within the step budget of the monitor counts as never blanking.']


def case(col, item):
    prog, args, budget = item
    first = sim.parse(prog)[0][0]
    if first is None or not first[0]:
        return          # becomes "blank" before it has written anything
    res = R.refutations(col, NAME, prog, args)
    refuted = [(a, v) for a, v in res if v is not None]
    f = sim.Prog(prog).facts(budget)
    if f['blank'] is not None:
        col.count('programs that blank')
        col.nontriv(prog)
        col.top('steps to blank', f['blank'])
        if refuted:
            col.violation('blanks', R.mechanism(prog),
                          f'{prog}: refuted at depth {refuted[0][0]}, blank after '
                          f'{f["blank"]} steps')
    elif refuted:
        col.count('refuted')
        col.nontriv(prog)
        col.sample('refuted', [prog, *refuted[0]])


def run(ctx):
    R.native()
    rng = ctx.rng('progs')
    progs = R.workload(ctx, rng, ('blank', 'halt'), (), (25_000, 600_000))
    items = []
    for p in dict.fromkeys(progs):
        items.append((p, sorted(rng.sample(R.DEPTHS, 3)) + [300], ctx.scale(300_000, 20_000_000)))
    ctx.map('case', items)
    ctx.need('programs that blank', 1000)
    ctx.need('refuted', 1000)
