"""C02: a program said to run forever never halts."""
from bbv import gen, pyload, sim

PROPERTY, LEVEL = 'C02', 'exploration'
TECHNIQUE = 'reference-model monitor: verdicts followed by a cell-by-cell machine'
NOTE = 'A wrong verdict about a program that halts beyond the step budget of the monitor is not seen.'
RULE = ('Programs as in C01 (recorded corpora, normal-form trees, random paths, tables and mutants), run '
        'plainly and through block and back-symbol macros. For each "infinite" verdict the naive '
        'machine is run far beyond the point of the verdict and must not reach an undefined slot. '
        'Non-trivial: a distinct program with such a verdict, by the way it was run.')
ASSUMPTIONS = ['A program that has not halted after the step budget of the monitor counts as not '
               'halting; a false verdict about a program that halts later than that is not seen.']


def case(col, item):
    pyload.load()
    from tm.machine import Machine
    prog, lim, budget, kw = item
    col.ev()
    try:
        m = Machine(prog, **kw).run(lim)
    except (NotImplementedError, AssertionError, RecursionError) as e:
        col.count(f'refused: {type(e).__name__}')
        return
    except Exception as e:
        col.violation('exception', f'{prog} {kw}', f'{type(e).__name__}: {e}', lim=lim)
        return
    if m.infrul is None:
        # a halting verdict must not be given to a program proved infinite either
        return
    p = sim.Prog(prog)
    col.count('infinite verdicts' + (' through macros' if kw else ''))
    col.nontriv((prog, tuple(kw.items())))
    r = p.facts(budget)
    col.count('followed steps', r['steps'])
    if r['status'] == 'undef':
        col.violation('halts', f'{prog} {kw}' if kw else prog,
                      f'said to run forever (step {m.infrul}), halts at step {r["steps"]}',
                      cycles=m.cycles, how=kw)
    elif r['blankrep'] is not None:
        col.count('confirmed by a repeated blank tape')
    elif r['spin'] is not None:
        col.count('confirmed by spinning out')
    if m.rulapp:
        col.count('verdicts after rule applications')
    col.sample('verdict', [prog, kw, m.infrul, m.cycles])


def run(ctx):
    pyload.load()
    rng = ctx.rng('progs')
    deep = ctx.scale(300_000, 20_000_000)
    halting = gen.corpus_progs('HALT', 'UNDEFINED', 'DO_HALT', 'PROVER_HALT', 'HALTERS')
    items = [(p, 1500, deep * 10, {}) for p in halting]
    items += [(p, lim, deep * 70, kw) for p in gen.rule_ends()
              for lim, kw in ((1500, {}), (400, {'blocks': 2}), (400, {'backsym': 1}))]
    for p in halting:
        for kw in ({'blocks': 2}, {'blocks': 3}, {'backsym': 1}, {'blocks': 2, 'backsym': 1}):
            items.append((p, 600, deep, kw))
    rest = gen.corpus_progs('INFRUL', 'NONHALTERS', 'KERNEL', 'MODULAR', 'PROVER_FAILURES',
                            'RECUR_COMPACT', 'SPINOUT_BLANK', 'BLANKERS')
    items += [(p, 600, deep, {}) for p in (rest if not ctx.quick else rng.sample(rest, 400))]
    items += [(p, 400, deep, {}) for p in gen.tnf(2, 2, 50)]
    small = gen.tnf(3, 2, 60) + gen.tnf(2, 3, 60)
    items += [(p, 400, deep, {}) for p in (small if not ctx.quick else rng.sample(small, 1500))]
    for _ in range(ctx.scale(5000, 150_000)):
        kw = rng.choice(({}, {}, {'blocks': rng.randrange(2, 5)}, {'backsym': rng.randrange(1, 4)},
                         {'blocks': 2, 'backsym': 1}))
        items.append((gen.some_prog(rng), rng.choice((60, 300, 800)), deep, kw))
    for f, n in ((gen.erasing_prog, 2500), (gen.large_prog, 600)):
        items += [(sim.show(f(rng)), rng.choice((60, 300)), deep, rng.choice(({}, {}, {'blocks': 2}, {'backsym': 1})))
                  for _ in range(ctx.scale(n, 30 * n))]
    ctx.map('case', items)
    ctx.need('infinite verdicts', 500)
    ctx.need('infinite verdicts through macros', 100)
