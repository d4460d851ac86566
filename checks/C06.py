"""C06: the native prover is sound, and its counts never wrap around."""
import functools
import json
import pathlib

from bbv import gen, pyload, rust, sim
from bbv.rust import PanicException
from checks import C21

PROPERTY, LEVEL = 'C06', 'exploration'
TECHNIQUE = 'arithmetic-overflow sanitizer build and reference-model monitor of the native prover'
NOTE = 'As C05; rule applications that lead beyond the step budget are counted, not judged.'
RULE = ('Corpora, small trees, tree paths, random tables, mutants and programs with very fast '
        'growth, at several cycle limits, in the build that ships and in a build with arithmetic '
        'overflow checks. Ends are compared with a cell-by-cell run; a run that overflows in the '
        'checked build must not return from the other; around the cycle in which counts outgrow 64 bits they are '
        'compared with exact ones, and single rule applications with the arithmetic they stand for. Non-trivial: ends compared in runs with '
        'rule applications, infinite verdicts followed, overflows seen.')
ASSUMPTIONS = ['A program called infinite that has not halted within the step budget of the monitor '
               'counts as never halting.']


@functools.cache
def builds():
    return pyload.load(True), rust.load('ovf')


def report(m, prog, lim):
    try:
        r = m.run_prover(prog, lim)
    except PanicException as e:
        return None, str(e)
    u = r.undfnd
    return {'result': repr(r.result).rpartition('.')[2], 'steps': r.steps, 'marks': r.marks,
            'rulapp': r.rulapp, 'cycles': r.cycles, 'blanks': dict(r.blanks),
            'slot': tuple(u[1]) if u is not None else None}, None


def exact_case(col, item):
    """A program whose counts outgrow the native ones, around the cycle in which they do."""
    prog, lim = item
    ship, _ = builds()
    from tm.machine import Machine

    def exactly(n):
        m = Machine(prog).run(sim_lim=n)
        return (m.marks, m.rulapp) if m.xlimit is not None else None
    try:
        lo, hi = 0, next(n for n in (250, 500, 1000, 2000, lim)
                         if (exactly(n) or (0,))[0] >= 1 << 64)
    except Exception as e:      # StopIteration: not that far; others: refused
        col.count(f'no exact count: {type(e).__name__}')
        return
    while hi - lo > 1:
        n = (lo + hi) // 2
        e = exactly(n)
        if e is None or e[0] >= 1 << 64:
            hi = n
        else:
            lo = n
    for n in (lo - 1, lo, hi, hi + 1, hi + 2):
        e = exactly(n)
        a, why = report(ship, prog, n)
        col.ev()
        col.count('exact counts around the largest native one')
        if why is not None:
            col.count('overflows refused')
        elif e is not None and a['result'] == 'xlimit' and a['rulapp'] == e[1] and a['marks'] != e[0]:
            col.violation('wrong-counts', prog, f'{a["marks"]} marks after {n} cycles, exactly {e[0]}')
            return
    col.nontriv((prog, 'exact'))


def apply_case(col, seeds):
    C21.native_apply(col, seeds)


def case(col, item):
    prog, lim, deep = item
    ship, checked = builds()
    col.ev()
    a, why = report(ship, prog, lim)
    b, whyb = report(checked, prog, lim)
    tag = prog

    def bad(kind, msg):
        col.violation(kind, tag, f'{msg} (limit {lim})', report=a)

    for w in (why, whyb):
        if w is not None and 'overflow' not in w:
            bad('panic', f'panics: {w}')
            return
    if whyb is not None:
        col.count('overflows seen')
        col.nontriv((prog, 'overflow'))
        if a is not None:
            bad('wraps', f'{whyb}, unnoticed in the build that ships')
        return
    if why is not None:
        bad('panic', f'the build that ships panics ({why}), the checked one does not')
        return
    if a != b:
        bad('builds-differ', f'the checked build reports {b}')
        return
    p = sim.Prog(prog)
    res, rules = a['result'], a['rulapp'] > 0
    if res in ('undfnd', 'spnout'):
        want = {'undfnd': 'undef', 'spnout': 'spin'}[res]
        budget = deep if rules else a['steps'] + 2
        r = p.run(min(budget, 400_000_000), flags=1)
        if r['status'] in ('limit', 'nospace'):
            if not rules and r['status'] == 'limit' and r['steps'] > a['steps']:
                bad('ended-early', f'{res} at {a["steps"]}, still running')
            col.count('too long to follow')
            return
        col.count(f'{want} compared' + (' through rules' if rules else ''))
        if rules:
            col.nontriv((prog, lim))
            col.top('steps skipped over', r['steps'] - a['steps'])
            col.sample(res, [prog, lim, r['steps'], a])
        if r['status'] != want:
            bad('wrong-end', f'{res} reported, really {r["status"]} at {r["steps"]}')
            return
        if res == 'undfnd' and a['slot'] != (r['state'], r['scan']):
            bad('wrong-slot', f'slot {a["slot"]}, really {(r["state"], r["scan"])}')
        if a['marks'] != r['marks']:
            bad('wrong-marks', f'{a["marks"]} marks, really {r["marks"]}')
        if not rules and a['steps'] != r['steps']:
            bad('wrong-steps', f'{a["steps"]} steps, really {r["steps"]}')
        if a['steps'] > r['steps'] or a['cycles'] > r['steps']:
            bad('wrong-steps', f'{a["steps"]} steps, {a["cycles"]} cycles, but it ends at {r["steps"]}')
    elif res == 'infrul':
        f = p.facts(deep)
        col.count('infinite verdicts followed')
        col.nontriv((prog, lim))
        if f['status'] == 'undef':
            bad('halts', f'infinite, halts at {f["steps"]}')
    elif not rules and res == 'xlimit':
        r = p.run(min(a['steps'], 50_000_000), flags=0)
        if r['status'] not in ('limit', 'nospace'):
            bad('missed-end', f'still running at {a["steps"]}, really {r["status"]} at {r["steps"]}')
        elif r['steps'] == a['steps'] and r['marks'] != a['marks']:
            bad('wrong-marks', f'{a["marks"]} marks at the limit, really {r["marks"]}')
        col.count('limits compared')
    if not rules:
        real = p.run(min(a['steps'], 50_000_000), flags=0)['blanks']
        if a['steps'] <= 50_000_000 and a['blanks'] != real:
            bad('wrong-blank', f'blanks {a["blanks"]}, really {real}')


def run(ctx):
    builds()
    rng = ctx.rng('progs')
    deep = ctx.scale(1_000_000, 100_000_000)
    data = pathlib.Path(gen.__file__).parent / 'data'
    items = [(p, lim, deep) for p in json.loads((data / 'overflow.json').read_text())
             for lim in (2000, 5000)]
    ended = json.loads((data / 'ended.json').read_text())
    items += [('1RB 2LA 3LA 2RA  0LA ... 2RB 3RB', 10_000, deep)]
    halting = gen.corpus_progs('HALT', 'UNDEFINED', 'DO_HALT', 'PROVER_HALT', 'SPINOUT')
    items += [(p, lim, deep * 20) for p in halting for lim in ((2000,) if ctx.quick else (2000, 50_000))]
    items += [(p, 1500, deep) for p in gen.corpus_progs(without=('HALT_SLOW', 'SPINOUT_SLOW'))]
    for kind, n in (('halt', 10 ** 9), ('spin', 1500)):
        items += [(p, 2000, deep) for p in (ended[kind] if not ctx.quick or n > 10 ** 6
                                             else rng.sample(ended[kind], n))]
    items += [(p, 3000, deep * 30) for p in gen.rule_ends()]
    items += [(p, 4000, deep * 3) for p in gen.deep_rules()]
    items += [(p, 400, deep) for p in gen.tnf(2, 2, 50)]
    small = gen.tnf(3, 2, 60) + gen.tnf(2, 3, 60)
    items += [(p, 400, deep) for p in (small if not ctx.quick else rng.sample(small, 2000))]
    for _ in range(ctx.scale(10_000, 500_000)):
        items.append((gen.some_prog(rng), rng.choice((40, 300, 1500, 3000)), deep))
    items += [(sim.show(f(rng)), rng.choice((40, 300, 1500)), deep)
              for f, n in ((gen.erasing_prog, 2500), (gen.large_prog, 800)) for _ in range(ctx.scale(n, 30 * n))]
    ctx.map('case', items)
    ctx.map('exact_case', [(p, 5000) for p in json.loads((data / 'overflow.json').read_text())])
    n = ctx.scale(50, 1500)
    ctx.map('apply_case', [[rng.random() for _ in range(300)] for _ in range(n)])
    ctx.need('undef compared through rules', 150)
    ctx.need('infinite verdicts followed', 1000)
    ctx.need('exact counts around the largest native one', 20)
