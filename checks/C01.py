"""C01: what the accelerated machine reports is what the cell-by-cell machine does."""
from bbv import gen, pyload, sim
from bbv.pymachine import expand_tape, trim

PROPERTY, LEVEL = 'C01', 'exploration'
TECHNIQUE = 'reference-model monitor: report of every run compared with a cell-by-cell machine'
NOTE = 'Held on the runs listed in the evidence. Trusts the 200-line C reference machine; ends too far to reach cell by cell are counted, not judged.'
RULE = ('Programs: recorded corpora, every normal-form program of the small dimensions, random '
        'tree paths, random tables, mutants. A case is one Machine.run whose report is compared '
        'with a cell-by-cell run; non-trivial when the run ended (halt, spin-out or blank) or the '
        'tape at a limit was compared, after more than 5 steps.')


def judge(col, prog, m, deep=20_000_000, prog_run=None):
    """Compare the public report of a finished Machine with the naive machine."""
    p = sim.Prog(prog)
    ended = m.undfnd is not None or m.spnout is not None
    exact = m.steps != -1
    rules = bool(m.rulapp)

    def bad(kind, msg, **kw):
        col.violation(kind, prog, msg, lim=m.cycles, steps=m.steps, **kw)

    if ended:
        step, slot = m.undfnd if m.undfnd is not None else (m.spnout, None)
        if (step != m.steps) or (step == -1) != rules:
            bad('steps-field', f'step count {step} / steps {m.steps} / rule applications {m.rulapp}')
            return
        r = p.run(step + 5 if exact else deep, flags=1, want_cells=1 << 21)
        want = 'undef' if m.undfnd is not None else 'spin'
        if r['status'] in ('limit', 'nospace'):
            if exact and r['status'] == 'limit':
                bad('ended-early', f'reported {want} at {step}, still running there')
            else:
                col.count('too long to follow')
            return
        col.count(f'{want} runs followed' + ('' if exact else ' through rule applications'))
        if r['status'] != want:
            bad('wrong-end', f'reported {want}, really {r["status"]} at {r["steps"]}')
            return
        if slot is not None and tuple(slot) != (r['state'], r['scan']):
            bad('wrong-slot', f'reported slot {slot}, really {(r["state"], r["scan"])}')
        if exact and step != r['steps']:
            bad('wrong-steps', f'reported {step} steps, really {r["steps"]}')
        if not (m.marks == r['marks']):
            bad('wrong-marks', f'reported {m.marks} marks, really {r["marks"]}')
        upto = r['steps']
    elif exact:
        upto = m.steps
        if (m.xlimit is not None and m.xlimit != m.steps) or \
                (m.infrul is not None and m.infrul != m.steps):
            bad('steps-field', f'limit field {m.xlimit}/{m.infrul} differs from steps {m.steps}')
        r = p.run(upto, flags=0, want_cells=1 << 21)
        if r['status'] != 'limit':
            if r['status'] == 'nospace':
                return
            bad('missed-end', f'no end reported by step {upto}, really {r["status"]} '
                f'at {r["steps"]}')
            return
        col.count('limits compared')
        if m.marks != r['marks']:
            bad('wrong-marks', f'{m.marks} marks after {upto} steps, really {r["marks"]}')
    else:
        col.count('rule runs without an end')
        return

    if r['cells'] is not None and (t := expand_tape(m.tape)) is not None:
        col.count('tapes compared')
        if trim(*t) != trim(r['cells'], r['head']):
            bad('wrong-tape', 'the tape at the end differs from the real one')
    real = p.run(upto, flags=0)['blanks']
    for st, at in m.blanks.items():
        if at != -1 and real.get(st) != at:
            bad('wrong-blank', f'blank in state {st} at {at}, really {real.get(st)}')
        elif at == -1 and st not in real:
            bad('wrong-blank', f'blank in state {st} never happens')
    if not rules and set(real) != set(m.blanks):
        bad('missed-blank', f'blank tapes seen {m.blanks}, really {real}')
    if rules and set(real) - set(m.blanks) and prog_run:
        for n in (5, 12, 30, 70, 150, 300):
            short = prog_run(n)
            if short.rulapp:
                break
            col.count('blank tapes looked for in shorter runs')
            if set(short.blanks) - set(m.blanks):
                bad('lost-blank', f'blank tapes after {n} cycles {short.blanks}, later {m.blanks}')
                break
    if m.blanks:
        col.count('runs with blank tapes')
    if upto > 5:
        col.nontriv((prog, m.cycles))
        col.top('steps followed', upto)


def case(col, item):
    pyload.load()
    from tm.machine import Machine
    prog, lim = item
    col.ev()
    try:
        m = Machine(prog).run(lim)
    except (NotImplementedError, AssertionError, RecursionError) as e:
        col.count(f'refused: {type(e).__name__}')
        col.sample('refused', [prog, lim, repr(e)[:100]])
        return
    except Exception as e:
        col.violation('exception', prog, f'{type(e).__name__}: {e}', lim=lim)
        return
    judge(col, prog, m, prog_run=lambda n: Machine(prog).run(min(n, lim)))
    if m.undfnd is not None and m.steps != -1:
        col.sample('halt', [prog, lim, m.steps, str(m.tape)[:60]])


def run(ctx):
    pyload.load()
    rng = ctx.rng('progs')
    items = [(p, lim) for p in gen.corpus_progs(without=('HALT_SLOW', 'SPINOUT_SLOW',
             'SPINOUT_BLANK_SLOW', 'PROVER_HALT_TOO_SLOW', 'RECUR_TOO_SLOW', 'RECUR_SLOW',
             'ALGEBRA_PROGS')) for lim in (ctx.scale(700, 4000),)]
    items += [(p, 3000) for p in gen.rule_ends()]
    items += [(p, 400) for p in gen.tnf(2, 2, 50)]
    small = gen.tnf(3, 2, 60) + gen.tnf(2, 3, 60)
    items += [(p, 300) for p in (small if not ctx.quick else rng.sample(small, 2000))]
    items += [(gen.some_prog(rng), rng.choice((7, 60, 300, 800, 1500)))
              for _ in range(ctx.scale(5000, 150_000))]
    items += [(sim.show(f(rng)), rng.choice((30, 300, 800)))
              for f, n in ((gen.erasing_prog, 2500), (gen.large_prog, 1000)) for _ in range(ctx.scale(n, 30 * n))]
    ctx.map('case', items)
    ctx.need('tapes compared', 1000)
    ctx.need('undef runs followed', 300)
    ctx.need('spin runs followed', 100)
    ctx.need('undef runs followed through rule applications', 100)
