"""C05: the native simulator reports exact counts."""
from bbv import gen, pyload, sim
from bbv.rust import PanicException

PROPERTY, LEVEL = 'C05', 'exploration'
TECHNIQUE = 'reference-model monitor of the native simulator, compiled from the real sources'
NOTE = 'The native sources are compiled against a stand-in for pyo3 that only moves values in and out.'
RULE = ('Corpora, small trees, tree paths, random tables and mutants, at many cycle limits; each '
        'report of run_quick_machine is compared field by field with a cell-by-cell run. '
        'Non-trivial: runs of more than 5 steps that were compared to their end, by program and limit.')


def cycles_of(prog, lim, cap=3_000):
    """(steps, ended) after lim cycles of a machine that takes a run of one instruction over equal
    cells in one cycle, or None if longer than cap."""
    comp = sim.comp(sim.parse(prog))
    tape, head, state, steps = {}, 0, 0, 0
    for _ in range(lim):
        scan = tape.get(head, 0)
        i = comp.get((state, scan))
        if i is None:
            return steps, True
        color, right, nxt = i
        d = 1 if right else -1
        if nxt == state and scan == 0:
            # spinning out?
            if all((k - head) * d <= 0 for k, v in tape.items() if v):
                return steps, True
        while True:
            tape[head] = color
            head += d
            steps += 1
            if steps > cap:
                return None
            if nxt != state or tape.get(head, 0) != scan:
                break
            if scan == 0 and all((k - head) * d < 0 for k, v in tape.items() if v):
                break       # only blank cells ahead: they are not a block of the tape
        state = nxt
    return steps, False


def case(col, item):
    m = pyload.load(True)
    prog, lim, exact_cycles = item
    col.ev()
    try:
        r = m.run_quick_machine(prog, lim)
    except PanicException as e:
        col.violation('panic', prog, f'limit {lim}: panics: {e}')
        return
    res = repr(r.result).rpartition('.')[2]
    steps = r.steps
    p = sim.Prog(prog)

    def bad(kind, msg):
        col.violation(kind, prog, f'{msg} ({res}, limit {lim})', steps=steps)

    fields = {k: getattr(r, k) for k in ('undfnd', 'spnout', 'infrul', 'xlimit', 'cfglim', 'halted',
                                         'simple_termination')}
    want = {'undfnd': {'undfnd', 'halted', 'simple_termination'},
            'spnout': {'spnout', 'simple_termination'},
            'infrul': {'infrul'}, 'xlimit': {'xlimit'}}.get(res)
    if want is None:
        bad('outcome', 'an outcome this simulator cannot have')
        return
    if {k for k, v in fields.items() if v is not None} != want:
        bad('fields', f'fields {fields}')
        return
    for k in want:
        v = fields[k][0] if k == 'undfnd' else fields[k]
        if v != steps:
            bad('fields', f'{k} is {fields[k]}, steps {steps}')
            return
    if r.rulapp != 0:
        bad('fields', f'rule applications {r.rulapp} without a prover')
    if steps > 200_000_000:
        col.count('too long to follow')
        return
    flags = 1 if res != 'infrul' else 0
    n = p.run(steps + (2 if res in ('undfnd', 'spnout') else 0), flags=flags)
    status = {'undfnd': 'undef', 'spnout': 'spin', 'infrul': 'limit', 'xlimit': 'limit'}[res]
    if n['status'] == 'nospace':
        return
    if n['status'] != status or n['steps'] != steps:
        if not (res == 'xlimit' and n['status'] != 'limit' and n['steps'] == steps):
            bad('outcome', f'reported {steps} steps, really {n["status"]} at {n["steps"]}')
            return
    if r.marks != n['marks']:
        bad('marks', f'{r.marks} marks, really {n["marks"]}')
    if res == 'undfnd' and tuple(fields['undfnd'][1]) != (n['state'], n['scan']):
        bad('slot', f'slot {fields["undfnd"][1]}, really {(n["state"], n["scan"])}')
    if dict(r.blanks) != n['blanks']:
        bad('blanks', f'blanks {r.blanks}, really {n["blanks"]}')
    if res == 'infrul':
        f = p.facts(steps + 10)
        # repeated: the tape was blank in this state before, or is so in the initial state
        if f['blankrep'] != steps and not (n['marks'] == 0 and n['state'] == 0):
            bad('infinite', f'no repeated blank tape at {steps}')
        deep = p.facts(min(5_000_000, steps * 50 + 100_000))
        if deep['status'] == 'undef':
            bad('halts', f'called infinite, halts at {deep["steps"]}')
        col.count('infinite compared')
    elif p.facts(steps)['blankrep'] is not None:
        bad('missed-infinite', 'the blank tape had been repeated before')
    if res == 'xlimit' and exact_cycles:
        c = cycles_of(prog, lim)
        if c is not None:
            col.count('limits compared cycle by cycle')
            if c != (steps, False):
                bad('limit', f'after {lim} cycles: {steps} steps reported, really {c[0]}'
                    + (', ended' if c[1] else ''))
    col.count(f'{res} compared')
    col.top('steps compared', steps)
    if steps > 5:
        col.nontriv((prog, lim))
    if n['blanks']:
        col.count('runs with blank tapes')
    col.sample(res, [prog, lim, steps, r.marks])


def run(ctx):
    pyload.load(True)
    rng = ctx.rng('progs')
    items = []
    for p in gen.corpus_progs(without=('HALT_SLOW', 'SPINOUT_SLOW')):
        for lim in rng.sample((0, 1, 3, 30, 300, 2000, 20_000, 200_000), 3):
            items.append((p, lim, lim <= 30))
    items += [(p, lim, True) for p in gen.tnf(2, 2, 50) for lim in (1, 6, 100)]
    small = gen.tnf(3, 2, 60) + gen.tnf(2, 3, 60)
    items += [(p, rng.choice((1, 5, 20, 200)), rng.random() < .2)
              for p in (small if not ctx.quick else rng.sample(small, 3000))]
    for _ in range(ctx.scale(15_000, 500_000)):
        lim = rng.choice((0, 1, 2, 7, 60, 300, 1500, 20_000))
        items.append((gen.some_prog(rng), lim, lim <= 60 or rng.random() < .02))
    for _ in range(ctx.scale(1500, 50_000)):
        lim = rng.choice((1, 7, 60, 300, 1500, 20_000))
        p = gen.erasing_prog(rng) if rng.random() < .5 else gen.large_prog(rng)
        items.append((sim.show(p), lim, lim <= 60))
    ctx.map('case', items)
    for r in ('undfnd', 'spnout', 'infrul', 'xlimit'):
        ctx.need(r + ' compared', 300)
    ctx.need('limits compared cycle by cycle', 500)
