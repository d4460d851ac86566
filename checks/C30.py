"""C30: the Python and the native implementations agree."""
import random
import signal

from bbv import gen, probe, pyload, refrust, rust, sim
from bbv.rust import PanicException

PROPERTY, LEVEL = 'C30', 'exploration'
TECHNIQUE = ('offline comparison of both implementations on the same programs; monitor of the scheduling helper '
             'in real runs, against an independent model')
NOTE = 'The native prover does not try intervals of more than 90,000 cycles. Step counts are compared as long as no rule was applied (the Python machine does not count beyond that).'
RULE = ('Corpora, tree paths, random tables and mutants, run with the Python machine and the native prover with '
        'the same limit: outcome, slot, cycles, marks, blank states, rule applications. Native and Python macros '
        '(block, back-symbol, both) slot by slot. The scheduling helper on recurrences, near-recurrences and '
        'random histories with several states, up to 10 ** 12 cycles, and in real runs. Block sizes and '
        'connectedness. Non-trivial: distinct comparisons of ends with rule applications, of macro instructions '
        'that are defined, and of proposals.')


class Slow(Exception):
    pass


def late(*_):
    raise Slow


KINDS = ('xlimit', 'undfnd', 'spnout', 'infrul', 'limrul', 'cfglim')


def has_mult(m):
    return any(isinstance(op, tuple) for rs in m.prover.rules.values() for _, rule in rs for op in rule.values())


class Watch:
    """Stands for PastConfigs in the Python prover: asks the native one and the model."""
    seen = []

    def __init__(self, state, cycle):
        import tm.rust_stuff as r
        self.real, self.model = r.PastConfigs(state, cycle), refrust.PastConfigs(state, cycle)

    def next_deltas(self, state, cycle):
        before = {k: list(v) for k, v in self.model.configs.items()}
        a, b = self.real.next_deltas(state, cycle), self.model.next_deltas(state, cycle)
        a = tuple(a) if a is not None else None
        Watch.seen.append((a, b, before.get(state), cycle))
        return a

    def delete_configs(self, state):
        self.real.delete_configs(state)
        self.model.delete_configs(state)


def run_both(col, item):
    native = pyload.load(True)
    import tm.prover
    from tm.machine import Machine
    prog, lim = item
    col.ev()
    try:
        r = native.run_prover(prog, lim)
    except PanicException as e:
        if 'overflow' in str(e):
            col.count('native counts overflow')
            return
        col.violation('panic', prog, str(e)[:200])
        return
    except Exception as e:      # noqa: BLE001
        col.violation('error', prog, f'run_prover: {type(e).__name__}: {e}'[:300])
        return
    kind = repr(r.result).rpartition('.')[2]
    Watch.seen = []
    was, tm.prover.PastConfigs = tm.prover.PastConfigs, Watch
    signal.signal(signal.SIGPROF, late)
    signal.setitimer(signal.ITIMER_PROF, 3)
    try:
        m = Machine(prog).run(sim_lim=lim)
        if kind == 'mulrul':
            short = Machine(prog).run(sim_lim=r.cycles)
            long = Machine(prog).run(sim_lim=r.cycles + 1)
    except Slow:
        col.count('slow')
        return
    except Exception as e:      # noqa: BLE001
        col.violation('error', prog, f'Machine: {type(e).__name__}: {e}'[:300])
        return
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tm.prover.PastConfigs = was
    for a, b, history, cycle in Watch.seen:
        if a != b:
            col.violation('intervals', prog, f'{history} then {cycle}: {a}, should be {b}')
            return
        if a is not None:
            col.count('intervals proposed in real runs')
    found = [k for k in KINDS if getattr(m, k) is not None]
    col.count(f'native {kind}')
    if m.susrul is not None:
        col.count('suspected rules')
        return
    if kind == 'mulrul':
        if has_mult(short):
            col.violation('late', prog, f'a multiplying rule is proved before cycle {r.cycles}')
        if not (has_mult(long) or long.limrul is not None or long.infrul is not None):
            col.violation('early', prog, f'no multiplying rule is proved in cycle {r.cycles}')
        col.count('multiplying rules found')
        return
    if found != [kind] and kind == 'xlimit' and any(a and max(a) > 90_000 for a, *_ in Watch.seen):
        col.count('intervals too long for the native prover')
        return
    if found != [kind]:
        col.violation('outcome', prog, f'native {kind}, Python {found} (limit {lim})')
        return
    pairs = [('marks', r.marks, m.marks), ('rule applications', r.rulapp, m.rulapp),
             ('blank states', sorted(r.blanks), sorted(m.blanks))]
    if kind != 'xlimit' and r.cycles:       # it says 0 when a blank tape repeats
        pairs.append(('cycles', r.cycles, m.cycles))
    if kind == 'undfnd':
        pairs.append(('slot', tuple(r.undfnd[1]), tuple(m.undfnd[1])))
    if m.steps != -1:
        pairs.append(('steps', r.steps, m.steps))
        pairs.append(('blank steps', dict(r.blanks), m.blanks))
    for what, a, b in pairs:
        if a != b:
            col.violation(what, prog, f'native {a}, Python {b} ({kind}, limit {lim})'[:400])
            return
    if r.rulapp:
        col.count('ends compared after rule applications')
        col.nontriv((prog, lim))
    col.count('ends compared')


def expected_block(prog, k):
    try:
        return refrust.py_opt_block(prog, k)
    except RecursionError:
        return None


def small(col, item):
    """Block sizes and connectedness."""
    native = pyload.load(True)
    from tools.graph import Graph
    prog, k = item
    col.ev()
    try:
        got = native.py_opt_block(prog, k)
    except PanicException as e:
        col.violation('block-panic', prog, f'after {k} steps: {e}')
        return
    want = refrust.py_opt_block(prog, k)
    if got != want:
        col.violation('block', prog, f'after {k} steps: {got}, should be {want}')
        return
    col.count('block sizes compared')
    if got > 1:
        col.count('block sizes above one')
        col.nontriv(('block', prog, k))
    states = sim.dims(sim.parse(prog))[0]
    a, b = native.py_is_connected(prog, states), Graph(prog).is_connected
    if a != b:
        col.violation('connected', prog, f'native {a}, Python {b}')


def history(rng):
    """Five cycles or more that (nearly) follow  next = i * last + linear."""
    r = rng.random()
    big = rng.choice((10, 1000, 10 ** 6, 10 ** 8, 10 ** 10, 10 ** 12))
    if r < .6:
        i = rng.choice((1, 1, 2, 3, 4, 5))
        p, d = rng.randrange(-20, big // 50 + 30), rng.choice((0, 0, 1, 2, 7, -1, rng.randrange(big)))
        x = rng.randrange(big)
        out = [x]
        for k in range(rng.choice((4, 5, 6, 8))):
            x = i * x + p + k * d
            out.append(x)
        if r < .15:
            k = rng.randrange(len(out))
            out[k] += rng.choice((1, -1, 5))
    else:
        x, out = rng.randrange(big), []
        for _ in range(rng.randrange(3, 9)):
            out.append(x)
            x += rng.choice((0, 1, 2, 2, 2, rng.randrange(big)))
    return [x for x in out if 0 <= x < 1 << 52]


def schedule(col, item):
    native = pyload.load(True)
    seed, n = item
    rng = random.Random(seed)
    for _ in range(n):
        lists = {s: history(rng) for s in rng.sample(range(8), rng.choice((1, 1, 2, 3)))}
        lists = {s: h for s, h in lists.items() if h}
        if not lists:
            continue
        events = []
        while any(lists.values()):
            s = rng.choice([s for s, h in lists.items() if h])
            events.append((s, lists[s].pop(0)))
        if rng.random() < .2:
            events.insert(rng.randrange(1, len(events) + 1), (rng.choice(events)[0], None))
        col.ev()
        s, c = events[0]
        a, b = None, None
        try:
            real, model = native.PastConfigs(s, c), refrust.PastConfigs(s, c)
            for k, (s, c) in enumerate(events[1:]):
                if c is None:
                    real.delete_configs(s)
                    model.delete_configs(s)
                    continue
                a, b = real.next_deltas(s, c), model.next_deltas(s, c)
                a = tuple(a) if a is not None else None
                if a != b:
                    break
                if a is not None:
                    col.count('proposals')
                    col.top('largest interval proposed', max(a))
                    col.nontriv(('intervals', tuple(events[:k + 2])))
        except (PanicException, OverflowError) as e:
            a, b = f'{type(e).__name__} {e}', 'an answer'
        if a != b:
            col.violation('intervals', str(events), f'{a}, should be {b}')
            return


class Panic(Exception):
    pass


def short_split(m, cells, params, slots):
    """What the native back-symbol macro says as long as it splits its cell at cells - 1 instead of
    at cells (recorded as a finding): None when it panics."""
    from tm.macro import BlockLogic, MacroInfLoop, MacroProg, TapeColorConverter
    _, nc = params
    size = nc ** cells
    base = m.comp
    if isinstance(base, MacroProg):
        logic = BlockLogic(base.logic.cells, base.logic.base_states, base.logic.base_colors)
        logic.converter = TapeColorConverter(base.logic.base_colors, base.logic.cells)   # knows no colors yet
        base = MacroProg(base.comp, logic)
    to_tape, to_color = {0: [0] * cells}, {}
    lim = 2 * params[0] * size * nc

    def run(state, right, tape):
        pos = len(tape) - 1 if right else 0
        if not 0 <= pos < len(tape):
            raise Panic
        for _ in range(lim):
            scan = tape[pos]
            try:
                color, shift, new = base[state, scan]
            except (KeyError, MacroInfLoop):
                return None
            except AssertionError:
                raise Panic from None
            while True:
                tape[pos] = color
                pos += 1 if shift else -1
                if not 0 <= pos < len(tape):
                    return new, bool(shift), tape
                if new != state or tape[pos] != scan:
                    break
            state = new
        return None

    def ask(macro_state, color):
        st_co, at_right = divmod(macro_state, 2)
        state, back = divmod(st_co, size)
        if back not in to_tape:
            raise Panic
        got = run(state, not at_right, [color, *to_tape[back]] if at_right else [*to_tape[back], color])
        if got is None:
            return 'none'
        state, right_edge, tape = got
        if right_edge:
            out, rest = tape[0], tape[1:]
        else:
            if len(tape) < cells:
                raise Panic
            out, rest = tape[cells - 1], tape[:cells - 1]
        key = tuple(rest)
        if key not in to_color:
            to_color[key] = sum(v * nc ** k for k, v in enumerate(reversed(rest)))
            to_tape[to_color[key]] = rest
        shift = not right_edge
        return f'{out} {int(shift)} {int(shift) + 2 * (state * size + to_color[key])}'

    try:
        return [ask(*s) for s in slots]
    except Panic:
        return None


def macros(col, item):
    pyload.load(True)
    from tm.macro import MacroInfLoop, make_macro
    prog, blocks, backsym = item
    col.ev()
    rows = sim.parse(prog)
    ns, nc = sim.dims(rows)
    comp = sim.comp(rows)
    p1 = (1 + max(max(s, i[2]) for (s, _), i in comp.items()), 1 + max(max(c, i[0]) for (_, c), i in comp.items()))
    try:
        m = make_macro(prog, blocks=blocks or None, backsym=backsym or None)
    except Exception as e:      # noqa: BLE001
        col.violation('error', str(item), f'make_macro: {type(e).__name__}: {e}'[:300])
        return
    p2 = p1 if blocks < 2 else (m.comp.macro_states, m.comp.macro_colors) if backsym else p1
    # the slots that can be met: colors and states that some instruction has named
    slots, want = [], []
    colors, states, asked = [0], [0], set()
    while len(slots) < 150:
        new = next(((s, c) for s in states for c in colors if (s, c) not in asked), None)
        if new is None:
            break
        asked.add(new)
        slots.append(new)
        try:
            instr = m[new]
        except (KeyError, MacroInfLoop):
            want.append('none')
            continue
        except Exception as e:      # noqa: BLE001
            col.violation('error', str(item), f'{new}: {type(e).__name__}: {e}'[:300])
            return
        color, shift, state = instr
        want.append(f'{color} {int(shift)} {state}')
        if color not in colors:
            colors.append(color)
        if state not in states:
            states.append(state)
    ops = [blocks, backsym, *p1, *p2, len(comp)]
    for (s, c), (pr, sh, tr) in comp.items():
        ops += [s, c, pr, int(sh), tr]
    ops.append(len(slots))
    for s, c in slots:
        ops += [s, c]
    got = probe.macros(ops)
    if got is not None and got == want:
        col.count('macro instructions compared', sum(x != 'none' for x in want))
        for slot, x in zip(slots, want):
            if x != 'none':
                col.nontriv((item, slot))
    elif backsym and got == short_split(m, backsym, p2, slots):
        col.violation('backsymbol', 'the left part of the cell is cut one too short when it is left to the right',
                      f'{item}: native {got and got[:3]}, Python {want[:3]}; slots {slots[:3]}')
    else:
        k = 0 if got is None else next(k for k, (a, b) in enumerate(zip(got, want)) if a != b)
        col.violation('macro', str(item), f'at {slots[k]}: native {"panics" if got is None else got[k]}, '
                                          f'Python {want[k]}')
        return
    col.count('macros compared')


def run(ctx):
    pyload.load(True)
    rng = ctx.rng('progs')
    c = [p for p in gen.corpus_progs() if max(sim.dims(sim.parse(p))) <= 8]
    progs = c + [gen.some_prog(rng) for _ in range(ctx.scale(1500, 20_000))]
    lims = (300, 1200) if ctx.quick else (300, 1200, 5000, 20_000)
    ctx.map('run_both', [(p, rng.choice(lims)) for p in progs] + [(p, 2500) for p in c + gen.rule_ends() + gen.deep_rules()], cpu=200)
    ctx.map('small', [(p, rng.choice((10, 60, 300, 1000))) for p in rng.sample(progs, ctx.scale(900, 8000))], cpu=200)
    ctx.map('schedule', [(rng.random(), 400) for _ in range(ctx.scale(60, 1500))])
    if probe.lib('macros'):
        items = []
        for _ in range(ctx.scale(900, 9000)):
            p = rng.choice(progs)
            nc = sim.dims(sim.parse(p))[1]
            b, s = rng.choice(((2, 0), (3, 0), (4, 0), (6, 0), (0, 1), (0, 2), (0, 3), (2, 1), (3, 1), (2, 2)))
            if nc ** max(b, 1) <= 5000:
                items.append((p, b, s))
        for p, n in gen.long_cells():
            items += [(p, n, 0), (p, 0, n - 1)] if n < 8 else [(p, n, 0)]
        items += [(p, n, 0) for p, n in gen.wide_cells(rng, ctx.scale(8, 40))]
        for _ in range(ctx.scale(150, 1500)):
            items.append((sim.show(gen.large_prog(rng)), *rng.choice(((2, 0), (3, 0), (0, 1), (0, 2), (2, 1)))))
        ctx.map('macros', items, cpu=200)
        ctx.need('macros compared', 200)
    else:
        ctx.notes.append('The native macros could not be driven: ' + probe.MISSING['macros'][-500:])
    ctx.need('ends compared after rule applications', 150)
    ctx.need('multiplying rules found', 5)
    ctx.need('intervals proposed in real runs', 1000)
    ctx.need('proposals', 2000)
    ctx.need('block sizes above one', 30)
