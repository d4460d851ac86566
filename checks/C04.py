"""C04: macros do not change what a program does."""
from bbv import gen, pyload, sim

PROPERTY, LEVEL = 'C04', 'exploration'
TECHNIQUE = 'online monitor of macro instruction lookups against an independent simulation of the cell'
NOTE = 'Meaning of macro colours and states is learned on line and must stay one to one; held on the lookups observed.'
RULE = ('A case is one program seen through one macro (block, back-symbol, or back-symbol over '
        'block). The monitor watches every instruction lookup the machine makes during a run, and '
        'a closure of further lookups (recorded programs that stay in a cell for long among them), and for each runs the base machine inside the cell on its '
        'own; the meaning of macro colours and states is learned on line and must be one to one. '
        'Non-trivial: distinct (program, macro, slot) lookups that needed more than one base step.')


# ------------------------------------------------------- the independent model
# A machine is a function slot -> ('go', color, right, state) | ('undef', slot) | ('loop',)

def base_machine(prog):
    comp = sim.comp(sim.parse(prog))

    def get(state, color):
        i = comp.get((state, color))
        return ('undef', (state, color)) if i is None else ('go',) + i
    return get


def inside(get, state, cells, pos):
    """Run inside the cell until the head leaves: ('out', side, state, cells, steps)."""
    cells = list(cells)
    n = len(cells)
    steps = 0
    mark, power = (state, pos, tuple(cells)), 1
    while True:
        r = get(state, cells[pos])
        if r[0] != 'go':
            return r
        cells[pos], state = r[1], r[3]
        pos += 1 if r[2] else -1
        steps += 1
        if not 0 <= pos < n:
            return ('out', pos == n, state, tuple(cells), steps)
        now = (state, pos, tuple(cells))
        if now == mark:
            return ('loop',)
        if steps == power * 2:
            mark, power = now, steps
        if steps > 3_000_000:
            return ('unknown',)


class Clash(Exception):
    pass


class OneToOne:
    def __init__(self, *pairs):
        self.f, self.g = {}, {}
        for a, b in pairs:
            self.learn(a, b)

    def learn(self, code, meaning):
        if self.f.setdefault(code, meaning) != meaning:
            raise Clash(f'{code} stands for both {self.f[code]} and {meaning}')
        if self.g.setdefault(meaning, code) != code:
            raise Clash(f'{meaning} is written both {self.g[meaning]} and {code}')


class BlockSpec:
    """colour <-> cells, state <-> (base state, entered from the right edge)"""

    def __init__(self, get, k):
        self.get, self.k = get, k
        self.colors = OneToOne((0, (0,) * k))
        self.states = OneToOne((0, (0, False)))

    def known(self, slot):
        return slot[0] in self.states.f and slot[1] in self.colors.f

    def expect(self, slot):
        state, right = self.states.f[slot[0]]
        cells = self.colors.f[slot[1]]
        return inside(self.get, state, cells, self.k - 1 if right else 0)

    def learn(self, out, instr):
        _, side, state, cells, _ = out
        color, shift, nxt = instr
        if shift != side:
            return f'moves {"LR"[shift]}, the base machine leaves to the {"LR"[side]}'
        self.colors.learn(color, cells)
        self.states.learn(nxt, (state, not side))
        return None


class BackSpec:
    """state <-> (base state, k cells behind the head, head at the left of them).  The macro tape
    is the mirror image of the base tape."""

    def __init__(self, get, k):
        self.get, self.k = get, k
        self.states = OneToOne((0, (0, (0,) * k, False)))
        self.seen = {0}

    def known(self, slot):
        return slot[0] in self.states.f and slot[1] in self.seen

    def expect(self, slot):
        state, back, at_left = self.states.f[slot[0]]
        if at_left:
            return inside(self.get, state, (slot[1],) + back, 0)
        return inside(self.get, state, back + (slot[1],), self.k)

    def learn(self, out, instr):
        _, side, state, cells, _ = out
        color, shift, nxt = instr
        if shift != (not side):
            return f'moves {"LR"[shift]}, the base machine leaves to the {"LR"[side]} (mirrored)'
        drop, keep = (cells[0], cells[1:]) if side else (cells[-1], cells[:-1])
        if color != drop:
            return f'leaves {color} behind, the base machine {drop}'
        self.seen.add(color)
        self.states.learn(nxt, (state, keep, not side))
        return None


def spec_of(prog, blocks, backsym):
    get = base_machine(prog)
    if blocks is not None and blocks > 1:
        spec = BlockSpec(get, blocks)
        if backsym is None:
            return spec
        return NestedSpec(spec, backsym)
    return BackSpec(get, backsym) if backsym is not None else None


class NestedSpec(BackSpec):
    """Back-symbol over block.  The inner colours are decided by the standard digits encoding, so
    the inner machine is modelled with cells and (state, side) pairs directly."""

    def __init__(self, inner, k):
        self.inner = inner
        blank = (0,) * inner.k
        super().__init__(self.step, k)
        self.states = OneToOne((0, ((0, False), (blank,) * k, False)))
        self.colors = OneToOne((0, blank))

    def step(self, state, cells):
        base, right = state
        r = inside(self.inner.get, base, cells, self.inner.k - 1 if right else 0)
        if r[0] != 'out':
            return r
        _, side, st, out, _ = r
        return ('go', out, side, (st, not side))

    def known(self, slot):
        return slot[0] in self.states.f and slot[1] in self.colors.f

    def expect(self, slot):
        state, back, at_left = self.states.f[slot[0]]
        scan = self.colors.f[slot[1]]
        if at_left:
            return inside(self.step, state, (scan,) + back, 0)
        return inside(self.step, state, back + (scan,), self.k)

    def learn(self, out, instr):
        _, side, state, cells, _ = out
        color, shift, nxt = instr
        if shift != (not side):
            return f'moves {"LR"[shift]}, the base machine leaves to the {"LR"[side]} (mirrored)'
        drop, keep = (cells[0], cells[1:]) if side else (cells[-1], cells[:-1])
        self.colors.learn(color, drop)
        self.states.learn(nxt, (state, keep, not side))
        return None


# ------------------------------------------------------------------ monitor

class Watch:
    """Stands in for the macro program and judges every answer it gives."""

    def __init__(self, real, spec, report, col, tag):
        self.real, self.spec, self.report, self.col, self.tag = real, spec, report, col, tag
        self.answers = {}

    def __str__(self):
        return str(self.real)

    def __getitem__(self, slot):
        from tm.macro import MacroInfLoop
        try:
            got = ('go', self.real[slot])
        except KeyError as e:
            got = ('undef', e.args[0])
            self.judge(slot, got)
            raise
        except MacroInfLoop:
            got = ('loop',)
            self.judge(slot, got)
            raise
        except AssertionError as e:
            self.report('colour-lost', f'looking up {slot} fails: {e!r}')
            raise
        self.judge(slot, got)
        return got[1]

    def judge(self, slot, got):
        old = self.answers.setdefault(slot, got)
        if old != got:
            self.report('unstable', f'{slot} was {old}, is now {got}')
        if old is not got:
            return
        if not self.spec.known(slot):
            self.col.count('lookups of slots not seen as a result')
            return
        self.col.count('lookups judged')
        want = self.spec.expect(slot)
        if want[0] == 'unknown':
            return
        kind = {'out': 'go'}.get(want[0], want[0])
        if kind != got[0]:
            self.report(f'{got[0]}-for-{kind}', f'{slot} gives {got}, the base machine {want}')
        elif kind == 'undef':
            self.col.count('halts inside a cell')
            if tuple(got[1]) != tuple(want[1]):
                self.report('wrong-slot', f'{slot} halts on {got[1]}, the base machine on {want[1]}')
        elif kind == 'loop':
            self.col.count('endless cells')
        else:
            if want[4] > 1:
                self.col.nontriv((self.tag, slot))
                self.col.top('base steps in one lookup', want[4])
                if want[4] > 100:
                    self.col.count('cells left after more than a hundred steps')
            try:
                wrong = self.spec.learn(want, got[1])
            except Clash as e:
                wrong = str(e)
            if wrong:
                self.report('wrong-instr', f'{slot} gives {got[1]}: {wrong}')


def closure(watch, rng, limit, spec):
    """Look up what is reachable, in a random order, every slot twice."""
    from tm.macro import MacroInfLoop
    states, colors, done = {0}, {0}, set()
    while len(done) < limit:
        todo = [(s, c) for s in states for c in colors if (s, c) not in done]
        if not todo:
            break
        rng.shuffle(todo)
        for slot in todo[:limit]:
            done.add(slot)
            try:
                color, _, nxt = watch[slot]
            except (KeyError, MacroInfLoop):
                continue
            states.add(nxt)
            colors.add(color)
            if len(colors) > 60 or len(states) > 200:
                limit = min(limit, len(done) + 20)
    for slot in rng.sample(sorted(done), min(20, len(done))):
        try:
            watch[slot]
        except (KeyError, MacroInfLoop):
            pass
    return done


def case(col, item):
    pyload.load()
    import random

    from tm.machine import Machine
    from tm.macro import MacroInfLoop, make_macro
    prog, kw, lim, seed, budget = item
    tag = f'{prog} {kw}'
    col.ev()

    def report(kind, msg):
        col.violation(kind, tag, msg)

    spec = spec_of(prog, kw.get('blocks'), kw.get('backsym'))
    if 'opt_macro' in kw:
        from tm.rust_stuff import py_opt_block
        spec = spec_of(prog, py_opt_block(prog, kw['opt_macro']), None)
    m = Machine(prog, **kw)
    if spec is not None:
        m.program = Watch(m.program, spec, report, col, tag)
    before = len(col.violations)
    try:
        m.run(lim)
    except (NotImplementedError, RecursionError) as e:
        col.count(f'refused: {type(e).__name__}')
        return
    except Exception as e:
        if len(col.violations) == before:
            report('exception', f'{type(e).__name__}: {e}')
        return
    # the run as a whole
    p = sim.Prog(prog)
    if m.undfnd is not None:
        r = p.run(budget, flags=0)
        if r['status'] == 'undef':
            col.count('halting runs compared')
            if tuple(m.undfnd[1]) != (r['state'], r['scan']):
                report('wrong-halt', f'halts on {m.undfnd[1]}, really on {(r["state"], r["scan"])}')
        elif r['status'] == 'limit' and not m.rulapp and not m.infrul:
            report('never-halts', f'halts on {m.undfnd[1]} after {m.cycles} macro steps, really '
                   f'still running after {budget}')
    elif m.infrul is not None or m.spnout is not None:
        r = p.run(budget // 10, flags=0)
        col.count('endless runs compared')
        if r['status'] == 'undef':
            report('halts', f'said to run forever, halts at {r["steps"]}')
    # more lookups, and a second machine asked in another order
    if spec is None:
        return
    rng = random.Random(seed)
    watch = Watch(make_macro(prog, **kw), spec_of(prog, kw.get('blocks'), kw.get('backsym'))
                  if 'opt_macro' not in kw else spec, report, col, tag)
    try:
        closure(watch, rng, 150, spec)
    except Exception as e:
        if len(col.violations) == before:
            report('exception', f'{type(e).__name__}: {e}')
        return
    again = make_macro(prog, **kw)
    slots = list(watch.answers)
    rng.shuffle(slots)
    for s in slots:
        try:
            got = ('go', again[s])
        except KeyError as e:
            got = ('undef', e.args[0])
        except MacroInfLoop:
            got = ('loop',)
        if got != watch.answers[s]:
            report('order-dependent', f'{s} was {watch.answers[s]}, in another order {got}')
    col.count('lookups repeated in another order', len(slots))


KWS = ([{'blocks': k} for k in range(1, 7)] + [{'backsym': k} for k in range(0, 5)]
       + [{'blocks': b, 'backsym': k} for b in (2, 3, 4) for k in (1, 2)]
       + [{'opt_macro': 200}, {'opt_macro': 1000}])


def small(prog, kw):
    ns, nc = sim.dims(sim.parse(prog))
    cells = max(kw.get('blocks', 1), 1) * (kw.get('backsym', 0) + 1)
    return ns * cells * nc ** cells < 200_000


def run(ctx):
    pyload.load()
    rng = ctx.rng('progs')
    items = []
    halting = gen.corpus_progs('HALT', 'UNDEFINED', 'PROVER_HALT', 'SPINOUT', 'SPINOUT_BLANK')
    items += [(p, kw, 500, i, 3_000_000) for i, p in enumerate(
        halting if not ctx.quick else rng.sample(halting, min(300, len(halting))))
        for kw in rng.sample(KWS, 3)]
    other = gen.corpus_progs(without=('HALT_SLOW', 'SPINOUT_SLOW'))
    for i in range(ctx.scale(2500, 80_000)):
        r = rng.random()
        if r < .3:
            p = rng.choice(other)
        elif r < .5:
            ns, nc = rng.choice(gen.SIZES[:11])
            p = sim.show(gen.random_prog(rng, ns, nc, undef=rng.randrange(ns * nc // 2 + 1),
                                         first=rng.random() < .8))
        else:
            p = gen.some_prog(rng)
        items.append((p, rng.choice(KWS), rng.choice((50, 200, 500)), i, 3_000_000))
    for i, (p, n) in enumerate(gen.long_cells()):
        kws = [{'blocks': n}, {'backsym': n - 1}] + [{'blocks': b, 'backsym': n // b - 1}
                                                     for b in (2, 3) if n % b == 0 and n > b]
        items += [(p, kw, 30, i, 100_000) for kw in kws]
    for i, (p, n) in enumerate(gen.wide_cells(rng, ctx.scale(6, 40))):
        items.append((p, {'blocks': n}, 10, i, 200_000))
    for i in range(ctx.scale(400, 8000)):
        items.append((sim.show(gen.large_prog(rng)), rng.choice(KWS), rng.choice((50, 200)), i, 500_000))
    items = [x for x in items if small(x[0], x[1])]
    ctx.map('case', items)
    ctx.need('lookups judged', 5000)
    ctx.need('halts inside a cell', 100)
    ctx.need('endless cells', 50)
    ctx.need('cells left after more than a hundred steps', 100)
    ctx.need('halting runs compared', 50)
