"""C23: what a proof's recorded footprint covers is all the run depended on."""
import functools
import random

from bbv import gen, probe, pyload, rle
from checks import C22 as T, _num as N

PROPERTY, LEVEL = 'C23', 'exploration'
TECHNIQUE = ('differential monitor: runs from other tapes that agree on the recorded footprint must take the '
             'same steps')
NOTE = 'Other tapes are drawn, not enumerated.'
RULE = ('Random machines and random strokes run on recording tapes of both implementations, with rule '
        'applications in between. Then the tape beyond the recorded footprint is replaced by others (blanked, '
        'recounted, recolored, lengthened, cut), except where an edge was touched, and the independent tape '
        'model must see the same scans, moves and applications, and the same cells in the part touched. The same '
        'for the footprints the real prover records. Non-trivial: distinct pairs of tapes compared.')


# ---------------------------------------------------------------- runs in the model

def fits(rule, sides):
    """Times the rule can be applied, None if it cannot: the first count that is too low settles it."""
    times = []
    for (s, i), d in rule.items():
        if d < 0:
            if i >= len(sides[s]):
                return 'no such block'
            if sides[s][i][1] <= -d:
                return None
            times.append((sides[s][i][1] - 1) // -d)
    return min(times)


def run_model(model, program):
    """(trace, final).  program: a function of (number, state, scan, sides) to a step or a rule."""
    left, scan, right = model
    trace, state = [], 0
    for n in range(program.length):
        what = program(n, state, scan, (left, right))
        if what is None:
            break
        if what[0] == 'rule':
            rule = what[1]
            sides = list(left), list(right)
            k = fits(rule, sides)
            if k == 'no such block' or k and any(i >= len(sides[s]) for s, i in rule):
                program.length = n
                break
            if k:
                for (s, i), d in rule.items():
                    c, m = sides[s][i]
                    sides[s][i] = c, m + d * k
                left, right = sides
            trace.append(('rule', tuple(rule.items()), k))
        else:
            _, way, color, skip, nxt = what
            left, scan, right, moved = rle.step(left, scan, right, way, color, skip)
            trace.append(('step', way, color, skip, moved, state, scan))
            state = nxt
    return trace, (left, scan, right)


class Program:
    """A machine (or strokes that do not look) with rules at set places."""

    def __init__(self, r, colors, rules, long=False):
        self.length = r.randrange(20, 150) if long else r.randrange(1, 50)
        self.blind = r.random() < (.8 if long else .4)
        self.rules = {}
        if rules:
            for _ in range(r.randrange(1, 4)):
                at = {(r.randrange(2), r.randrange(r.choice((3, 12)) if long else 3)): 0 for _ in range(r.randrange(1, 4))}
                rule = {k: r.choice((-1, -2, 1, 2, 3)) for k in sorted(at)}
                if any(d < 0 for d in rule.values()):
                    self.rules[r.randrange(self.length)] = rule
        if self.blind:
            stay, way, self.list = r.choice((.95, .99) if long else (.5, .8, .95)), r.random() < .5, []
            for _ in range(self.length):
                if r.random() > stay:
                    way = not way
                self.list.append((way, r.randrange(colors), r.random() < .6))
        else:
            k = r.randrange(1, 5)
            self.table = {(s, c): (r.randrange(colors), r.random() < .5, r.randrange(k))
                          for s in range(k) for c in range(colors)}

    def __call__(self, n, state, scan, sides):
        if n in self.rules:
            return 'rule', self.rules[n]
        if self.blind:
            way, c, skip = self.list[n]
            return 'step', way, c, skip, 0
        c, way, nxt = self.table[state, scan]
        return 'step', way, c, nxt == state, nxt


# ---------------------------------------------------------------- what is left over

def others(r, colors, side, depth, edge, same_color):
    """A side that agrees with this one on the first `depth` blocks."""
    keep = list(side[:depth])
    if edge:
        return keep
    last = keep[-1][0] if keep else None
    rest = side[depth:]
    for _ in range(9):
        k = r.randrange(6)
        if same_color and not rest:
            new = []
        elif same_color:
            new = [(rest[0][0], r.randrange(1, 9))] + T.side(r, colors, 0)
        elif k == 0:
            new = []
        elif k == 1:
            new = [(c, max(1, n + r.randrange(-3, 4))) for c, n in rest]
        elif k == 2:
            new = list(rest[:-1])
        else:
            new = T.side(r, colors, 0)
        new = rle.norm(new)
        got = rle.norm(keep + new)
        # it must agree on the part: the last block kept is neither cut off nor longer
        if got[:depth] == keep and (not new or new[0][0] != last) and (new or not keep or last):
            return got
    return None


def cells(blocks):
    """As a canonical list with blank cells at the end taken off."""
    return rle.norm(blocks)


def part(side, rest):
    """The near part of a final side: without the `rest` (blocks that were not touched)."""
    total = sum(n for _, n in rest)
    out = list(side)
    while total and out:
        c, n = out.pop()
        if n > total:
            out.append((c, n - total))
            total = 0
        else:
            total -= n
    return out


def judge(col, r, colors, model, program, trace, final, offsets, edges, text, kind, tries):
    for side, off in ((model[0], offsets[0]), (model[2], offsets[1])):
        if off > len(side):
            col.violation(kind + 'deeper', text, f'{off} blocks deep into a side of {len(side)}')
            return
    for i, o in ((0, offsets[0]), (2, offsets[1])):
        rest = model[i][o:]
        if rest and final[i][-len(rest):] != rest:
            col.violation(kind + 'beyond', text, f'recorded {offsets} {edges}, but {rest} beyond has become '
                          f'{final[i][-len(rest):]}')
            return
    col.top('blocks deep', max(offsets))
    col.count('runs ten blocks deep or more', max(offsets) > 9)
    same_color = bool(getattr(program, 'rules', None))
    for _ in range(tries):
        new = [others(r, colors, s, o, e, same_color)
               for s, o, e in ((model[0], offsets[0], edges[0]), (model[2], offsets[1], edges[1]))]
        if None in new:
            col.count('no other tape drawn')
            continue
        if new == [model[0], model[2]]:
            continue
        other = new[0], model[1], new[1]
        trace2, final2 = run_model(other, program)
        col.ev()
        col.count('other tapes')
        for i in range(2):
            col.count('edges touched' if edges[i] else 'sides cut' if len(new[i]) < len((model[0], model[2])[i])
                      else 'sides changed')
        col.nontriv((rle.show(*model), rle.show(*other), len(trace)))
        if trace2 != trace:
            n = next((i for i, (a, b) in enumerate(zip(trace, trace2)) if a != b), min(len(trace), len(trace2)))
            col.violation(kind + 'steps', text, f'recorded {offsets} {edges}; from {rle.show(*other)} event {n} is '
                          f'{trace2[n] if n < len(trace2) else None}, not {trace[n] if n < len(trace) else None}')
            return
        for i, side in ((0, 0), (2, 1)):
            o = offsets[side]
            a, b = model[i][o:], other[i][o:]
            mine = part(final[i], a) if a else final[i]
            his = part(final2[i], b) if b else final2[i]
            if cells(mine) != cells(his):
                col.violation(kind + 'effect', text, f'recorded {offsets} {edges}; from {rle.show(*other)} the part '
                              f'becomes {his}, not {mine}')
                return


def long_side(r, colors, end):
    out = []
    for _ in range(r.randrange(1, 9)):
        out += T.side(r, colors, 0)
    return rle.norm(out)


def drawn(seed):
    r = random.Random(seed)
    colors = r.choice((2, 2, 3, 4))
    long = r.random() < .15     # many blocks, and far into them
    side = functools.partial(long_side if long else T.side, r, colors, 0)
    model = side(), r.randrange(colors), side()
    program = Program(r, colors, r.random() < .4, long)
    trace, final = run_model(model, program)
    return r, colors, model, program, trace, final


def python(col, seed):
    N.library()
    from tm.rules import apply_rule
    from tm.tape import Block, Tape
    r, colors, model, program, trace, final = drawn(seed)
    t = Tape([Block(*b) for b in model[0]], model[1], [Block(*b) for b in model[2]]).to_enum()
    text = f'{rle.show(*model)}: {trace}'[:400]
    for what in trace:
        try:
            if what[0] == 'step':
                t.step(what[1], what[2], what[3])
            else:
                k = apply_rule(dict(what[1]), t)
                if k != what[2]:
                    col.violation('rule', text, f'applied {k} times, not {what[2]}')
                    return
                col.count('rule applications')
        except Exception as e:
            col.violation('error', text, f'{type(e).__name__}: {e}'[:200])
            return
    if T.spans(t.tape) != (final[0], final[1], final[2]):
        col.violation('tape', text, f'ends as {t.tape}, not {rle.show(*final)}')
        return
    col.count('recorded runs')
    judge(col, r, colors, model, program, trace, final, tuple(t.offsets), tuple(t.edges), text, '', 6)


def native(col, seed):
    r, colors, model, program, trace, final = drawn(seed)
    ops = T.build(*model)
    skip = sum(ops[i] == 0 for i in range(0, len(ops), 4))
    ops += [3]
    text = f'{rle.show(*model)}: {trace}'[:400]
    want = []
    for what in trace:
        if what[0] == 'step':
            ops += [4, what[1], what[2], what[3]]
            want.append(str(what[4]))
        else:
            ops += [6, len(what[1])]
            for (s, i), d in what[1]:
                ops += [s, i, d]
            want.append('none' if what[2] is None else str(what[2]))
    ops += [5]
    lines = probe.tape(ops)
    if lines is None:
        col.violation('native-crash', text, 'panics')
        return
    *got, last = lines[skip:]
    if got != want:
        col.violation('native-tape', text, f'moves {got}, not {want}')
        return
    shown, off, edge, scan = last.split('|')
    if shown != rle.show(*final):
        col.violation('native-tape', text, f'ends as {shown}, not {rle.show(*final)}')
        return
    col.count('native recorded runs')
    judge(col, r, colors, model, program, trace, final, tuple(map(int, off.split())),
          tuple(x == '1' for x in edge.split()), text, 'native-', 6)


def real(col, item):
    """The footprints recorded for rules in real runs."""
    prog, kw, lim, seed = item
    N.library()
    pyload.load()
    from tm import machine, prover, tape
    r = random.Random(seed)
    init, step = tape.EnumTape.__init__, tape.EnumTape.step
    get, put = tape.EnumTape.get_count, tape.EnumTape.set_count
    live = {}

    def w_init(self, t):
        init(self, t)
        ok = all(isinstance(b.count, int) for s in (t.lspan, t.rspan) for b in s)
        live[id(self)] = [self, T.spans(t) if ok else None, []]

    def w_step(self, shift, c, skip):
        rec = live.get(id(self))
        if rec:
            rec[2].append((shift, c, skip, self.tape.scan))
        return step(self, shift, c, skip)

    def w_put(self, at, v):
        rec = live.get(id(self))
        if rec:
            rec[1] = None           # a rule was applied: judged with drawn rules above
        return put(self, at, v)

    noted = getattr(prover.Prover, 'get_min_sig', None)
    kept = {}

    def w_min(self, *args, **kw):
        out = noted(self, *args, **kw)
        for a in (*args, *kw.values()):
            if isinstance(a, tape.EnumTape):
                kept[id(a)] = out
        return out

    try:
        if noted:
            prover.Prover.get_min_sig = w_min
        tape.EnumTape.__init__, tape.EnumTape.step, tape.EnumTape.set_count = w_init, w_step, w_put
        machine.Machine(prog, **kw).run(lim)
    except Exception as e:
        col.count(f'runs ending in {type(e).__name__}')
    finally:
        tape.EnumTape.__init__, tape.EnumTape.step, tape.EnumTape.set_count = init, step, put
        if noted:
            prover.Prover.get_min_sig = noted
    colors = 1 + max(c for rec in live.values() if rec[1] for c in
                     [rec[1][1]] + [b[0] for s in (rec[1][0], rec[1][2]) for b in s]) \
        if any(rec[1] for rec in live.values()) else 2
    for e, model, strokes in list(live.values())[:40]:
        if model is None or not strokes or len(strokes) > 3000:
            continue
        p = Strokes(strokes)
        trace, final = run_model(model, p)
        if len(trace) != len(strokes):
            col.violation('tape', f'{prog} {kw}', 'scans other than the cells there')
            continue
        col.count('recorded proofs')
        text = f'{prog} {kw}: {rle.show(*model)}'[:300]
        judge(col, r, colors, model, p, trace, final, tuple(e.offsets), tuple(e.edges), text, '', 4)
        try:
            # what the prover goes by afterwards
            (_, left, right), edges = kept[id(e)]
            depths, edges = (len(left), len(right)), tuple(map(bool, edges))
        except (KeyError, TypeError, ValueError):
            continue
        col.count('footprints kept with rules')
        col.top('blocks kept with a rule', sum(depths))
        judge(col, r, colors, model, p, trace, final, depths, edges, text, 'kept-', 4)


class Strokes:
    rules = None

    def __init__(self, strokes):
        self.strokes, self.length = strokes, len(strokes)

    def __call__(self, n, state, scan, sides):
        way, c, skip, seen = self.strokes[n]
        # another scan would lead the machine elsewhere
        return ('step', way, c, skip, n + 1) if scan == seen else None


def run(ctx):
    there = probe.lib('tape') is not None
    pyload.load()
    rng = ctx.rng('footprints')
    ctx.map('python', [rng.random() for _ in range(ctx.scale(40_000, 2_000_000))])
    if there:
        ctx.map('native', [rng.random() for _ in range(ctx.scale(40_000, 2_000_000))])
        ctx.need('native recorded runs', 10_000)
    else:
        ctx.notes.append('The native tape could not be driven: ' + probe.MISSING['tape'][-500:])
    progs = gen.corpus_progs('PROVER_HALT', 'HALT', 'PROVER_SPINOUT', 'RECUR_COMPACT', 'INFRUL')
    progs = rng.sample(progs, min(len(progs), ctx.scale(400, 100_000)))
    ctx.map('real', [(p, kw, 800, rng.random()) for p in progs
                     for kw in ({}, rng.choice(({'blocks': 2}, {'backsym': 1}, {'blocks': 3})))]
            + [(p, {}, 3000, rng.random()) for p in gen.deep_rules()], mem=3 << 30)
    for c, n in (('recorded runs', 10_000), ('other tapes', 100_000), ('edges touched', 20_000),
                 ('sides cut', 5_000), ('rule applications', 3000), ('recorded proofs', 150)):
        ctx.need(c, n)
