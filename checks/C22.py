"""C22: the compressed tape is the plain tape."""
import random

from bbv import gen, numwatch as W, probe, pyload, rle, symnum as S
from checks import _num as N

PROPERTY, LEVEL = 'C22', 'exploration'
TECHNIQUE = 'state monitor after every tape operation, against a cell-by-cell tape and an independent run-length model'
NOTE = 'Symbolic counts are large ones, as in real runs; they are compared by value.'
RULE = ('Random and machine-like sequences of steps on tapes of both implementations, from blank and from random '
        'tapes with plain, huge and symbolic counts, with copies taken at random points and both '
        'the copy and the original used afterwards; after each step every question a tape answers is '
        'asked. The same is watched in real runs, macros included. Non-trivial: distinct tapes judged.')


def color(r, colors, scan):
    return scan if r.random() < .15 else r.randrange(colors)


def strokes(r, colors, n):
    """A sequence of steps, as functions of what is scanned: random ones, or a small machine's."""
    if r.random() < .5:
        way, stay = r.random() < .5, r.choice((.5, .75, .9, .98))
        for _ in range(n):
            scan = yield
            if r.random() > stay:
                way = not way
            yield way, color(r, colors, scan), r.random() < .6
    else:
        states = r.randrange(1, 5)
        table = {(s, c): (r.randrange(colors), r.random() < .5, r.randrange(states))
                 for s in range(states) for c in range(colors)}
        st = 0
        for _ in range(n):
            scan = yield
            c, way, nxt = table[st, scan]
            yield way, c, nxt == st
            st = nxt


def side(r, colors, big):
    out = []
    for _ in range(r.choice((0, 1, 1, 2, 3, 4)) if r.random() < .95 else r.randrange(5, 24)):
        c = r.randrange(colors)
        n = r.choice((1, 1, 2, 3, r.randrange(1, 40)))
        if big and r.random() < .4:
            n = r.randrange(1, 10 ** r.randrange(1, 19 if big == 1 else 60))
        out.append((c, n))
    return rle.norm(out)


def spans(t):
    return [(b.color, b.count) for b in t.lspan], t.scan, [(b.color, b.count) for b in t.rspan]


def ask(t):
    return {'marks': t.marks, 'blank': t.blank, 'left edge': t.at_edge(False), 'right edge': t.at_edge(True),
            'lengths': tuple(t.span_lens), 'counts': tuple(map(list, t.counts)), 'signature': t.signature}


def answers(left, scan, right):
    def sig(s):
        return tuple((c,) if n == 1 else c for c, n in s)
    return {'marks': rle.marks(left, scan, right), 'blank': not left and not right and scan == 0,
            'left edge': scan == 0 and not left, 'right edge': scan == 0 and not right,
            'lengths': (len(left), len(right)), 'counts': ([n for _, n in left], [n for _, n in right]),
            'signature': (scan, sig(left), sig(right))}


def plainly(x):
    if isinstance(x, (list, tuple)):
        return type(x)(plainly(i) for i in x)
    return x if isinstance(x, (bool, int)) else int(x)


def relative(r, model, colors):
    """A tape that differs by little: cut short, recounted, recolored somewhere."""
    sides = [list(model[0]), list(model[2])]
    scan = model[1]
    for s in sides:
        if r.random() < .5:
            del s[r.randrange(len(s) + 1):]
        for k in range(len(s)):
            if r.random() < .2:
                s[k] = s[k][0], r.choice((1, 1, 2, s[k][1]))
    k = r.random()
    if k < .1:
        scan = r.randrange(colors + 1)
    elif k < .55:
        s = r.choice(sides)
        if s:
            i = r.choice((0, -1, r.randrange(len(s))))
            s[i] = r.randrange(colors + 1), s[i][1]
        else:
            s.append((1, 3))
    elif k < .7:
        r.choice(sides).append((r.randrange(1, colors), r.randrange(1, 4)))
    return sides[0], scan, sides[1]


def compare(col, t, model, what, text):
    """Is the tape what it should be?"""
    got = spans(t)
    if plainly(got) != model:
        col.violation(what, text, f'the tape is {rle.show(*got)}, should be {rle.show(*model)}')
        return False
    return True


def recount(model, i, j, n):
    sides = [list(model[0]), model[1], list(model[2])]
    sides[2 * i][j] = sides[2 * i][j][0], n
    return tuple(sides)


def python(col, seed):
    N.library()
    from tm import num
    from tm.tape import Block, Tape
    r = random.Random(seed)
    colors = r.choice((2, 2, 3, 4, 6))
    base = r.choice((2, 3, 6))
    mode = r.choice(('blank', 'small', 'big', 'symbolic', 'symbolic'))
    left, scan, right = [], 0, []
    if mode != 'blank':
        left, right = (side(r, colors, 0 if mode == 'small' else 2) for _ in range(2))
        scan = r.randrange(colors)

    def block(c, n):
        if mode == 'symbolic' and n > 60:
            e = r.randrange(60, 150)
            k, j = r.randrange(1, 9), r.randrange(0, 30)
            return Block(c, k * num.make_exp(base, e) + j)
        return Block(c, n)

    lb, rb = [block(*x) for x in left], [block(*x) for x in right]
    t = Tape(lb, scan, rb) if mode != 'blank' else Tape()
    left, right = ([(b.color, int(b.count)) for b in s] for s in (t.lspan, t.rspan))
    model = left, scan, right
    cells = pos = None
    if mode in ('blank', 'small'):
        pos, cells = 0, {}
        for d, s in ((-1, left), (1, right)):
            at = d
            for c, n in s:
                for _ in range(n):
                    if c:
                        cells[at] = c
                    at += d
        if scan:
            cells[0] = scan
    kept = []
    enum = None
    text = f'{mode} {seed!r}'
    gen_ = strokes(r, colors, r.randrange(5, 120))
    done = []
    for _ in gen_:
        way, c, skip = gen_.send(model[1])
        done.append((way, c, skip))
        text = f'{rle.show(left, scan, right)} after {done}' if len(done) < 9 else f'{mode} {seed!r} step {len(done)}'
        if r.random() < .05:
            kept.append((t, model, str(t)))
            t = t.clone()
        if r.random() < .03 and enum is None:
            enum = t.to_enum(), model
        *model, moved = rle.step(*model, way, c, skip)
        model = tuple(model)
        try:
            got = t.step(way, c, skip)
        except Exception as e:
            col.violation('error', text, f'{type(e).__name__}: {e}'[:200])
            return
        col.ev()
        col.count('steps')
        if not isinstance(got, int):
            col.count('symbolic jumps')
        if int(got) != moved:
            col.violation('moved', text, f'says {got}, {moved} cells')
            return
        if cells is not None:
            pos, n = rle.cells_step(cells, pos, way, c, skip)
            assert n == moved and rle.from_cells(cells, pos) == model, (text, cells, pos, model)
            col.count('tapes checked cell by cell')
        if not compare(col, t, model, 'tape', text):
            return
        want = answers(*model)
        for k, v in ask(t).items():
            if plainly(v) != want[k]:
                col.violation(k, text, f'is {v}, should be {want[k]}')
                return
        if mode in ('blank', 'small') and str(t) != rle.show(*model):
            col.violation('shown', text, f'{t} is {rle.show(*model)}')
            return
        if not t.sig_compatible(t.signature):
            col.violation('compatible', text, 'not compatible with its own signature')
            return
        other = relative(r, model, colors)
        sig = answers(*other)['signature']
        want = fits(other, model)
        if bool(t.sig_compatible(sig)) is not want:
            col.violation('compatible', text, f'{"" if want else "not "}compatible with {sig}, says otherwise')
            return
        col.count('signatures of others that fit' if want else 'signatures of others that do not fit')
        for i in range(2):
            for j, (_, n) in enumerate(model[2 * i]):
                if int(t.get_count((i, j))) != n:
                    col.violation('count', text, f'block {i}, {j} is said to have {t.get_count((i, j))}')
                    return
        if model[0] and model[2] and r.random() < .05:
            i = r.randrange(2)
            j = r.randrange(len(model[2 * i]))
            n = r.randrange(1, 50)
            t.set_count((i, j), n)
            model = recount(model, i, j, n)
            cells = None
            if not compare(col, t, model, 'set', text):
                return
        col.nontriv((mode, rle.show(*model)))
        if enum is not None:
            e, em = enum
            if e.scan != em[1] or r.random() < .2:
                *em, _ = rle.step(*em, way, c, skip)
                e.step(way, c, skip)
                col.count('steps of recording tapes')
                enum = e, tuple(em)
            if not compare(col, e.tape, enum[1], 'recording', text):
                return
    for o, m, shown in kept:
        col.count('originals looked at after their copies were used')
        if not compare(col, o, m, 'copies', text):
            return
        if str(o) != shown:
            col.violation('copies', text, f'{shown} has become {o}')
            return


def build(left, scan, right):
    """Operations of the native probe that make this tape."""
    ops, big = [], []
    for s, blocks in ((1, right), (0, left)):
        for i, (c, n) in enumerate(blocks):
            if n > 6:
                big.append((s, i, n))
    short = [[(c, min(n, 6)) for c, n in s] for s in (left, right)]
    for c, n in reversed(short[1]):
        for _ in range(n):
            ops += [0, 0, c, 0]
    total = sum(n for _, n in short[0])
    ops += [0, 0, scan, 0]
    for _ in range(total - 1):
        ops += [0, 0, 1, 0]
    if not total:
        ops += [0, 1, 0, 0]
    for c, n in reversed(short[0]):
        for _ in range(n):
            ops += [0, 1, c, 0]
    for s, i, n in big:
        ops += [2, s, i, n]
    return ops


def native(col, seed):
    if not probe.lib('tape'):
        return
    r = random.Random(seed)
    colors = r.choice((2, 3, 5))
    left, right = (side(r, colors, r.choice((0, 1))) for _ in range(2))
    scan = r.randrange(colors)
    ops = build(left, scan, right)
    made = len(ops)
    model = left, scan, right
    plan, keeps = [('show', model)], []
    ops += [1]
    text = f'{rle.show(*model)}'
    for _ in (g := strokes(r, colors, r.randrange(5, 80))):
        way, c, skip = g.send(model[1])
        if r.random() < .06:
            ops += [8]
            keeps.append(model)
        *model, moved = rle.step(*model, way, c, skip)
        model = tuple(model)
        if rle.marks(*model) + sum(n for _, n in model[0] + model[2]) > 1 << 62:
            break
        big = sum(n for _, n in model[0] + model[2]) > 3000
        ops += [0, way, c, skip] + ([] if big else [1])
        plan.append(('moved', moved))
        if not big:
            plan.append(('show', model))
        if model[0] and r.random() < .04:
            j = r.randrange(len(model[0]))
            n = r.randrange(1, 50)
            ops += [2, 0, j, n]
            model = recount(model, 0, j, n)
    ops += [9]
    if sum(n for _, n in left + right) > 3000:
        del ops[made]       # that question would write the tape out cell by cell
        plan.pop(0)
    lines = probe.tape(ops)
    if lines is None:
        col.violation('native-crash', text, f'panics during {len(plan)} operations')
        return
    lines = lines[sum(ops[i] == 0 for i in range(0, made, 4)):]
    for (what, v), line in zip(plan, lines):
        col.ev()
        if what == 'moved':
            col.count('native steps')
            if int(line) != v:
                col.violation('native-moved', text, f'{line}, should be {v}')
                return
            continue
        want = native_answers(*v)
        if line != want:
            a, b = line.split('|'), want.split('|')
            i = [x != y for x, y in zip(a, b)].index(True)
            col.violation('native-' + NAMES[i], text, f'is {a[i]}, should be {b[i]}, with {b[0]}')
            return
        col.nontriv(('native', rle.show(*v)))
    for m, line in zip(keeps, lines[len(plan):]):
        col.count('native originals looked at after their copies were used')
        if line != rle.show(*m):
            col.violation('native-copies', text, f'{rle.show(*m)} has become {line}')
            return


def fits(other, model):
    return other[1] == model[1] and all(
        len(o) <= len(m) and all(x[0] == y[0] for x, y in zip(o, m)) for o, m in zip(other[::2], model[::2]))


def native_pairs(col, seeds):
    """Which tapes fit the signatures of which others."""
    for seed in seeds:
        r = random.Random(seed)
        colors = r.choice((2, 3, 5))
        model = side(r, colors, 0), r.randrange(colors), side(r, colors, 0)
        other = relative(r, model, colors)
        if any(s and (not s[-1][0] or any(a[0] == b[0] for a, b in zip(s, s[1:]))) for s in other[::2]):
            continue
        col.ev()
        lines = probe.tape(build(*model) + [10] + build(*other) + [11])
        want = ' '.join('true' if x else 'false' for x in (fits(model, other), fits(other, model)))
        text = f'{rle.show(*model)} and {rle.show(*other)}'
        if lines is None:
            col.violation('native-crash', text, 'panics')
        elif lines[-1] != want:
            col.violation('native-compatible', text, f'{lines[-1]}, should be {want}')
        col.count('native signatures that fit' if 'true' in want else 'native signatures that do not fit')


NAMES = ['tape', 'marks', 'blocks', 'blank', 'edge', 'edge', 'counts', 'counts', 'lengths', 'cells', 'scan',
         'signature']


def native_answers(left, scan, right):
    a = answers(left, scan, right)
    low = {True: 'true', False: 'false'}

    def sig(s):
        return '[' + ', '.join(f"{'Just' if n == 1 else 'Mult'}({c})" for c, n in s) + ']'

    cells = [c for c, n in reversed(left) for _ in range(n)] + [scan] + [c for c, n in right for _ in range(n)]
    return '|'.join([rle.show(left, scan, right), str(a['marks']), str(len(left) + len(right)), low[a['blank']],
                     low[a['left edge']], low[a['right edge']], str(a['counts'][0]), str(a['counts'][1]),
                     '%d %d' % a['lengths'], str(cells), str(scan),
                     f'Signature {{ scan: {scan}, lspan: {sig(left)}, rspan: {sig(right)} }}'])


def real(col, item):
    """Every step the real machine takes on its tapes, judged by itself."""
    prog, kw, lim = item
    num = N.library()
    pyload.load()
    from tm import machine, tape
    orig = tape.Tape.step
    read = W.Reader(num)

    def view(t):
        out = []
        for s in (t.lspan, t.rspan):
            side_ = []
            for b in s:
                if isinstance(b.count, int):
                    side_.append((b.color, b.count))
                else:
                    x = read(b.count).exact
                    if x is None:
                        raise W.Opaque
                    side_.append((b.color, x))
            out.append(side_)
        return out[0], t.scan, out[1]

    def watched(t, shift, c, skip):
        try:
            before = view(t)
        except (W.Opaque, S.TooBig, RecursionError):
            before = None
        got = orig(t, shift, c, skip)
        if before is None:
            col.count('steps on tapes too large to judge')
            return got
        col.ev()
        col.count('steps in real runs')
        for s in (before[0], before[2]):
            if any(n < 1 for _, n in s) or not rle.canonical(s):
                col.violation('form', f'{prog} {kw}', f'the tape is {rle.show(*before)}')
        *model, moved = rle.step(*before, shift, c, skip)
        try:
            after = view(t)
        except (W.Opaque, S.TooBig, RecursionError):
            return got
        if list(after) != model:
            col.violation('tape', f'{prog} {kw}: {rle.show(*before)}', f'becomes {rle.show(*after)}')
        if isinstance(got, int) and got != moved:
            col.violation('moved', f'{prog} {kw}: {rle.show(*before)}', f'says {got}, {moved} cells')
        return got

    tape.Tape.step = watched
    try:
        machine.Machine(prog, **kw).run(lim)
    except Exception as e:
        col.count(f'runs ending in {type(e).__name__}')
    finally:
        tape.Tape.step = orig
    col.count('real runs watched')
    col.nontriv((prog, tuple(kw.items())))


def run(ctx):
    there = probe.lib('tape') is not None
    pyload.load()
    rng = ctx.rng('tapes')
    ctx.map('python', [rng.random() for _ in range(ctx.scale(12_000, 600_000))])
    if there:
        ctx.map('native', [rng.random() for _ in range(ctx.scale(12_000, 600_000))])
        ctx.map('native_pairs', [[rng.random() for _ in range(200)] for _ in range(ctx.scale(100, 3000))])
        ctx.need('native steps', 100_000)
        ctx.need('native signatures that fit', 1000)
    else:
        ctx.notes.append('The native tape could not be driven: ' + probe.MISSING['tape'][-500:])
    progs = gen.corpus_progs('PROVER_HALT', 'HALT', 'PROVER_SPINOUT', 'RECUR_COMPACT', 'INFRUL')
    progs = rng.sample(progs, min(len(progs), ctx.scale(250, 100_000)))
    items = [(p, kw, 800) for p in progs for kw in ({}, rng.choice(({'blocks': 2}, {'backsym': 1}, {'blocks': 3})))]
    items += [(p[0], {'opt_macro': 3000}, 2000) for p in N.algebra(rng, 15 if ctx.quick else None)]
    ctx.map('real', items, mem=3 << 30)
    for c, n in (('steps', 100_000), ('tapes checked cell by cell', 50_000), ('symbolic jumps', 500),
                 ('steps of recording tapes', 2000), ('steps in real runs', 20_000),
                 ('originals looked at after their copies were used', 5000)):
        ctx.need(c, n)
