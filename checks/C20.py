"""C20: symbolic numbers are well-behaved values."""
import ast
import math
import os
import pickle
import random

from bbv import symnum as S
from checks import _num as N

PROPERTY, LEVEL = 'C20', 'exploration'
TECHNIQUE = ('offline comparison of recorded sessions that differ only in what happened before; printed text '
             'read back by an independent evaluator; estimates against independent magnitudes')
NOTE = ('Estimates are judged for positive numbers without negative factors whose exponents are at least 60; '
        'text that abbreviates a long integer or number is not read back.')
RULE = ('Sessions replayed in fresh processes with and without others (and the same one with its operands '
        'the other way round) before them, and twice in one '
        'process; every result printed and read back; the real prover with its operators hooked. '
        'Non-trivial: distinct texts read back, and replayed sessions.')
ASSUMPTIONS = []


def read_back(text):
    def go(t):
        if isinstance(t, ast.Constant):
            return S.lit(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.USub):
            return S.neg(go(t.operand))
        l = go(t.left)
        if isinstance(t.op, ast.Add):
            return S.add(l, go(t.right))
        if isinstance(t.op, ast.Mult):
            return S.mul(l, go(t.right))
        if isinstance(t.op, ast.FloorDiv):
            return S.div(l, t.right.value)
        if isinstance(t.op, ast.Pow):
            return S.power(t.left.value, go(t.right))
        raise SyntaxError(text)
    return go(ast.parse(text, mode='eval').body)


def texts(seed, domain, **kw):
    """The printed results of one session, in order."""
    out = []

    def see(op, v, s):
        out.append(str(v))
        return True

    def refused(op, e, t):
        out.append(type(e).__name__)

    N.session(seed, domain, see, refused, size=20, **kw)
    return out


def in_child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as h:
                try:
                    h.write(pickle.dumps(f()))
                except BaseException as e:
                    h.write(pickle.dumps(e))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    x = pickle.loads(data)
    if isinstance(x, BaseException):
        raise x
    return x


def history(col, item):
    """The same session, alone and after others, each in a process of its own."""
    domain, before, seed = item
    N.library()
    alone = in_child(lambda: texts(seed, domain))
    after = in_child(lambda: ([texts(s, domain) for s in before], texts(seed, domain, swap=True),
                              texts(seed, domain))[-1])
    col.ev(len(alone))
    col.nontriv(('history', seed))
    col.count('sessions compared with and without a past')
    col.count('results compared with and without a past', len(alone))
    if alone != after:
        k = next((i for i, (a, b) in enumerate(zip(alone, after)) if a != b), min(len(alone), len(after)))
        col.violation('history', f'{domain} {seed} after {before}',
                      f'result {k}: {(alone + [None])[k]!r} alone, {(after + [None])[k]!r} after other work')


def again(col, item):
    """Twice in one process: the same objects; and what was printed before is printed again."""
    domain, seed, others = item
    num = N.library()
    first = []

    def see(op, v, s):
        if s.size < 200:
            first.append((v, str(v), s))
        return True

    N.session(seed, domain, see, lambda *a: None, size=18)
    where = {}
    for v, _, _ in first:
        where[v] = str(v)
    for o in others:
        N.session(o, domain, lambda *a: True, lambda *a: None)
    k = [0]
    lost = []

    def see2(op, v, s):
        if s.size < 200:
            if k[0] < len(first):
                w = first[k[0]][0]
                col.ev()
                if isinstance(w, int):
                    if w != v:
                        lost.append((s.text, w, v))
                elif w is not v or not w == v or hash(w) != hash(v) or w != v:
                    lost.append((s.text, w, v))
                elif where.get(v) != str(v):
                    lost.append((s.text, where.get(v), v))
                else:
                    col.count('results built twice')
            k[0] += 1
        return True

    N.session(seed, domain, see2, lambda *a: None, size=18)
    if lost:
        col.violation('identity', lost[0][0][:300], f'{str(lost[0][1])[:200]} once, {str(lost[0][2])[:200]} again')
    for v, t, s in first:
        col.ev()
        if str(v) != t:
            col.violation('changed', t[:300], f'is now {str(v)[:300]}')
            return
        printed(col, v, t, s)
        if domain == 'tower':
            estimate(col, num, v, s)


def printed(col, v, t, s):
    if '~' in t or '?' in t or '↑' in t:
        col.count('abbreviated texts')
        return
    try:
        got = read_back(t)
    except (S.TooBig, AssertionError):
        return
    except SyntaxError:
        col.violation('text', t[:300], 'is not an expression')
        return
    col.count('texts read back')
    col.nontriv(t)
    from bbv import numwatch as W
    n, m = W.same(got, s)
    if m is not None:
        col.violation('text', t[:300], f'stands for another number than {s.text[:300]}')


def estimate(col, num, v, s):
    if isinstance(v, int) or s.sign != 1 or s.odd or not s.mag:
        return
    try:
        e = v.estimate()
    except Exception as x:
        N.expect(col, x, 'estimate', s.text)
        return
    level, x = s.mag
    key = f'{str(v)[:250]}'
    if isinstance(e, num.Tet):
        h = level + (3 if x >= 1e10 else 2 if x > 10 else 1)
        col.count('tower heights compared')
        if e.base != 10 or e.height != h - 1:
            col.violation('estimate', key, f'is estimated at {e}, it is 10 to itself {level} times and {x:.6g}')
        return
    if not isinstance(getattr(e, 'exp', None), int) or level > 1 or s.exact is None and level != 1:
        return
    d = math.log10(x) if level == 0 else x
    col.count('sizes compared')
    if e.base != 10 or abs(e.exp - d) > 6 + 1e-9 * d:
        col.violation('estimate', key, f'is estimated at {e}, it has {d:.2f} digits')


def real(col, item):
    N.hooked(col, item, 'stable')


def run(ctx):
    rng = ctx.rng('sessions')

    def dom():
        return rng.choice(('small', 'tower'))

    ctx.map('history', [(dom(), [rng.random() for _ in range(rng.randrange(1, 5))], rng.random())
                        for _ in range(ctx.scale(2500, 60_000))], mem=3 << 30)
    ctx.map('again', [(dom(), rng.random(), [rng.random() for _ in range(rng.randrange(0, 4))])
                      for _ in range(ctx.scale(5000, 120_000))], mem=3 << 30)
    ctx.map('real', N.algebra(rng, 40 if ctx.quick else None), mem=3 << 30)
    ctx.need('sessions compared with and without a past', 1000)
    ctx.need('results built twice', 10_000)
    ctx.need('texts read back', 5_000)
    ctx.need('sizes compared', 1_000)
    ctx.need('tower heights compared', 1_000)
    ctx.need('numbers looked at again after a run', 500)
