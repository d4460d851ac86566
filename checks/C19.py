"""C19: comparisons of symbolic numbers are right."""
import random

from bbv import symnum as S
from checks import _num as N

PROPERTY, LEVEL = 'C19', 'exploration'
TECHNIQUE = 'shadow-value monitor of every comparison, by exact values or by independently bounded magnitudes'
NOTE = 'Pairs whose order the monitor cannot tell are counted and not judged.'
RULE = ('All pairs of the numbers of random sessions; constructed near ties (multiples of powers, sums with '
        'a common part, exponents that differ a little); the real prover with its operators hooked. '
        'Non-trivial: distinct judged pairs.')
ASSUMPTIONS = ['An exception of the kinds the library uses for refusing is a refusal.',
               'Exponents of the generated numbers are at least 60.']


def sess(col, seed):
    num = N.library()
    got = N.session(seed, 'tower', lambda op, v, s: not isinstance(v, int), lambda *a: None,
                    keep=9)
    pool = got.pool + [(k, S.lit(k)) for k in (1, 5, 40, 1000, 10 ** 9)]
    # integers right beside some of them
    for v, s in random.Random(seed).sample(got.pool, min(3, len(got.pool))):
        if s.exact is not None:
            pool += [(s.exact + d, S.lit(s.exact + d)) for d in (-7, -1, 0, 1, 2)]
    for a, sa in pool:
        for b, sb in pool:
            if a is b or isinstance(a, int) and isinstance(b, int):
                continue
            text = f'{sa.text} , {sb.text}'
            if N.order(sa, sb) is not None:
                col.nontriv(text)
            N.judge_order(col, num, a, sa, b, sb, text)
    col.count('sessions')


def ties(col, seed):
    num = N.library()
    r = random.Random(seed)
    base = r.choice((2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10))
    n = r.randrange(60, 900)
    x, sx = num.make_exp(base, n), S.power(base, S.lit(n))
    kind = r.randrange(10)

    def i(v):
        return S.lit(v)

    def coef(d, v, s):
        return d * v, S.mul(i(d), s)

    d = r.randrange(0, 9)
    y, sy = num.make_exp(base, n + d), S.power(base, i(n + d))
    near = base ** d
    ps = []
    try:
        if kind == 0:       # p * X against q * Y with p about q * base ** d
            q = r.randrange(1, 40)
            p = max(1, q * near + r.choice((-2, -1, 1, 2, 0, 7, -7)))
            ps = [coef(p, x, sx), coef(q, y, sy)]
        elif kind == 1:     # p * X + c against q * X + e
            p, q = r.randrange(1, 30), r.randrange(1, 30)
            for k in (p, q):
                v, s = coef(k, x, sx)
                c = r.randrange(-9, 10)
                ps.append((c + v, S.add(i(c), s)))
        elif kind == 2:     # X + Z against Y + Z
            m = r.randrange(60, 900)
            z, sz = num.make_exp(base, m), S.power(base, i(m))
            if r.random() < .5:
                z, sz = base ** z, S.power(base, sz)
            ps = [(x + z, S.add(sx, sz)), (y + z, S.add(sy, sz)), (x, sx), (z, sz)]
        elif kind == 3:     # X * (p + Z) against X * (q + Z)
            m = r.randrange(60, 900)
            z, sz = num.make_exp(base, m), S.power(base, i(m))
            for k in (r.randrange(1, 9), r.randrange(-9, -1), 0):
                ps.append((x * (k + z), S.mul(sx, S.add(i(k), sz))))
            ps.append((x, sx))
        elif kind == 4:     # quotients
            k = r.choice((2, 3, 5, 7, base - 1 if base > 2 else 3))
            for c in (0, 1):
                v, s = coef(1 + c, x, sx)
                w = s.mod(k)
                ps.append(((v - w) // k, S.div(S.sub(s, i(w)), k)))
        elif kind == 5:     # towers with exponents that differ
            k = r.randrange(1, 9)
            a, sa = base ** x, S.power(base, sx)
            b, sb = base ** (x + k), None
            c, sc = base ** y, S.power(base, sy)
            ps = [(a, sa), (c, sc)] if d else []
            # a < b for certain: judged here, as the magnitudes are too close for the monitor
            for p, q, w in ((a, b, True), (b, a, False)):
                col.ev()
                try:
                    g = p < q
                except Exception as e:
                    N.expect(col, e, 'lt', f'{p} , {q}')
                    continue
                col.count('towers one step apart')
                if g is not w:
                    if w:
                        col.violation('near', 'a power against itself plus less', f'{p} < {q}: {g}')
                    else:
                        col.violation('order', f'lt: {p} , {q}', f'is {g}')
        elif kind == 6:     # large integers around
            m = n + r.randrange(-50, 300)
            z, sz = num.make_exp(base, max(60, m)), S.power(base, i(max(60, m)))
            big = base ** r.randrange(50, 1200) + r.randrange(1000)
            c = r.randrange(1, 40)
            ps = [(big + x, S.add(i(big), sx)), (z, sz), (c * z, S.mul(i(c), sz)), (big, i(big)),
                  (c + z, S.add(i(c), sz)), (big * x, S.mul(i(big), sx))]
        elif kind == 9:     # a power against an integer of its own length and another one
            big = r.randrange(base ** n // 8, base ** n + base ** n // 8)
            q = r.randrange(1, 9)
            z, sz = num.make_exp(base, n - q), S.power(base, i(n - q))
            for k in (r.randrange(1, base ** q + 2), r.randrange(1, base ** q + 2)):
                v, s = coef(k, z, sz)
                ps.append((big + v, S.add(i(big), s)))
            ps += [(x, sx), (y, sy), coef(q, x, sx), (z, sz)]
        elif kind == 8:     # integers right beside a large integer and (less) a multiple
            k = r.choice((-1, 1)) * r.choice((1, 2, 3, 7, 50, r.randrange(1, 400)))
            m = max(60, n - r.randrange(50))
            z, sz = num.make_exp(base, m), i(base ** m)
            big = base ** m * r.choice((401, 500, 1000)) + r.randrange(1000)
            v, s = big + k * z, S.add(i(big), S.mul(i(k), sz))
            ps = [(v, s), (big, i(big))] + [(s.exact + e, i(s.exact + e))
                                            for e in {-abs(k), -1, 1, abs(k) - 1, r.randrange(-500, 500)} - {0}]
        else:               # differences of powers
            m = n + r.randrange(20, 300)
            z, sz = num.make_exp(base, m), S.power(base, i(m))
            k = r.randrange(-9, 9)
            ps = [(z - x, S.sub(sz, sx)), (z - y, S.sub(sz, sy)), (z, sz), (x, sx),
                  (k + (z - x), S.add(i(k), S.sub(sz, sx)))]
    except Exception as e:
        N.expect(col, e, f'building {kind}', f'{base} ** {n}')
        return
    for a, sa in ps:
        for b, sb in ps:
            if a is b and not isinstance(a, int):
                col.ev()
                if a < b or a > b or not a <= b or not a >= b or a != b:
                    col.violation('order', sa.text[:300], 'is not equal to itself')
            if a is not b and not (isinstance(a, int) and isinstance(b, int)):
                t = f'{sa.text} , {sb.text}'
                if N.order(sa, sb) is not None:
                    col.nontriv(t)
                    col.count('near ties')
                N.judge_order(col, num, a, sa, b, sb, t)


def real(col, item):
    N.hooked(col, item, 'order')


def run(ctx):
    rng = ctx.rng('sessions')
    ctx.map('sess', [rng.random() for _ in range(ctx.scale(10000, 200_000))], mem=3 << 30)
    ctx.map('ties', [rng.random() for _ in range(ctx.scale(15_000, 500_000))], mem=3 << 30)
    ctx.map('real', N.algebra(rng, 60 if ctx.quick else None), mem=3 << 30)
    ctx.need('comparisons', 50_000)
    ctx.need('comparisons of towers', 50_000)
    ctx.need('near ties', 10_000)
    ctx.need('comparisons in real runs', 50)
