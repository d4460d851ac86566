"""C18: remainders of symbolic numbers are exact."""
import json

from bbv import symnum as S
from checks import _num as N

PROPERTY, LEVEL = 'C18', 'exploration'
TECHNIQUE = 'shadow-value monitor of every remainder, against residues worked out from the orbit of each base'
NOTE = ('Residues of towers are computed by following the powers of the base modulo each number until they '
        'repeat, which shares nothing with the library; moduli up to a thousand million, and all the tabulated ones.')
RULE = ('Random sessions in two domains, each number modulo some 34 fixed and random moduli (large ones with a small period among them); 2 to symbolic '
        'exponents modulo 2 * 3 ** k for every residue of the exponent (k up to 8 in the quick run) and for '
        'every tabulated one; towers of small bases; the real prover with its operators hooked. '
        'Non-trivial: distinct (number, modulus).')
ASSUMPTIONS = ['An exception of the kinds the library uses for refusing is a refusal.']


def sess(col, item):
    seed, domain = item

    import random
    rng = random.Random(seed)

    def see(op, v, s):
        if isinstance(v, int):
            return False
        moduli = rng.sample(N.MODULI, 14) + [rng.randrange(2, 3000) for _ in range(3)]
        if rng.random() < .02:
            moduli.append(rng.choice((2 ** rng.randrange(12, 23), 3 ** rng.randrange(8, 13), 10 ** rng.randrange(4, 7))))
        for m in moduli:
            col.nontriv((s.text, m))
        ok = N.judge_rest(col, v, s, s.text, moduli)
        k = rng.choice((2, 3, 4, 5, 6, 7, 9, 12))
        try:
            q, r = divmod(v, k)
            want = s.mod(k)
        except S.TooBig:
            return ok
        except Exception as e:
            N.expect(col, e, f'divmod {k}', s.text)
            return ok
        col.count('divmods')
        if r != want:
            col.violation('remainder', f'divmod({s.text}, {k})', f'gives {r}, not {want}')
            return False
        return ok

    N.session(seed, domain, see, lambda op, e, text: None)
    col.count(f'{domain} sessions')


def orbit3(col, item):
    """2 ** (symbolic) modulo 2 * 3 ** k, for exponents of given residues."""
    num = N.library()
    mod, residues, n = item
    period = mod // 3
    x = pow(2, n, period)
    for r in residues:
        c = (r - x) % period
        e = c + num.make_exp(2, n)
        col.ev()
        try:
            got = num.make_exp(2, e) % mod
        except Exception as err:
            N.expect(col, err, f'% {mod}', f'2 ** ({c} + 2 ** {n})')
            continue
        # 2 has order `period` modulo 3 ** k, and the power is even
        h = pow(2, r + period, mod)
        col.count('tabulated remainders')
        col.nontriv((mod, r))
        if got != h:
            col.violation('remainder', f'2 ** ({c} + 2 ** {n}) % {mod}', f'gives {got}, not {h}')


def chain(col, item):
    """Towers of one base, with small additions, modulo everything small."""
    num = N.library()
    base, seed = item
    import random
    rng = random.Random(seed)
    n = rng.randrange(60, 200)
    v, s = num.make_exp(base, n), S.power(base, S.lit(n))
    for _ in range(rng.randrange(1, 4)):
        k = rng.choice((0, 0, 1, -1, 2, 3, -2, 5, 12, 17))
        c = rng.choice((1, 1, 1, 2, 3, 5))
        v, s = base ** (k + c * v), S.power(base, S.add(S.lit(k), S.mul(S.lit(c), s)))
        N.judge_rest(col, v, s, s.text, range(2, 130))
        col.count('chains')
        col.nontriv(s.text)
        k = rng.choice((1, -1, 2, 7))
        N.judge_rest(col, k + v, S.add(S.lit(k), s), f'{k} + {s.text}', range(2, 40))


def real(col, item):
    N.hooked(col, item, 'rest')


def run(ctx):
    rng = ctx.rng('sessions')
    n = ctx.scale(3500, 150_000)
    ctx.map('sess', [(rng.random(), 'small') for _ in range(n)], mem=3 << 30)
    ctx.map('sess', [(rng.random(), 'tower') for _ in range(n * 2 // 3)], mem=3 << 30)
    items = []
    for k, full in zip(range(2, 21), [True] * (6 if ctx.quick else 9) + [False] * 20):
        mod = 2 * 3 ** k
        rs = list(range(mod // 3)) if full else rng.sample(range(mod // 3), 300)
        items += [(mod, rs[i:i + 500], rng.randrange(20, 300)) for i in range(0, len(rs), 500)]
    for mod, keys in json.loads(N.MODKEYS.read_text()).items():
        items += [(int(mod), keys, rng.randrange(20, 300)) for _ in range(3)]
    ctx.map('orbit3', items, mem=3 << 30)
    ctx.map('chain', [(b, rng.random()) for b in (2, 2, 2, 3, 3, 5, 6, 7, 10, 11, 12, 13, 15, 18, 27, 32)
                      for _ in range(ctx.scale(12, 600))], mem=3 << 30)
    ctx.map('real', N.algebra(rng, 60 if ctx.quick else None), mem=3 << 30)
    ctx.need('remainders compared', 100_000)
    ctx.need('remainders of towers', 30_000)
    ctx.need('tabulated remainders', 1_500)
    ctx.need('divmods', 5_000)
    ctx.need('remainders in real runs', 1_000)
