"""Symbolic numbers of the code under test, each with a shadow: how it was made, from which its
value (when it can be written out), its residues and its size are computed independently."""
import functools
import math

CAP = 60_000        # bits written out

REFUSALS = ('NotImplementedError', 'AssertionError', 'ExpModLimit', 'ModDepthLimit',
            'RecursionError', 'ValueError', 'OverflowError')


def refusal(e):
    return type(e).__name__ in REFUSALS


# ------------------------------------------------------------------ magnitudes
# (level, x): 10 ** (10 ** ... x) with `level` tens, x a float below 1e15 (above 15 when level)

def _norm(level, x):
    while x > 1e15:
        x = math.log10(x)
        level += 1
    while level and x < 15:
        x = 10.0 ** x
        level -= 1
    return level, x


def mag_int(n):
    n = abs(n)
    if n < 10 ** 15:
        return 0, float(n)
    b = n.bit_length()
    lg = math.log10(n >> (b - 60)) + (b - 60) * math.log10(2) if b > 60 else math.log10(n)
    return _norm(1, lg)


def mag_pow(base, e):
    level, x = e
    k = math.log10(base)
    # log10(base ** e) = e * log10(base)
    if level == 0:
        return _norm(1, x * k)
    if level == 1:
        return _norm(2, x + math.log10(k))
    return _norm(level + 1, x)


def mag_mul(a, b):
    if a < b:
        a, b = b, a
    if a[0] == 0:
        return _norm(0, a[1] * b[1]) if a[1] * b[1] < 1e300 else None
    if a[0] == 1:
        lb = b[1] if b[0] else math.log10(b[1]) if b[1] > 0 else None
        return None if lb is None else _norm(1, a[1] + lb)
    return a


def clearly_less(a, b):
    """Is magnitude a below b by more than any rounding here could hide?"""
    if a is None or b is None:
        return False
    if a[0] != b[0]:
        la, lb = a, b
        return a[0] < b[0] and not (b[0] == a[0] + 1 and b[1] < 1.01 * math.log10(max(a[1], 1)) + 1e-9)
    if a[0] == 0:
        return a[1] < b[1] * .999 - 1
    if a[0] == 1:
        return a[1] < b[1] * (1 - 1e-9) - 1
    return a[1] < b[1] * (1 - 1e-9) - 3


# --------------------------------------------------------------------- shadows

_orbits = {}


def orbit(base, m):
    """(tail, period, powers) of base ** e mod m."""
    k = base, m
    if k not in _orbits:
        if len(_orbits) > 3000:
            _orbits.clear()
        seen, out, v = {}, [], 1 % m
        while v not in seen:
            seen[v] = len(out)
            out.append(v)
            v = v * base % m
        _orbits[k] = seen[v], len(out) - seen[v], out
    return _orbits[k]


class TooBig(Exception):
    pass


@functools.cache
def order_of_units(m):
    """A number that is a multiple of the order of every unit modulo m."""
    out, p = 1, 2
    while p * p <= m:
        if m % p == 0:
            q = p - 1
            m //= p
            while m % p == 0:
                q, m = q * p, m // p
            out = math.lcm(out, q)
        p += 1
    return math.lcm(out, m - 1) if m > 1 else out


class Sh:
    """The shadow of one number."""
    __slots__ = ('op', 'args', 'exact', 'sign', 'mag', 'size', 'depth', 'odd', '_mods')

    def __init__(self, op, args, exact, sign, mag):
        self.op, self.args, self.exact = op, args, exact
        self.sign, self.mag = sign, mag
        kids = [a for a in args if isinstance(a, Sh)]
        self.size = 1 + sum(a.size for a in kids)
        self.depth = 1 + max((a.depth for a in kids), default=0)
        # is there a product with a negative symbolic factor in it?
        self.odd = any(a.odd for a in kids) or (
            op == 'mul' and sum(a.sign != 1 for a in kids if a.op != 'i') > 0
            and not any(a.op == 'i' for a in kids))
        self._mods = {}

    @property
    def text(self):
        if self.size > 400:
            return f'({self.op} of {self.size} operations)'
        op, args = self.op, self.args
        t = [a.text if isinstance(a, Sh) else str(a) for a in args]
        if op == 'i':
            return str(self.exact) if abs(self.exact) < 10 ** 30 else f'(~{self.exact.bit_length()} bits)'
        return f'({t[0]} ' + {'add': '+', 'mul': '*', 'div': '//', 'pow': '**'}[op] + f' {t[1]})'

    def mod(self, m):
        if self.exact is not None:
            return self.exact % m
        if m not in self._mods:
            if m > 10 ** 9:
                raise TooBig
            op, args = self.op, self.args
            if op == 'add':
                v = (args[0].mod(m) + args[1].mod(m)) % m
            elif op == 'mul':
                v = args[0].mod(m) * args[1].mod(m) % m
            elif op == 'div':
                v = args[0].mod(m * args[1]) // args[1]
            else:
                base, e = args
                if m <= 20_000:
                    tail, period, powers = orbit(base, m)
                    v = powers[tail + (e.mod(period) - tail) % period]
                else:       # the exponent is large enough for any tail
                    assert e.exact is None or e.exact > 64
                    k = order_of_units(m)
                    v = pow(base, e.mod(k) + k * (1 + 64 // k), m)
            self._mods[m] = v
        return self._mods[m]


def lit(n):
    return Sh('i', (), n, (n > 0) - (n < 0), mag_int(n))


def power(base, e):
    """base ** e for a positive e."""
    if e.exact is not None and e.exact.bit_length() < 40 and e.exact * math.log2(base) <= CAP:
        n = base ** e.exact
        return Sh('pow', (base, e), n, 1, mag_int(n))
    assert e.sign == 1 and (e.exact is None or e.exact > 64)
    if e.exact is not None and e.exact.bit_length() > CAP:
        raise TooBig
    return Sh('pow', (base, e), None, 1, mag_pow(base, e.mag) if e.mag else None)


def add(a, b):
    if a.exact is not None and b.exact is not None:
        n = a.exact + b.exact
        return Sh('add', (a, b), n, (n > 0) - (n < 0), mag_int(n))
    if a.exact == 0 or b.exact == 0:
        o = b if a.exact == 0 else a
        return Sh('add', (a, b), None, o.sign, o.mag)
    if a.sign is not None and a.sign == b.sign:
        m = None
        if a.mag and b.mag:
            x, y = sorted((a.mag, b.mag))
            m = y if y[0] else _norm(0, x[1] + y[1])
        return Sh('add', (a, b), None, a.sign, m)
    for x, y in ((a, b), (b, a)):
        # y outweighs x by a factor of at least about ten
        if x.sign is not None and y.sign is not None and clearly_less(x.mag, y.mag):
            return Sh('add', (a, b), None, y.sign, y.mag)
    return Sh('add', (a, b), None, None, None)


def mul(a, b):
    if a.exact is not None and b.exact is not None:
        n = a.exact * b.exact
        if n.bit_length() > 3 * CAP:
            raise TooBig
        return Sh('mul', (a, b), n, (n > 0) - (n < 0), mag_int(n))
    if a.exact == 0 or b.exact == 0:
        return Sh('mul', (a, b), 0, 0, (0, 0.0))
    sign = None if None in (a.sign, b.sign) else a.sign * b.sign
    m = mag_mul(a.mag, b.mag) if a.mag and b.mag else None
    return Sh('mul', (a, b), None, sign, m)


def div(a, d):
    """a // d for a multiple a of d."""
    if a.exact is not None:
        n = a.exact // d
        return Sh('div', (a, d), n, (n > 0) - (n < 0), mag_int(n))
    m = a.mag
    if m and m[0] == 0:
        m = 0, m[1] / d
    elif m and m[0] == 1:
        m = _norm(1, m[1] - math.log10(d))
    return Sh('div', (a, d), None, a.sign, m)


def neg(a):
    return mul(lit(-1), a)


def sub(a, b):
    return add(a, neg(b))


def less(a, b):
    """True / False / None (cannot tell)."""
    if a.exact is not None and b.exact is not None:
        return a.exact < b.exact
    if a.sign is None or b.sign is None:
        return None
    if a.sign != b.sign:
        return a.sign < b.sign
    if clearly_less(a.mag, b.mag):
        return a.sign > 0
    if clearly_less(b.mag, a.mag):
        return a.sign < 0
    return None


# -------------------------------------------------------------------- sessions

KS = (-1, 1, 2, 3, -2, -3, 4, 5, 6, 7, -4, 8, 9, 10, -10, 16, 27, 0)
OPS = ('add', 'add', 'divdiv', 'sub', 'neg', 'mul', 'muli', 'imul', 'addi', 'iadd', 'subi', 'isub', 'div',
       'div', 'pow', 'pow', 'epow', 'mulexp', 'kin', 'kin', 'kin')


class Session:
    """A history of operations in one process.  `see(kind, op, result, shadow)` is called for every
    result, `refused(op, error)` for every refusal; domain: 'small' (powers that can be
    written out) or 'tower'."""

    def __init__(self, num, rng, domain, see, refused, size=14, keep=8, swap=False):
        self.num, self.rng, self.see, self.refused = num, rng, see, refused
        self.domain, self.size, self.keep = domain, size, keep
        self.swap = swap        # the same work with the operands the other way round
        self.base = rng.choice((2, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10)) if rng.random() < .8 \
            else rng.choice((11, 12, 13, 14, 15, 16, 18, 20, 24, 25, 27, 32, 36, 49, 64, 81, 100, 125, 128,
                             243, 256, 512, 1000, 1024, 4096))
        self.pool = []
        # symbolic exponents only among numbers whose powers outweigh the integers around them
        self.lofty = domain == 'tower' or rng.random() < .4
        if self.lofty and domain == 'small':
            self.base = rng.choice((2, 2, 3))

    def exponent(self):
        r = self.rng
        if self.domain == 'small':
            if self.lofty:
                return r.randrange(9, 13) if self.base == 2 else r.randrange(6, 9)
            return r.choice((1, 2, 3, 4, 5, 8, 13, 21, 34))
        return r.randrange(60, 400)

    def start(self):
        mk = self.num.make_exp
        for _ in range(3):
            e = self.exponent()
            self.put('exp', mk(self.base, e), power(self.base, lit(e)))
        if self.domain == 'tower':
            for _ in range(2):
                v, s = self.rng.choice(self.pool)
                if s.sign == 1:
                    self.put('pow', self.base ** v, power(self.base, s))

    def put(self, op, v, s):
        if self.see(op, v, s) and not isinstance(v, int):
            self.pool.append((v, s))
            if len(self.pool) > self.keep:
                self.pool.pop(self.rng.randrange(len(self.pool)))

    def step(self):
        r, num = self.rng, self.num
        op = r.choice(OPS)
        a, sa = r.choice(self.pool)
        b, sb = r.choice(self.pool)
        k = r.choice(KS) if r.random() < .7 or self.lofty and self.domain == 'small' else r.randrange(-300, 300)
        base = self.base
        text = op
        try:
            if op == 'add':
                s, f = add(sa, sb), lambda: b + a if self.swap else a + b
            elif op == 'sub':
                s, f = sub(sa, sb), lambda: a - b
            elif op == 'neg':
                s, f = neg(sa), lambda: -a
            elif op == 'mul':
                s, f = mul(sa, sb), lambda: b * a if self.swap else a * b
            elif op == 'muli':
                s, f = mul(sa, lit(k)), lambda: a * k
            elif op == 'imul':
                s, f = mul(lit(k), sa), lambda: k * a
            elif op == 'addi':
                s, f = add(sa, lit(k)), lambda: a + k
            elif op == 'iadd':
                s, f = add(lit(k), sa), lambda: k + a
            elif op == 'subi':
                s, f = sub(sa, lit(k)), lambda: a - k
            elif op == 'isub':
                s, f = sub(lit(k), sa), lambda: k - a
            elif op == 'div':
                d = r.choice((2, 3, 4, 5, 6, 7, 8, 9, 12, base, max(2, base - 1), base ** 2))
                m = sa.mod(d)
                s, f = div(sub(sa, lit(m)), d), lambda: (a - m) // d
            elif op == 'divdiv':
                d, e = r.choice((2, 3, 4, 6, 5, 9, 12, 15)), r.choice((2, 3, 4, 6, 8, 9, 10, 12, 15))
                m, n = sa.mod(d), sb.mod(e)
                s = add(div(sub(sa, lit(m)), d), div(sub(sb, lit(n)), e))
                f = lambda: (a - m) // d + (b - n) // e
            elif op == 'kin':
                s, f = self.kin(a, sa, b, sb)
            elif op == 'mulexp':
                e = self.exponent()
                s, f = mul(sa, power(base, lit(e))), lambda: a * num.make_exp(base, e)
            elif op == 'epow':
                if not isinstance(a, num.Exp):
                    return
                k = r.choice((2, 3, 4))
                s = sa
                for _ in range(k - 1):
                    s = mul(s, sa)
                f = lambda: a ** k
            else:
                # an exponent well above every plain one
                if not self.lofty or sa.sign != 1 or not clearly_less(mag_int(500), sa.mag):
                    return
                if self.domain == 'small' and (sa.exact is None or sa.exact > 12_000):
                    return
                if sa.mag[0] > 4:
                    return
                s, f = power(base, sa), lambda: base ** a
            if s.exact is not None and s.exact.bit_length() > CAP or s.size > 300:
                return
        except TooBig:
            return
        try:
            v = f()
        except Exception as e:
            self.refused(op, e, s.text)
            return
        self.put(op, v, s)

    def kin(self, a, sa, b, sb):
        """Two numbers made of the same ones, put together."""
        r, swap = self.rng, self.swap
        ks = [r.choice(KS[:-1]) for _ in range(2)]

        def one():
            how = r.randrange(10)
            k = r.choice(ks)
            (v, s), (w, t) = r.choice((((a, sa), (b, sb)), ((b, sb), (a, sa))))
            if how < 2:
                return add(s, t), lambda: w + v if swap else v + w
            if how < 4:
                return add(lit(k), s), lambda: k + v
            if how == 4:
                return mul(lit(k), s), lambda: k * v
            if how == 5:
                return mul(s, t), lambda: w * v if swap else v * w
            if how == 6:
                return add(lit(k), add(s, t)), lambda: k + (w + v if swap else v + w)
            if how == 7:
                return add(mul(lit(k), s), t), lambda: t0(k * v, w)
            if how == 8:
                return mul(s, add(lit(k), t)), lambda: v * (k + w)
            return s, lambda: v

        def t0(v, w):
            return w + v if swap else v + w

        (s, f), (t, g) = one(), one()
        if r.random() < .5:
            return sub(s, t), lambda: f() - g()
        return add(s, t), lambda: t0(f(), g())

    def run(self):
        self.start()
        for _ in range(self.size):
            if self.pool:
                self.step()
