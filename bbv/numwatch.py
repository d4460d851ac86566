"""Hooks on the symbolic numbers' operators, and the value of a number read off its parts.

Only the outermost operation of each expression is observed: what the code under test was asked for,
not how it works it out."""
import functools

from . import symnum as S

BINARY = {'__add__': 'add', '__radd__': 'radd', '__sub__': 'sub', '__rsub__': 'rsub', '__mul__': 'mul',
          '__rmul__': 'rmul', '__floordiv__': 'div', '__mod__': 'mod', '__divmod__': 'divmod',
          '__pow__': 'epow', '__rpow__': 'rpow', '__lt__': 'lt', '__le__': 'le', '__gt__': 'gt',
          '__ge__': 'ge'}


class Opaque(Exception):
    pass


class Reader:
    """The value of a number as written: its parts, and what they are."""

    def __init__(self, num):
        self.num = num
        self.seen = {}

    def __call__(self, v, depth=0):
        if isinstance(v, bool) or not isinstance(v, int) and not isinstance(v, self.num.Num):
            raise Opaque
        if isinstance(v, int):
            return S.lit(v)
        got = self.seen.get(id(v))
        if got is not None:
            return got[1]
        if depth > 150:
            raise Opaque
        kind, d = type(v).__name__, depth + 1
        try:
            if kind == 'Add':
                s = S.add(self(v.l, d), self(v.r, d))
            elif kind == 'Mul':
                s = S.mul(self(v.l, d), self(v.r, d))
            elif kind == 'Div':
                s = S.div(self(v.num, d), v.den)
            elif kind == 'Exp':
                e = self(v.exp, d)
                if e.sign != 1 or e.exact is not None and e.exact <= 0:
                    raise Opaque
                s = S.power(v.base, e)
            else:
                raise Opaque
        except (AttributeError, S.TooBig, AssertionError) as e:
            raise Opaque from e
        self.seen[id(v)] = v, s         # the number is kept, so its id stays its own
        return s


class Watch:
    """Calls see(op, args, result, error) for each outermost operation while installed."""

    def __init__(self, num, see):
        self.num, self.see, self.depth, self.undo = num, see, 0, []

    def wrap(self, op, f):
        @functools.wraps(f)
        def inner(*args):
            if self.depth:
                return f(*args)
            self.depth += 1
            try:
                try:
                    r = f(*args)
                except Exception as e:
                    self.see(op, args, None, e)
                    raise
                if r is not NotImplemented:
                    self.see(op, args, r, None)
                return r
            finally:
                self.depth -= 1
        return inner

    def __enter__(self):
        num = self.num
        for cls in [num.Num] + [c for c in vars(num).values()
                                if isinstance(c, type) and issubclass(c, num.Num) and c is not num.Num]:
            for name, op in list(BINARY.items()) + [('__neg__', 'neg')]:
                f = cls.__dict__.get(name)
                if f is not None and not getattr(f, '__isabstractmethod__', False):
                    self.undo.append((cls, name, f))
                    setattr(cls, name, self.wrap(op, f))
        return self

    def __exit__(self, *a):
        for cls, name, f in self.undo:
            setattr(cls, name, f)
        self.undo.clear()


def meaning(op, args):
    """The shadow of what the operation should give."""
    a = args[0]
    b = args[1] if len(args) > 1 else None
    if op == 'neg':
        return S.neg(a)
    if op in ('add', 'radd'):
        return S.add(a, b)
    if op == 'sub':
        return S.sub(a, b)
    if op == 'rsub':
        return S.sub(b, a)
    if op in ('mul', 'rmul'):
        return S.mul(a, b)
    if op == 'rpow':
        return S.power(b.exact, a)
    raise Opaque


PRIMES = (97, 101, 499, 1009, 32, 81, 25)


def same(v, s, moduli=PRIMES):
    """(number of residues compared, modulus at which they differ or None)."""
    if v.exact is not None and s.exact is not None:
        return 1, None if v.exact == s.exact else 0
    n = 0
    for m in moduli:
        try:
            x, y = v.mod(m), s.mod(m)
        except (S.TooBig, RecursionError):
            continue
        n += 1
        if x != y:
            return n, m
    return n, None
