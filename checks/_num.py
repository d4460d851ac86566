"""Workloads shared by the checks of symbolic numbers, and the monitors of one result each."""
import json
import operator
import pathlib
import random

from bbv import numwatch as W, pyload, symnum as S

MODULI = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 18, 20, 24, 25, 27, 30, 32, 36, 48, 54, 64, 81,
          97, 101, 128, 162, 486, 499, 1000, 1009, 1458)

ALGEBRA = pathlib.Path(__file__).parent.parent / 'bbv' / 'data' / 'algebra.json'
MODKEYS = ALGEBRA.parent / 'modkeys.json'

ORDER = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}


def library():
    pyload.reference_only()
    from tm import num
    return num


def algebra(rng, n):
    progs = json.loads(ALGEBRA.read_text())
    return progs if n is None else rng.sample(progs, n)


def expect(col, e, where, text):
    """An error is a refusal, or a violation."""
    if S.refusal(e):
        col.count('refusals')
        return
    col.violation('error', f'{where}: {text}'[:300], f'{type(e).__name__}: {e}'[:300])


# ------------------------------------------------------------------ the four monitors

def judge_value(col, read, v, s, text, op):
    """v is what the library gave for s.  True if it may be used further."""
    col.ev()
    if s.exact is not None:
        try:
            got = int(v)
        except Exception as e:
            expect(col, e, 'int', text)
            return False
        col.count('values compared')
        if got != s.exact:
            col.violation('value', f'{op}: {text}', f'gives {str(v)[:200]}, which is not it')
            return False
        return True
    try:
        n, m = W.same(read(v), s)
    except W.Opaque:
        n, m = 0, None
        for k in (97, 499, 25):
            try:
                a, b = v % k, s.mod(k)
            except Exception:
                continue
            n, m = n + 1, k if a != b else m
    if n:
        col.count('values too large to write, compared by residues')
    if m is not None:
        col.violation('value', f'{op}: {text}', f'gives {str(v)[:200]}, which differs modulo {m}')
        return False
    return True


def judge_rest(col, v, s, text, moduli):
    """True if all remainders that were given are right."""
    for m in moduli:
        try:
            want = s.mod(m)
        except (S.TooBig, RecursionError):
            continue
        col.ev()
        try:
            got = v % m
        except Exception as e:
            expect(col, e, f'% {m}', text)
            continue
        col.count('remainders of towers' if s.exact is None else 'remainders compared')
        if got != want or not isinstance(got, int):
            col.violation('remainder', f'{text} % {m}', f'gives {got}, not {want}')
            return False
    return True


def order(sa, sb):
    """True order of two positive numbers: -1, 1 or None (equal, or cannot tell here)."""
    if sa.sign != 1 or sb.sign != 1:
        return None
    if sa.exact is not None and sa.exact == sb.exact:
        return None
    w = S.less(sa, sb)
    return None if w is None else -1 if w else 1


class Mechanism:
    """Which of the two recorded mechanisms a wrong comparison goes through, from watching it again."""

    def __init__(self, num):
        self.num, self.near, self.sign, self.read = num, False, False, W.Reader(num)

    def __call__(self, f, a, b):
        num = self.num
        exp, mul = num.Exp.__lt__, num.Mul.__lt__

        def exp_lt(x, o):
            r = exp(x, o)
            if isinstance(o, num.Add) and isinstance(o.l, int) and o.l > 0 and o.r is x and r is False:
                self.near = True
            return r

        def mul_lt(x, o):
            r = mul(x, o)
            if isinstance(x.l, num.Num) or not isinstance(o, int):
                try:
                    if self.read(x.r).sign != 1 and r is (x.l < 0):
                        self.sign = True
                except (W.Opaque, S.TooBig, RecursionError):
                    pass
            return r

        num.Exp.__lt__, num.Mul.__lt__ = exp_lt, mul_lt
        try:
            f(a, b)
        except Exception:
            pass
        finally:
            num.Exp.__lt__, num.Mul.__lt__ = exp, mul
        return self


def misorder(col, num, f, a, b, what, message):
    """A wrong comparison: one of the two recorded mechanisms, or a violation."""
    m = Mechanism(num)(f, a, b)
    if m.near:
        col.violation('near', 'a power against itself plus less', f'{what} {message}')
    elif m.sign:
        col.violation('sign', 'a product with a negative symbolic factor', f'{what} {message}')
    else:
        col.violation('order', what[:400], message)


def judge_order(col, num, a, sa, b, sb, text, ops=ORDER):
    w = order(sa, sb)
    if w is None:
        col.count('pairs not judged')
        return
    for name, f in ops.items():
        col.ev()
        try:
            got = f(a, b)
        except Exception as e:
            expect(col, e, name, text)
            continue
        col.count('comparisons of towers' if None in (sa.exact, sb.exact) else 'comparisons')
        if got is not (w < 0 if name in ('lt', 'le') else w > 0):
            misorder(col, num, f, a, b, f'{name}: {text}', f'is {got}')
            return
    if a == b:
        col.violation('order', f'eq: {text}'[:400], 'is True')


# --------------------------------------------------------------------- real runs

def hooked(col, item, what):
    """A recorded program whose counts become symbolic is run by the real prover; every outermost
    operation on symbolic numbers is judged against the operands as written."""
    prog, backsym = item[:2]
    num = library()
    from tm.machine import Machine
    cap, S.CAP = S.CAP, 3000
    read = W.Reader(num)
    kept = []

    def see(op, args, r, e):
        try:
            if op in ORDER:
                if what != 'order' or e is not None:
                    return
                a, b = args
                sa, sb = read(a), read(b)
                w = order(sa, sb)
                if w is None:
                    return
                col.ev()
                col.count('comparisons in real runs')
                if r is not (w < 0 if op in ('lt', 'le') else w > 0):
                    misorder(col, num, ORDER[op], a, b, f'{op}: {str(a)[:150]} , {str(b)[:150]}', f'is {r}')
                return
            if e is not None:
                if not S.refusal(e):
                    col.violation('error', f'{op} in {prog}', f'{type(e).__name__}: {e}'[:300])
                return
            if op in ('mod', 'divmod'):
                k = args[1]
                if not isinstance(k, int):
                    return
                if what == 'rest':
                    a = read(args[0])
                    col.ev()
                    col.count('remainders in real runs')
                    want, got = a.mod(k), r if op == 'mod' else r[1]
                    if got != want:
                        col.violation('remainder', f'{str(args[0])[:200]} % {k}', f'gives {got}, not {want}')
                    return
                if op == 'mod' or what != 'value':
                    return
                a = read(args[0])
                s, r = S.div(S.sub(a, S.lit(a.mod(k))), k), r[0]
            elif what == 'stable':
                if isinstance(r, num.Num) and len(kept) < 400:
                    kept.append((r, str(r)))
                return
            elif what != 'value':
                return
            elif op == 'div':
                k = args[1]
                a = read(args[0])
                if not isinstance(k, int) or a.mod(k):
                    return
                s = S.div(a, k)
            else:
                s = W.meaning(op, [read(a) for a in args])
            n, m = W.same(read(r), s)
            if n:
                col.ev()
                col.count('operations in real runs')
            if m is not None:
                col.violation('value', f'{op}: ' + ' , '.join(str(a)[:150] for a in args),
                              f'gives {str(r)[:200]}, which differs' + (f' modulo {m}' if m else ''))
        except (W.Opaque, S.TooBig, RecursionError):
            col.count('operations not judged')

    try:
        with W.Watch(num, see):
            m = Machine(prog, opt_macro=3000, backsym=backsym)
            m.run()
    except Exception as e:
        if not S.refusal(e):
            col.violation('error', prog, f'{type(e).__name__}: {e}'[:300])
        return
    finally:
        S.CAP = cap
    col.count('real runs watched')
    col.nontriv(prog)
    for v, t in kept:
        col.ev()
        col.count('numbers looked at again after a run')
        if str(v) != t:
            col.violation('changed', t, f'is now {v}')


def session(seed, domain, see, refused, **kw):
    num = library()
    s = S.Session(num, random.Random(seed), domain, see, refused, **kw)
    s.run()
    return s
