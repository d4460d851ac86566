"""C21: an inferred rule reproduces what it was inferred from, any number of times."""
import random

from bbv import gen, numwatch as W, probe, pyload, symnum as S
from checks import _num as N

PROPERTY, LEVEL = 'C21', 'exploration'
TECHNIQUE = 'output monitor on rule inference and application, against repeated single steps and exact arithmetic'
NOTE = 'Results too large to write are compared by their residues.'
RULE = ('Block counts that follow a hidden law (a step, a factor and a summand, a factor that only nearly fits, a '
        'symbolic operation, nothing at all) are given to the inference; what it returns must give '
        'each observation from the one before. Rules of all kinds are applied to tapes of plain and '
        'symbolic counts and compared with the same step taken that many times. The same functions are watched '
        'inside the real prover. Non-trivial: distinct inferences and applications judged.')
ASSUMPTIONS = ['RuleLimit and the exceptions of the symbolic numbers count as refusals.']


def rules_module():
    N.library()
    from tm import rules
    return rules


# ------------------------------------------------------------------ inference

def follows(diff, a, b):
    """Does the operation give b from a?  (exact integers)"""
    if diff is None:
        return a == b
    if isinstance(diff, int):
        return b == a + diff
    if isinstance(diff, tuple) and len(diff) == 2 and isinstance(diff[0], int):
        return b == a * diff[0] + diff[1]
    return None


def series(r):
    """Four counts and what they follow."""
    kind = r.randrange(9)
    a = r.choice((r.randrange(1, 12), r.randrange(1, 300), r.randrange(1, 10 ** r.randrange(1, 25))))
    if kind == 0:
        return (a,) * 4
    if kind in (1, 2):
        d = r.choice((r.randrange(1, 9), r.randrange(1, 10 ** r.randrange(1, 22))))
        if kind == 2 and a > 3 * d:
            d = -d
        return a, a + d, a + 2 * d, a + 3 * d
    if kind in (3, 4):
        m, c = r.randrange(2, 9), r.randrange(-9, 40)
        if kind == 4:
            c = r.randrange(-a, 3 * a + 1)
        out = [a]
        for _ in range(3):
            out.append(out[-1] * m + c)
        return tuple(out)
    if kind == 5:           # nearly a law: one of the observations is off
        out = list(series(r))
        i = r.randrange(4)
        out[i] = max(1, out[i] + r.choice((-2, -1, 1, 2)))
        return tuple(out)
    if kind == 6:           # fractions
        p, q = r.choice(((3, 2), (5, 3), (5, 2), (5, 4), (4, 3), (7, 3)))
        out, c = [a], r.randrange(1, 9)
        for _ in range(3):
            out.append(out[-1] * p // q + c)
        return tuple(out)
    if kind == 7:           # a step, then another one
        d = r.randrange(1, 9)
        return a, a + d, a + 2 * d, a + 2 * d + r.choice((d + 1, 0, 2 * d))
    return tuple(sorted(r.randrange(1, 40) for _ in range(4)))


def sides(r):
    rows = [[tuple(max(1, x) for x in series(r)) for _ in range(r.choice((0, 1, 1, 2, 3)))]
            for _ in range(2)]
    k = r.random()
    if k < .4:              # one law, and something that falls
        d, f = r.randrange(1, 4), r.randrange(20, 90)
        rows = [[tuple(max(1, x) for x in series(r))], [tuple(f - d * i for i in range(4))]]
        if r.random() < .5:
            rows.reverse()
    elif k < .7:            # all steps: likely a rule
        def step(r):
            a, d = r.randrange(1, 400), r.randrange(1, 7)
            d = r.choice((d, -d, 0))
            if d < 0:
                a += -4 * d
            return tuple(a + d * i for i in range(4))
        rows = [[step(r) for _ in range(r.randrange(3))] for _ in range(2)]
    return rows, [([x[i] for x in rows[0]], [x[i] for x in rows[1]]) for i in range(4)]


def infer(col, seed):
    R = rules_module()
    r = random.Random(seed)
    rows, obs = sides(r)
    col.ev()
    text = str(rows)
    plain = [x[0] != x[1] and all(x[i + 1] - x[i] == x[1] - x[0] for i in range(3))
             for side in rows for x in side]
    still = [x[0] == x[1] == x[2] == x[3] for side in rows for x in side]
    judged = [a or b for a, b in zip(plain, still)]
    falls = any(x[1] < x[0] for side in rows for x in side)
    try:
        rule = R.make_rule(*obs)
    except R.InfiniteRule:
        col.count('infinite rules')
        col.nontriv(text)
        if any(x[i + 1] < x[i] for side in rows for x in side for i in range(3)):
            col.violation('infinite', text, 'called infinite although a count falls')
        return
    except (R.SuspectedRule, R.RuleLimit) as e:
        col.count(f'refusals: {type(e).__name__}')
        return
    except Exception as e:
        col.violation('error', text, f'{type(e).__name__}: {e}'[:200])
        return
    col.nontriv(text)
    if rule is None:
        col.count('no rule')
        if all(judged):
            col.violation('missed', text, 'every count is stepping, and no rule is inferred')
        return
    if all(judged) and not falls:
        col.violation('not-infinite', text, f'nothing falls, and the rule is {rule}')
    for s, side in enumerate(rows):
        for i, x in enumerate(side):
            d = rule.get((s, i))
            if not all(follows(d, x[j], x[j + 1]) for j in range(3)):
                col.violation('inference', str(x), f'is taken to follow {d}')
                return
            col.count('steps inferred' if isinstance(d, int) else 'factors inferred' if d else 'constants')
    if set(rule) - {(s, i) for s, side in enumerate(rows) for i in range(len(side))}:
        col.violation('inference', text, f'{rule} names blocks that are not there')


def native_infer(col, seeds):
    if not probe.lib('rules'):
        return
    items, ops = [], []
    for seed in seeds:
        rows, obs = sides(random.Random(seed))
        if any(x >= 1 << 64 for side in rows for y in side for x in y):
            continue
        items.append(rows)
        ops.append(0)
        for left, right in obs:
            for side in (left, right):
                ops += [len(side), *side]
    lines = probe.rules(ops)
    if lines is None:
        col.violation('native-crash', str(seeds[:3]), 'the native inference panics')
        return
    for rows, line in zip(items, lines):
        col.ev()
        flat = {(s, i): x for s, side in enumerate(rows) for i, x in enumerate(side)}
        steps = all(max(abs(x[1] - x[0]), 0) < 1 << 31
                    and all(x[i + 1] - x[i] == x[1] - x[0] for i in range(3)) for x in flat.values())
        if line == 'none':
            if steps:
                col.violation('native-missed', str(rows), 'every count is stepping, and no rule is inferred')
            continue
        col.nontriv(('native', str(rows)))
        col.count('native inferences')
        rule = {}
        for part in line.split(';')[:-1]:
            s, i, k, *v = part.split()
            rule[int(s), int(i)] = int(v[0]) if k == 'p' else (int(v[0]), int(v[1]))
        for at, x in flat.items():
            d = rule.get(at)
            if not all(follows(d, x[j], x[j + 1]) for j in range(3)):
                col.violation('native-inference', str(x), f'is taken to follow {d}')
                return
        if set(rule) - set(flat):
            col.violation('native-inference', str(rows), f'{rule} names blocks that are not there')


# ------------------------------------------------------------------ operations on symbolic counts

def chains(col, seed):
    """Counts made by repeating one symbolic operation; what is inferred must repeat it."""
    R = rules_module()
    num = N.library()
    r = random.Random(seed)
    base = r.choice((2, 3, 5, 6, 7))
    read = W.Reader(num)
    x = num.make_exp(base, r.randrange(60, 200))
    if r.random() < .5:
        x = base ** (r.randrange(-9, 9) + r.randrange(1, 5) * x)
    ops = []
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(4)
        ops.append([('+', r.choice((-1, 1)) * r.randrange(1, 20)), ('*', r.randrange(2, 9)), ('**', base),
                    ('+', r.randrange(1, 9))][k])
    hidden = [r.randrange(-5, 30) + r.randrange(1, 7) * x]
    odd = r.randrange(4) if r.random() < .3 else None
    face = r.randrange(3)
    c, k, den = r.randrange(-20, 20), r.randrange(1, 5), r.choice((2, 3, 5, 7))
    try:
        for j in range(4):
            v = hidden[-1]
            for op, n in ops:
                v = v + n if op == '+' else v * n if op == '*' else n ** v
            hidden.append(v + 1 if odd == j else v)
        if face == 0:
            cs = hidden
        elif face == 1:
            cs = [c + k * v for v in hidden]
        else:
            cs = [k * v + c for v in hidden]
            rem = cs[0] % den
            if any(v % den != rem for v in cs):
                col.count('symbolic: not divisible')
                return
            cs = [(v - rem) // den for v in cs]
    except Exception as e:
        N.expect(col, e, 'building', str(ops))
        return
    col.ev()
    text = f'{cs[0]} by {ops}, {face}, {odd}'[:300]
    try:
        d = R.calculate_diff(*cs[:4])
    except (R.UnknownRule, R.RuleLimit, R.SuspectedRule, AssertionError) as e:
        col.count(f'symbolic: {type(e).__name__}')
        return
    except Exception as e:
        N.expect(col, e, 'calculate_diff', text)
        return
    col.nontriv(text)
    if d is None or isinstance(d, int):
        col.count('symbolic steps inferred')
        d = d or 0
        for i in range(3):
            try:
                n, m = W.same(S.add(read(cs[i]), S.lit(d)), read(cs[i + 1]))
            except (W.Opaque, S.TooBig):
                continue
            if m is not None:
                col.violation('symbolic-inference', text, f'{cs[i + 1]} is taken to be {cs[i]} and {d}')
                return
        return
    col.count('symbolic operations inferred')
    for i in range(3):
        try:
            v = R.apply_ops(cs[i], 1, d)
            n, m = W.same(read(v), read(cs[i + 1]))
        except (W.Opaque, S.TooBig):
            col.count('too large to compare')
            continue
        except Exception as e:
            if type(e).__name__ != 'RuleLimit':
                N.expect(col, e, 'apply_ops', text)
            continue
        if m is not None:
            col.violation('symbolic-inference', text, f'{d} gives {str(v)[:200]} and not {str(cs[i + 1])[:200]}')
            return
    # several applications are one after another
    if isinstance(d, tuple):
        try:
            a = R.apply_ops(cs[0], 3, d)
        except Exception:
            return
        try:
            n, m = W.same(read(a), read(cs[3]))
        except (W.Opaque, S.TooBig):
            return
        col.count('operations repeated')
        if m is not None:
            col.violation('symbolic-inference', text, f'{d} three times gives {str(a)[:200]}')


# ------------------------------------------------------------------ application

class IndexTape:
    def __init__(self, d):
        self.d = d
        self.log = []

    def get_count(self, at):
        return self.d[at]

    def set_count(self, at, v):
        self.log.append(at)
        self.d[at] = v


def judge_apply(col, num, read, rule, before, times, after, text, prefix=''):
    """before: {index: (count, shadow)}; after: {index: count}; times: None or what was returned."""
    falling = [(at, d) for at, d in rule.items() if isinstance(d, int) and d < 0]
    limits = []
    for at, d in falling:
        s = before[at][1]
        if s.exact is None:
            limits = None
            break
        limits.append((s.exact - 1) // -d)
    if not falling:
        if times is not None:
            col.violation(prefix + 'no-fall', text, f'nothing falls, yet it was applied {times} times')
        return
    if limits is None:
        col.count('number of applications not judged')
        if times is None:
            return
        ts = read(times)
    else:
        want = min(limits)
        col.count('numbers of applications judged')
        if times is None:
            if want > 0 and all(isinstance(v, int) for v, _ in before.values()):
                col.violation(prefix + 'times', text, f'not applied, but fits {want} times')
            elif any(after[at] is not v for at, (v, _) in before.items()):
                col.violation(prefix + 'untouched', text, 'not applied, but the tape has changed')
            return
        ts = S.lit(want)
        n, m = W.same(read(times), ts)
        if m is not None or not want:
            col.violation(prefix + 'times', text, f'applied {times} times, fits {want} times')
            return
    for at, d in rule.items():
        s = before[at][1]
        try:
            if isinstance(d, int):
                w = S.add(s, S.mul(S.lit(d), ts))
            elif len(d) == 2 and isinstance(d[0], int):
                p = S.power(d[0], ts)
                w = S.mul(s, p)
                if d[1]:
                    w = S.add(w, S.mul(S.lit(d[1]), S.div(S.sub(p, S.lit(1)), d[0] - 1)))
            else:
                continue
            n, m = W.same(read(after[at]), w)
        except (S.TooBig, W.Opaque, RecursionError):
            col.count('results not judged')
            continue
        col.count('results judged')
        if not n:
            col.count('results not judged')
        if m is not None:
            col.violation(prefix + 'result', f'{text}: {at}', f'becomes {str(after[at])[:200]}'
                          + (f', wrong modulo {m}' if m else ''))
            return
    for at, (v, s) in before.items():
        if at not in rule and after[at] is not v:
            col.violation(prefix + 'others', f'{text}: {at}', 'is not in the rule, but has changed')


def some_rule(r, symbolic, num):
    base = r.choice((2, 3, 6))
    rule, tape = {}, {}
    for side in range(2):
        for i in range(r.choice((1, 2, 2, 3, 4))):
            at = side, i
            if symbolic and r.random() < .6:
                e = r.randrange(60, 300)
                k, c = r.randrange(1, 9), r.randrange(-40, 40)
                v = c + k * num.make_exp(base, e)
                s = S.add(S.lit(c), S.mul(S.lit(k), S.power(base, S.lit(e))))
            else:
                v = r.choice((r.randrange(1, 9), r.randrange(1, 200), r.randrange(1, 10 ** r.randrange(1, 18))))
                s = S.lit(v)
            tape[at] = v, s
            k = r.random()
            if k < .55:
                d = r.randrange(1, 9)
                rule[at] = r.choice((d, -d, -d, -1))
            elif k < .7:
                rule[at] = r.randrange(2, 9), r.randrange(-9, 20)
    items = list(rule.items())
    r.shuffle(items)
    return dict(items), tape


def apply(col, seed):
    R = rules_module()
    num = N.library()
    r = random.Random(seed)
    symbolic = r.random() < .5
    rule, before = some_rule(r, symbolic, num)
    tape = IndexTape({at: v for at, (v, s) in before.items()})
    text = f'{rule} on ' + ', '.join(f'{at}: {v}' for at, (v, s) in before.items())
    # exponents of results must stay within reason when the number of applications is a plain integer
    if any(isinstance(d, tuple) for d in rule.values()):
        low = [s.exact // -rule[at] for at, (v, s) in before.items()
               if isinstance(rule.get(at), int) and rule[at] < 0]
        if not low or min(low) > 10 ** 7 and not symbolic:
            return
    col.ev()
    try:
        times = R.apply_rule(dict(rule), tape)
    except R.RuleLimit:
        col.count('refusals: RuleLimit')
        return
    except Exception as e:
        N.expect(col, e, 'apply_rule', text)
        return
    if times is not None:
        col.count('applications of symbolic counts' if symbolic else 'applications')
        if isinstance(times, int) and times < 60 and not symbolic:
            # literally: the single step, that many times
            cur = {at: v for at, (v, s) in before.items()}
            for _ in range(times):
                for at, d in rule.items():
                    cur[at] = cur[at] + d if isinstance(d, int) else cur[at] * d[0] + d[1]
            if any(int(tape.d[at]) != cur[at] for at in cur):
                col.violation('result', text, f'{times} single steps give {cur}')
                return
            col.count('applications repeated step by step')
            if all(cur[at] + d > 0 for at, d in rule.items() if isinstance(d, int)):
                col.violation('times', text, f'fits more than {times} times')
            if any(cur[at] <= 0 for at, d in rule.items() if isinstance(d, int)):
                col.violation('times', text, f'does not fit {times} times')
    col.nontriv(text)
    judge_apply(col, num, W.Reader(num), rule, before, times, tape.d, text)


def native_apply(col, seeds):
    if not probe.lib('rules'):
        return
    items, ops = [], []
    for seed in seeds:
        r = random.Random(seed)
        rule, before = {}, {}
        for side in range(2):
            for i in range(r.choice((0, 1, 2, 3))):
                d = r.choice((r.randrange(1, 9), r.randrange(1, 1 << r.randrange(1, 31))))
                rule[side, i] = r.choice((d, -d, 0, -1))
                before[side, i] = r.choice((r.randrange(1, 30), r.randrange(1, 1 << r.randrange(1, r.choice((40, 63))))))
        o = [1, len(rule)]
        for at, d in rule.items():
            o += [at[0], at[1], d % (1 << 64), before[at]]
        items.append((rule, before))
        ops.append(o)
    lines = probe.rules(sum(ops, []))
    if lines is None:           # one of them overflows: each by itself
        lines = [(probe.rules(o) or ['panic'])[0] for o in ops]
    for (rule, before), line in zip(items, lines):
        col.ev()
        text = f'{rule} on {before}'
        fits = [(before[at] - 1) // -d for at, d in rule.items() if d < 0]
        want = min(fits) if fits else None
        after = {at: v + d * (want or 0) for (at, d), v in zip(rule.items(), before.values())}
        if line == 'panic':
            col.count('native overflows')
            if not want or all(v < 1 << 64 for v in after.values()):
                col.violation('native-crash', text, 'panics')
            continue
        col.nontriv(('native', text))
        k, *vs = line.split(';')
        got = {(int(a), int(b)): int(c) for a, b, c in (v.split() for v in vs)}
        col.count('native applications')
        if k == 'none':
            over = want and any(abs(d) * want >= 1 << 64 for d in rule.values())
            if want and not over:
                col.violation('native-times', text, f'not applied, fits {want} times')
            elif got != before:
                col.violation('native-untouched', text, 'not applied, but the tape has changed')
        elif not want or int(k) != want:
            col.violation('native-times', text, f'applied {k} times, fits {want} times')
        elif got != after:
            col.violation('native-result', text, f'{want} steps give {after}, not {got}')


# ------------------------------------------------------------------ in the real prover

def real(col, item):
    prog, kw, lim = item
    num = N.library()
    pyload.load()
    from tm import machine, prover, rules
    read = W.Reader(num)
    make, app = rules.make_rule, rules.apply_rule
    cap, S.CAP = S.CAP, 4000

    def shadow(v):
        try:
            return read(v)
        except (W.Opaque, S.TooBig, RecursionError):
            return None

    def watched_make(*obs):
        rule = make(*obs)
        if rule is not None:
            col.ev()
            col.count('inferences in real runs')
            for s in range(2):
                for i, x in enumerate(zip(*(o[s] for o in obs))):
                    d = rule.get((s, i))
                    if all(isinstance(v, int) for v in x):
                        if not all(follows(d, x[j], x[j + 1]) for j in range(3)):
                            col.violation('inference', f'{prog} {kw}: {x}', f'is taken to follow {d}')
                    elif d is None or isinstance(d, int):
                        for j in range(3):
                            a, b = shadow(x[j]), shadow(x[j + 1])
                            if a and b and W.same(S.add(a, S.lit(d or 0)), b)[1] is not None:
                                col.violation('inference', f'{prog} {kw}: {x}'[:300], f'is taken to follow {d}')
        return rule

    def watched_apply(rule, tape):
        t = tape.tape if hasattr(tape, 'tape') else tape
        before = {}
        for s, span in enumerate((t.lspan, t.rspan)):
            for i, b in enumerate(span):
                before[s, i] = b.count, shadow(b.count)
        times = app(rule, tape)
        col.ev()
        col.count('applications in real runs')
        if any(before[at][1] is None for at in rule):
            return times
        after = {(s, i): b.count for s, span in enumerate((t.lspan, t.rspan)) for i, b in enumerate(span)}
        try:
            judge_apply(col, num, read, rule, before, times, after, f'{prog} {kw}: {rule}'[:300])
        except (W.Opaque, S.TooBig, RecursionError):
            col.count('real applications not judged')
        return times

    spots = [(m, n, f) for m in (machine, prover) for n, f in (('make_rule', make), ('apply_rule', app))
             if getattr(m, n, None) is f]
    try:
        for m, n, f in spots:
            setattr(m, n, watched_make if f is make else watched_apply)
        machine.Machine(prog, **kw).run(lim)
    except Exception as e:
        col.count(f'runs ending in {type(e).__name__}')
    finally:
        S.CAP = cap
        for m, n, f in spots:
            setattr(m, n, f)
    col.count('real runs watched')
    col.nontriv((prog, tuple(kw.items())))


def run(ctx):
    probe_there = probe.lib('rules') is not None
    pyload.load()
    rng = ctx.rng('rules')
    ctx.map('infer', [rng.random() for _ in range(ctx.scale(60_000, 3_000_000))])
    ctx.map('chains', [rng.random() for _ in range(ctx.scale(6_000, 300_000))])
    ctx.map('apply', [rng.random() for _ in range(ctx.scale(40_000, 2_000_000))], mem=3 << 30)
    if probe_there:
        n = ctx.scale(150, 6000)
        ctx.map('native_infer', [[rng.random() for _ in range(300)] for _ in range(n)])
        ctx.map('native_apply', [[rng.random() for _ in range(300)] for _ in range(n)])
        ctx.need('native inferences', 5000)
        ctx.need('native applications', 5000)
    else:
        ctx.notes.append('The native functions could not be driven: ' + probe.MISSING['rules'][-500:])
    progs = gen.corpus_progs('PROVER_HALT', 'INFRUL', 'HALT', 'PROVER_SPINOUT', 'RECUR_COMPACT')
    progs = rng.sample(progs, min(len(progs), ctx.scale(400, 100_000)))
    items = [(p, kw, 1500) for p in progs for kw in ({}, rng.choice(({'blocks': 2}, {'backsym': 1},
                                                                    {'blocks': 3}, {'opt_macro': 200})))]
    items += [(p[0], {'opt_macro': 3000}, 3000) for p in N.algebra(rng, 20 if ctx.quick else None)]
    ctx.map('real', items, mem=3 << 30)
    for c, n in (('steps inferred', 20_000), ('factors inferred', 1000), ('infinite rules', 500),
                 ('symbolic operations inferred', 100), ('symbolic steps inferred', 100), ('applications', 3000),
                 ('applications of symbolic counts', 3000), ('applications repeated step by step', 1000),
                 ('inferences in real runs', 200), ('applications in real runs', 2000)):
        ctx.need(c, n)
