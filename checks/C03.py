"""C03: every jump of the accelerated machine lands on a configuration the machine really reaches."""
import contextlib
import io
import json
import re

from bbv import gen, paths, pyload, sim

PROPERTY, LEVEL = 'C03', 'exploration'
TECHNIQUE = 'trace monitor: printed configurations checked for reachability by a cell-by-cell machine'
NOTE = 'Jumps whose end points are too wide, symbolic or too far apart to follow are counted, not judged. Known findings are listed by program.'
RULE = ('Each program is run with tape watching on; the printed configurations are the event log. '
        'For consecutive configurations the naive machine, started in the first, must reach the '
        'second. Non-trivial: a jump of more than one step (a rule application).')

LINE = re.compile(r'^\s*(\d+) \| +(-?\d+|\.\.\.) \| ([A-Z])(\d+) \| (.*)$')
CAP = 4_000_000
WIDE = 60_000
NARROW, SURE = 150, 100_000_000


def read_tape(text):
    """'1^4 [2] 2^3' -> (left blocks far to near, scan, right blocks) or None if not explicit."""
    left, right, scan, side = [], [], None, 0
    for tok in text.split(' '):
        if tok.startswith('['):
            scan = int(tok[1:-1])
            side = 1
            continue
        m = re.fullmatch(r'(\d+)(?:\^(\d+))?', tok)
        if not m:
            return None
        (right if side else left).append((int(m[1]), int(m[2] or 1)))
    if scan is None:
        return None
    return left, scan, right


def cells(t, cap=WIDE):
    left, scan, right = t
    if sum(n for _, n in left) + sum(n for _, n in right) > cap:
        return None
    lb = b''.join(bytes([c]) * n for c, n in left)
    return lb + bytes([scan]) + b''.join(bytes([c]) * n for c, n in right), len(lb)


def trace(prog, lim, **kw):
    from tm.machine import Machine
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m = Machine(prog, **kw).run(lim, watch_tape=True)
    log = []
    for line in out.getvalue().splitlines():
        if (g := LINE.match(line)) and (t := read_tape(g[5])) is not None:
            log.append((int(g[1]), ord(g[3]) - 65, t, line))
        else:
            log.append(None)
    return m, log


def shape(t):
    return [c for c, _ in t[0]], t[1], [c for c, _ in t[2]]


def follow(col, prog, p, log, budget=30_000_000, jumps_only=False):
    if len(log) > 1 and log[-1] and log[-2] and log[-1][1:3] == log[-2][1:3]:
        log = log[:-1]          # the closing print repeats the last configuration
    for a, b in zip(log, log[1:]):
        if a is None or b is None:
            col.count('unreadable configurations')
            continue
        if a[0] == b[0]:
            continue
        if jumps_only and (a[1] != b[1] or shape(a[2]) != shape(b[2])):
            continue            # applying a rule changes nothing but counts
        ca, cb = cells(a[2]), cells(b[2])
        if ca is None or cb is None:
            col.count('configurations too wide to follow')
            continue
        jump = b[3].split('|')[1].strip() == '...' and cb is not None
        st, n = p.reach(*ca, a[1], *cb, b[1], min(CAP, budget))
        budget -= n
        if st == 'hit':
            col.count('transitions followed')
            if jump and n > 1 and len(cb[0]) > 4 and a[1] == b[1]:
                col.count('jumps followed')
                col.top('steps in one jump', n)
                col.nontriv((prog, a[0]))
                col.sample('jump', [prog, a[3].strip(), b[3].strip(), n])
        elif st == 'undef':
            col.violation('unreal-transition', prog, f'the machine halts after {n} steps',
                          frm=a[3], to=b[3])
            return
        elif st == 'limit' and n < CAP or st == 'nospace':
            col.count('not followed to the end')
        else:
            # not reached within the cap: telling only if the machine has by then gone far beyond; one
            # that counts in a narrow space may take that long
            col.count('not reached within the cap')
            if (size(a[2], b[2]) <= NARROW and gone(p, 10 * size(a[2], b[2]))
                    and p.reach(*ca, a[1], *cb, b[1], SURE)[0] != 'hit'):
                col.violation('unreal-transition', prog,
                              f'not reached within {SURE} steps', frm=a[3], to=b[3])
                return
        if budget <= 0:
            break


def gone(p, width):
    """Is the real tape far wider, and marked all over, after as many steps as a jump is followed for?"""
    r = p.run(SURE, flags=0)
    return r['status'] == 'nospace' or r['status'] == 'limit' and min(r['width'], r['marks']) > width


def size(a, b):
    return sum(n for _, n in a[0] + a[2] + b[0] + b[2]) + 2


def case(col, item):
    pyload.load()
    prog, lim, *jumps_only = item
    col.ev()
    try:
        m, log = trace(prog, lim)
    except (NotImplementedError, AssertionError, RecursionError) as e:
        col.count(f'refused: {type(e).__name__}')
        return
    if m.rulapp:
        col.count('runs with rules')
        if len(log) > 2:
            follow(col, prog, sim.Prog(prog), log, jumps_only=bool(jumps_only))


def run(ctx):
    pyload.load()
    rng = ctx.rng('progs')
    items = [(p, ctx.scale(400, 2000)) for p in gen.corpus_progs(without=(
        'HALT_SLOW', 'SPINOUT_SLOW', 'SPINOUT_BLANK_SLOW', 'PROVER_HALT_TOO_SLOW',
        'RECUR_TOO_SLOW', 'RECUR_SLOW', 'ALGEBRA_PROGS'))]
    items += [(p, 600) for p in gen.pool(rng, ctx.scale(600, None))]
    # programs found to have rules: small ones, many with several rules for one slot
    found = json.loads((paths.VERIF / 'bbv' / 'data' / 'ruleprogs.json').read_text())
    items += [(p, 600, True) for p in found['quick'] + ([] if ctx.quick else found['thorough'])]
    items += [(p, 3000, True) for p in gen.deep_rules()]
    ctx.map('case', items)
    ctx.need('jumps followed', 2000)
