"""C25: the C enumerators report the right machines and counts."""
import itertools
import os
import re
import subprocess

from bbv import ctrace, paths

PROPERTY, LEVEL = 'C25', 'exploration'
TECHNIQUE = ('the enumerators are compiled with AddressSanitizer and UBSan (and once as their Makefile does) '
             'and an offline checker compares their output with a cell-by-cell reference')
NOTE = ('Lists have one program per line, complete (the halting instruction is written with an H), each line '
        'ended. The full list of 2-state 2-color programs is run; other dimensions are sampled.')
RULE = ('For each enumerator: the lists of the repository; lists of random programs in random order with '
        'repeats, where one program is run just after one that left marks far out; programs that halt, go '
        'blank, spin out to either side, run to the limit, and run straight to the end of the tape; empty '
        'and one-line lists. Non-trivial: distinct programs whose line was compared, by enumerator.')
ASSUMPTIONS = ['An enumerator stops a program when it halts, when its tape is blank, or when it is about to '
               'repeat itself for ever in a direction it has not been to; it reports those that took fewer '
               'steps than its limit.']
SPEC = {'2-2': 40, '2-3': 300, '2-4': 33554432, '3-2': 65536, '4-2': 35000000, '5-2': 134217728}
MAKE_FLAGS = ['-Wall', '-Wextra', '-O3']
SAN = ['-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def work():
    d = paths.build_dir() / 'c25'
    d.mkdir(exist_ok=True)
    return d


def build(col):
    d = work()
    jobs = [('ref', ['cc', '-O2', '-w', str(paths.VERIF / 'bbv' / 'enumref.c'), '-o', str(d / 'ref')])]
    for name in SPEC:
        src = str(paths.REPO / 'machines' / f'{name}.c')
        jobs.append((name, ['clang', *SAN, src, '-o', str(d / f'{name}.san')]))
        jobs.append((name, ['cc', *MAKE_FLAGS, '-w', src, '-o', str(d / f'{name}.opt')]))
    ps = [(n, subprocess.Popen(c, stderr=subprocess.PIPE, text=True)) for n, c in jobs]
    for n, p in ps:
        err = p.communicate()[1]
        if p.returncode:
            if n == 'ref':
                raise RuntimeError(err)
            col.violation('compile', n, err[-300:])


def dims(name):
    s, c = name.split('-')
    return int(s), int(c)


def text(rows):
    return '  '.join(' '.join(f"{c}{'R' if s > 0 else 'L'}{'H' if t < 0 else chr(65 + t)}" for c, s, t in row)
                     for row in rows)


def read(prog):
    return [[(int(i[0]), 1 if i[1] == 'R' else -1, -1 if i[2] in 'H_' else ord(i[2]) - 65)
             for i in row.split(' ')] for row in prog.strip().split('  ')]


def squeeze(prog):
    return re.sub('^1RB', '', prog).replace(' ', '')


def reference(progs, limit):
    inp = []
    for p in progs:
        rows = read(p)
        inp.append(f'{len(rows)} {len(rows[0])} {limit} ' +
                   ' '.join(f'{c} {s} {t}' for row in rows for c, s, t in row))
    r = subprocess.run([str(work() / 'ref')], input='\n'.join(inp) + '\n', capture_output=True, text=True,
                       check=True)
    out = []
    for line in r.stdout.splitlines():
        steps, marks, why, lo, hi = line.split()
        out.append((int(steps), int(marks), why, int(lo), int(hi)))
    assert len(out) == len(progs)
    return out


def random_rows(rng, ns, nc):
    rows = [[(rng.randrange(nc), rng.choice((1, -1)), rng.randrange(ns)) for _ in range(nc)] for _ in range(ns)]
    slots = [(s, c) for s in range(ns) for c in range(nc)][1:]
    for s, c in rng.sample(slots, rng.choice((0, 0, 1, 1, 2))):
        rows[s][c] = (rng.randrange(nc), rng.choice((1, -1)), -1)
    if rng.random() < .2:
        # likely to spin out
        s = rng.randrange(ns)
        rows[s][0] = (rng.randrange(nc), rng.choice((1, -1)), s)
    rows[0][0] = (1, 1, 1)
    return rows


def straight(rng, ns, nc, right):
    """Goes one way for ever without repeating a state on blanks."""
    rows = random_rows(rng, ns, nc)
    rows[0][0] = (1, 1, 1)
    if right:
        rows[1][0] = (rng.randrange(nc), 1, 0)
    else:
        rows[1][0] = (rng.randrange(nc), -1, rng.choice([s for s in range(ns) if s != 1]))
        for c in range(1, nc):
            rows[1][c] = (1, -1, 0)
        for c in range(1, nc):
            rows[0][c] = (1, -1, 1)
    return rows


def lines(progs, ref, limit):
    out = [f'{i} | {p} | {r[0]} | {r[1]}' for i, (p, r) in enumerate(zip(progs, ref), 1)
           if r[2] != 'l' and r[0] < limit]
    return out + ['done']


def case(col, item):
    name, kind, progs = item
    limit = SPEC[name]
    ref = reference(progs, limit)
    want = lines(progs, ref, limit)
    inp = ''.join(squeeze(p) + '\n' for p in progs)
    for build_kind in ('san', 'opt'):
        col.ev()
        exe = work() / f'{name}.{build_kind}'
        if not exe.exists():
            continue
        try:
            r = subprocess.run([str(exe)], input=inp, capture_output=True, text=True, env=ctrace.ENV,
                               timeout=60 + 2 * len(progs), errors='replace')
        except subprocess.TimeoutExpired:
            col.violation('no-answer', f'{name} {kind}', f'no answer to a list of {len(progs)}')
            return
        got = r.stdout.splitlines()
        if r.returncode:
            err = [x for x in r.stderr.splitlines() if 'runtime error' in x or 'ERROR' in x]
            col.violation('sanitizer' if err else 'exit', f'{name}: {progs[min(len(got), len(progs) - 1)]}'
                          if len(progs) == 1 else f'{name} {kind}',
                          f'exit {r.returncode}: {(err or [r.stderr[-200:]])[0]}')
            return
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            a, b = (got[i] if i < len(got) else '(nothing)'), (want[i] if i < len(want) else '(nothing)')
            col.violation('output', f'{name}: {b if "|" in b else a}', f'prints "{a}", should be "{b}"')
            return
    col.count(f'{name} lists')
    col.count('programs', len(progs))
    col.top('list', len(progs))
    for p, r in zip(progs, ref):
        col.nontriv((name, p))
        col.count({'h': 'halted', 'b': 'blank', 's': 'spun out', 'l': 'to the limit'}[r[2]])
        col.top('steps', r[0])
        if r[4] == limit:
            col.count('to the end of the tape')
    if progs:
        col.sample(name, want[0])


def run(ctx):
    build(ctx)
    rng = ctx.rng('lists')
    items = []
    for name, limit in SPEC.items():
        ns, nc = dims(name)
        recorded = [re.sub(r'\s+$', '', x) for x in
                    (paths.REPO / 'machines' / f'{name}.test').read_text().splitlines() if x.strip()]
        recorded = [p for p in recorded if text(read(p)) == p]
        items.append((name, 'recorded', recorded))
        items.append((name, 'empty', []))
        slow = limit > 1_000_000
        if name == '2-2':
            full = [text([[(1, 1, 1), a], [b, c]]) for a, b, c in itertools.product(
                [(c, s, t) for c in (0, 1) for s in (1, -1) for t in (0, 1, -1)], repeat=3)]
            items.append((name, 'all', full))
            for k in range(6):
                rng.shuffle(full)
                items.append((name, f'all, shuffled {k}', list(full)))
        n = ctx.scale({'2-2': 300, '2-3': 6000, '3-2': 2500}.get(name, 2000), 40000)
        cand = [text(random_rows(rng, ns, nc)) for _ in range(n)]
        # Running to the limit is slow with the larger limits: mostly programs that end sooner.
        ref = reference(cand, min(limit, 200_000 if slow else limit))
        ends = [p for p, r in zip(cand, ref) if r[2] != 'l']
        wide = [p for p, r in zip(cand, ref) if r[2] != 'l' and r[1] > 4]
        on = [p for p, r in zip(cand, ref) if r[2] == 'l']
        if not slow:
            ends += on
        for k in range(ctx.scale(8, 40)):
            rng.shuffle(ends)
            items.append((name, f'random {k}', ends[:ctx.scale(500, 4000)]))
        pairs = []
        for _ in range(min(len(wide), 300)):
            pairs += [rng.choice(wide), rng.choice(ends)]
        items.append((name, 'after a wide one', pairs))
        items += [(name, 'one', [p]) for p in rng.sample(ends, 6)]
        far = [text(straight(rng, ns, nc, right)) for right in (True, False) for _ in range(3)]
        few = ctx.scale(2, 40) if slow else 60
        for p in far[:2] + far[3:5] if slow and ctx.quick else far:
            items.append((name, 'straight on', [p, rng.choice(ends)]))
        some = on[:few]
        for p in some:
            items.append((name, 'to the limit', [rng.choice(ends), p, rng.choice(ends)]))
    # the slow ones first
    items.sort(key=lambda x: (x[1] not in ('recorded', 'straight on', 'to the limit'), x[0] not in ('5-2', '4-2', '2-4')))
    ctx.map('case', items, mem=0, cpu=3000, chunk=1)
    for w, k in (('halted', 500), ('blank', 300), ('spun out', 500), ('to the limit', 100),
                 ('to the end of the tape', 3)):
        ctx.need(w, k)
