"""C28: the parallel holdout filter prints each survivor exactly once."""
import collections
import os
import random
import signal
import time
import zlib

from bbv import gen, pyload, script, sim
from bbv.rust import PanicException

PROPERTY, LEVEL = 'C28', 'exploration'
TECHNIQUE = ('offline checker of the printed lines (exactly once, intact) over runs with different worker '
             'counts, outputs, injected delays and stopped workers')
NOTE = 'Schedules are sampled: delays are injected around the deciders and workers are stopped and continued.'
RULE = ('just_so.py in every mode, 1 to 16 workers, standard output a pipe, a file or a terminal, buffered or '
        'not, its input a file, a pipe or a slow pipe, with lists of up to thousands of programs (with '
        'repeats, all or none kept, last line not ended); also with deciders that refute each program from a depth '
        'of its own on. Non-trivial: distinct (mode, workers, output, '
        'list) whose output was compared and had at least 2 lines.')
FUNCS = {'halt': 'py_cant_halt', 'blank': 'py_cant_blank', 'spinout': 'py_cant_spin_out',
         'segment': 'py_segment_cant_halt', '': 'py_cant_spin_out'}

BEFORE = '''
import os, random, time
os.cpu_count = lambda: {workers}
import tm.reason as reason
def slow(f):
    def g(prog, n):
        r = random.Random(prog + str({seed!r}) + str(os.getpid() % 7)).random()
        if r < {p}:
            time.sleep(r * {d})
        x = f(prog, n)
        if r > 1 - {p}:
            time.sleep((1 - r) * {d})
        return x
    return g
NAMES = ('cant_halt', 'cant_blank', 'cant_spin_out', 'segment_cant_halt')
if {fake}:
    # deciders that refute a program from some depth on, which is another for every program and name
    import zlib
    def stand_in(name):
        return lambda prog, n: 1 if zlib.crc32((name + prog.strip()).encode()) % {fake} < n else None
    for name in NAMES:
        setattr(reason, name, stand_in(name))
for name in NAMES:
    setattr(reason, name, slow(getattr(reason, name)))
'''


def stopper(seed):
    def during(p):
        rng = random.Random(seed)
        end = time.monotonic() + 6
        while p.poll() is None and time.monotonic() < end:
            time.sleep(.02 + rng.random() * .1)
            try:
                kids = [int(x) for x in open(f'/proc/{p.pid}/task/{p.pid}/children').read().split()]
            except OSError:
                return
            some = rng.sample(kids, min(len(kids), rng.randint(1, 3)))
            try:
                for k in some:
                    os.kill(k, signal.SIGSTOP)
                time.sleep(rng.random() * .2)
            except OSError:
                pass
            for k in some:
                try:
                    os.kill(k, signal.SIGCONT)
                except OSError:
                    pass
    return during


def survivors(m, mode, cycles, progs, fake):
    f = getattr(m, FUNCS[mode])
    if fake:
        name = FUNCS[mode][3:]

        def f(prog, n):
            return 1 if zlib.crc32((name + prog).encode()) % fake < n else None
    memo = {}
    out, asked = [], []
    for p in progs:
        if p not in memo:
            try:
                memo[p] = f(p, cycles) is None
            except PanicException:
                memo[p] = None
        if memo[p] is None:
            continue            # that is for the checks of the deciders
        asked.append(p)
        if memo[p]:
            out.append(p)
    return asked, out


def case(col, item):
    m = pyload.load(True)
    mode, cycles, progs, workers, out, inp, unbuffered, delay, stop, ended, seed, fake = item
    args = ([f'--{mode}'] if mode else []) + (['--cycles', str(cycles)] if cycles else [])
    col.ev()
    n = cycles or (20 if mode == 'segment' else 2_000)
    progs, want = survivors(m, mode, n, progs, fake)
    text = '\n'.join(progs) + ('\n' if ended and progs else '')
    before = BEFORE.format(workers=workers, seed=seed, p=.3 if delay else 0, d=delay, fake=fake)
    rc, got, err = script.run('just_so.py', args, text, out=out, inp='file' if inp == 'file' else 'pipe',
                              pieces=4000 if inp == 'slow' else None, native=True, before=before,
                              unbuffered=unbuffered, during=stopper(seed) if stop else None, timeout=170)
    what = f'just_so.py {" ".join(args)}: {len(progs)} programs, {workers} workers, output to a {out}'
    if rc is None:
        col.violation('no-answer', what, 'does not end')
        return
    if rc != 0:
        col.violation('exit', what, f'exit {rc}: {err[-300:]}')
        return
    lines = got.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    else:
        if lines:
            col.violation('text', what, f'the last line is not ended: {lines[-1]!r}')
            return
    a, b = collections.Counter(lines), collections.Counter(want)
    if a != b:
        lost, extra = b - a, a - b
        col.violation('lines', what, f'{sum(lost.values())} lost, for instance {next(iter(lost), None)!r}; '
                                     f'{sum(extra.values())} too many, for instance {next(iter(extra), None)!r}')
        return
    col.count('lines', len(lines))
    if fake:
        col.count('runs with depths told apart')
    col.count(f'output to a {out}')
    col.count('programs', len(progs))
    col.top('workers', workers)
    if stop:
        col.count('runs with stopped workers')
    if lines == want:
        col.count('in order')
    if len(lines) > 1:
        col.nontriv((mode, cycles, workers, out, text))
    col.sample(mode or 'default', [what, len(lines), inp, unbuffered, delay, stop])


def run(ctx):
    pyload.load(True)
    rng = ctx.rng('lists')
    base = [p for p in gen.corpus_progs() if max(sim.dims(sim.parse(p))) <= 6]
    progs = rng.sample(base, 300) + [gen.some_prog(rng) for _ in range(700)]
    items = []
    for i in range(ctx.scale(110, 900)):
        mode = ('', 'halt', 'blank', 'spinout', 'segment')[i % 5]
        cycles = (rng.choice([1, 2, 3, 5, 20]) if mode == 'segment' else rng.choice([1, 5, 40, 100]))
        if i < 10:
            cycles = None
        size = rng.choice([0, 1, 2, 7, 40, 300, 1000])
        if i < 10 or mode == 'segment':
            size = min(size, 40)
        some = [rng.choice(progs) for _ in range(size)]
        if i % 5 == 1 and i > 10:
            # so much output that every buffer fills
            mode, cycles, some = 'blank', 1, [rng.choice(progs) for _ in range(5000)]
        delay = rng.choice([0, 0, .003]) if len(some) < 2000 else 0
        items.append((mode, cycles, some, rng.choice([1, 2, 3, 8, 16]), rng.choice(['pipe', 'pipe', 'file', 'pty']),
                      rng.choice(['pipe', 'file', 'slow']), rng.random() < .5, delay, rng.random() < .3,
                      rng.random() < .8, i, 0))
    # which decider is asked, and for how much
    for i in range(ctx.scale(20, 200)):
        mode = ('', 'halt', 'blank', 'spinout', 'segment')[i % 5]
        n = rng.choice((None, 7, 19, 21, 150, 1999, 2001, 2600, 9000)) if i >= 5 else (4000, 60)[mode == 'segment']
        items.append((mode, n, rng.sample(progs, 600), rng.choice([1, 2, 8]), 'pipe', 'file', False, 0, False,
                      True, i, 2 * (n or (20 if mode == 'segment' else 2000))))
    ctx.map('case', items, mem=0, chunk=1, workers=4, cpu=400)
    ctx.need('lines', 5000)
    ctx.need('runs with depths told apart', 10)
    for out in ('pipe', 'file', 'pty'):
        ctx.need(f'output to a {out}', 3)
