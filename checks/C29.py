"""C29: results do not depend on what was run before."""
import json
import os
import pickle
import subprocess
import sys

from bbv import gen, hist, paths, pyload, sim

PROPERTY, LEVEL = 'C29', 'exploration'
TECHNIQUE = ('offline comparison of recorded histories: each result in one long process against the same '
             'computation made alone in a fresh process')
NOTE = 'The fresh process is a fork of one that has only imported the code, or (in part) a new interpreter.'
RULE = ('Histories of dozens of computations (machines with and without macros of many sizes, some twice '
        'with the same object, macro instructions, sessions of symbolic arithmetic, native deciders, tools), '
        'many about the same program or the same sizes, in random order with repeats; machines on programs '
        'with symbolic counts among them; in processes with different hash seeds. '
        'Non-trivial: distinct computations that had others before them and whose results were compared.')

SECONDS = 1.5


def in_child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as h:
                h.write(pickle.dumps(f()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    return pickle.loads(data) if data else f'the process died: {status}'


def ready():
    """Everything imported, nothing used."""
    pyload.load()
    import tm.machine, tm.macro, tm.num, tools.c, tools.dot, tools.graph, tools.normalize, tools.tree_norm  # noqa
    sys.set_int_max_str_digits(0)


def case(col, item):
    ready()
    tasks, apart, n = item
    col.ev()
    if apart:
        env = {**os.environ, 'PYTHONHASHSEED': str(n), 'PYTHONDONTWRITEBYTECODE': '1',
               'PYTHONPATH': str(paths.VERIF)}
        r = subprocess.run([sys.executable, str(paths.VERIF / 'bbv' / 'hist.py')], env=env, text=True,
                           input=json.dumps([tasks, SECONDS]), capture_output=True)
        if r.returncode:
            raise RuntimeError(r.stderr[-2000:])
        got = json.loads(r.stdout)
        col.count('histories in a new interpreter')
    else:
        got = in_child(lambda: [hist.perform(t, SECONDS) for t in tasks])
    if isinstance(got, str):
        col.violation('died', json.dumps(tasks)[:200], got)
        return
    memo = {}
    for i, (t, a) in enumerate(zip(tasks, got)):
        key = json.dumps(t)
        if key not in memo:
            memo[key] = in_child(lambda: hist.perform(t, SECONDS))
        b = memo[key]
        if a is None or b is None:
            col.count('too slow')
            continue
        if a != b:
            x, y = a.split('\n'), b.split('\n')
            k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            col.violation('differs', key, f'after {i} others: {x[k:k + 1]}; in a fresh process: {y[k:k + 1]}'[:900])
            return
        if 'BUT AGAIN' in a:
            col.violation('twice', key, 'a second run of the same object differs: ' + a[-700:])
            return
        col.count(t[0])
        col.count('results compared')
        if i:
            col.nontriv(key)
        if '**' in a:
            col.count('with symbolic counts')
    col.sample('history', [len(tasks), tasks[0]])


def task(rng, progs, big):
    kind = rng.choice(('machine', 'machine', 'machine', 'machine', 'macro', 'session', 'native', 'tool'))
    p = rng.choice(big if rng.random() < .3 and kind == 'machine' else progs)
    if kind in ('machine', 'macro'):
        kw = rng.choice(({}, {'blocks': rng.choice((2, 3, 4, 5, 6))}, {'backsym': rng.choice((1, 2, 3))},
                         {'blocks': rng.choice((2, 3)), 'backsym': rng.choice((1, 2))},
                         {'opt_macro': rng.choice((20, 60, 300))}))
        if kind == 'machine' and rng.random() < .2:
            ns, nc = sim.dims(sim.parse(p))
            kw = {**kw, 'params': [ns, nc]}
        if kind == 'machine':
            return ['machine', p, kw, rng.choice((50, 400, 2000)), rng.random() < .25]
        return ['macro', p, kw, 60]
    if kind == 'session':
        return ['session', rng.randrange(40), rng.choice(('small', 'tower'))]
    if kind == 'native':
        name = rng.choice(('py_cant_halt', 'py_cant_blank', 'py_cant_spin_out', 'py_opt_block',
                           'py_quick_term_or_rec', 'py_is_connected', 'py_segment_cant_halt'))
        k = {'py_segment_cant_halt': 4, 'py_is_connected': sim.dims(sim.parse(p))[0]}.get(name, 60)
        return ['native', name, [p, k]]
    return ['tool', rng.choice(('graph', 'normalize', 'tree_norm', 'make_c', 'make_dot')), p]


def run(ctx):
    pyload.load()
    rng = ctx.rng('histories')
    c = [p for p in gen.corpus_progs() if max(sim.dims(sim.parse(p))) <= 8]
    big = [p for p in gen.corpus_progs('ALGEBRA_PROGS', 'PROVER_HALT', 'PROVER_SPINOUT', 'MODULAR', 'KERNEL',
                                       'RULE_LIMIT', 'SUSPECTED_RULES')
           if max(sim.dims(sim.parse(p))) <= 8]
    items = []
    for n in range(ctx.scale(48, 700)):
        some = [rng.choice(c) for _ in range(6)] + [gen.some_prog(rng) for _ in range(4)]
        # other programs of the same sizes
        for p in some[:3]:
            ns, nc = sim.dims(sim.parse(p))
            some.append(sim.show(gen.tree_prog(rng, ns, nc)))
        most = [rng.choice(big) for _ in range(6)]
        tasks = [task(rng, some, most) for _ in range(28)]
        # many macros of the same kind, over bases of different sizes
        kw = rng.choice(({'blocks': 2}, {'blocks': 2}, {'blocks': 3}, {'blocks': 4}, {'backsym': 1},
                         {'backsym': 2}, {'blocks': 2, 'backsym': 1}, {'blocks': 3, 'backsym': 1}))
        nc = rng.choice((2, 2, 2, 3))
        for ns in rng.sample(range(1, 7), 4):
            c2 = nc if rng.random() < .8 else rng.choice((2, 3, 4))
            tasks.insert(rng.randrange(len(tasks)), ['closures', kw, rng.randrange(1000), ns, c2, 40, 60])
        tasks += [rng.choice(tasks) for _ in range(6)]
        items.append((tasks, n % 6 == 5, n))
    ctx.map('case', items, mem=0, chunk=1, cpu=600)
    ctx.need('results compared', 800)
    ctx.need('with symbolic counts', 20)
    ctx.need('machine', 300)
    ctx.need('closures', 100)
    ctx.need('histories in a new interpreter', 4)
