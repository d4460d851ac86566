"""C12: program enumeration is complete, duplicate free and schedule independent."""
import atexit
import functools
import json
import os
import random
import subprocess
import sys

from bbv import sim

PROPERTY, LEVEL = 'C12', 'exploration'
TECHNIQUE = 'offline checker of enumeration output against an independent normal-form tree, across thread counts'
NOTE = 'Exact for the dimensions and limits listed in the evidence (up to 2x5, 5x2, 3x3); larger ones are out of reach.'
RULE = ('Enumerations of several dimensions, modes, limits and thread counts, each in its own process. Every '
        'listed program is replayed against an independent statement of the normal-form tree; for '
        'small dimensions the list must equal an independent enumeration, for larger ones random '
        'descents of the tree must be in it; and lists of up to eleven million programs must have the number and checksums of a '
        'reference enumeration in C. Non-trivial: distinct programs so judged.')


# ------------------------------------------------ the tree, stated independently

def settle(comp, tape, head, state, lim):
    """Run up to lim cycles: ('slot', state, color, tape, head) at an undefined slot, 'over' when it
    spins out or the tape is blank, 'limit' otherwise.  Works on a copy."""
    tape = dict(tape)
    for _ in range(lim):
        scan = tape.get(head, 0)
        i = comp.get((state, scan))
        if i is None:
            return ('slot', state, scan, tape, head)
        color, right, nxt = i
        d = 1 if right else -1
        if nxt == state and scan == 0 and not any((k - head) * d > 0 for k in tape):
            return ('over',)
        edge = (max(tape) if right else min(tape)) if tape else head
        while True:
            if color:
                tape[head] = color
            else:
                tape.pop(head, None)
            head += d
            if nxt != state or tape.get(head, 0) != scan:
                break
            if scan == 0 and (head - edge) * d > 0:
                break
        state = nxt
        if not tape:
            return ('over',)
    return ('limit',)


class Tree:
    """The normal-form tree: 1RB first; an undefined slot is filled when the run reaches it; states
    and colours are introduced in order; `halt` slots stay undefined; the run goes on for at most
    `lim` cycles after each filling; what does not use the last state and colour is not listed."""

    def __init__(self, params, halt, lim):
        self.params, self.lim = params, lim
        self.slots = params[0] * params[1] - bool(halt)

    def root(self):
        return {(0, 0): (1, True, 1)}, ({0: 1}, 1, 1)

    def options(self, comp):
        s = min(self.params[0], 2 + max(i[2] for i in comp.values()))
        c = min(self.params[1], 2 + max(i[0] for i in comp.values()))
        return [(co, r, st) for co in range(c) for r in (False, True) for st in range(s)]

    def full(self, comp):
        return (any(i[2] == self.params[0] - 1 for i in comp.values())
                and any(i[0] == self.params[1] - 1 for i in comp.values()))

    def show(self, comp):
        return sim.show([[comp.get((s, c)) for c in range(self.params[1])]
                         for s in range(self.params[0])])

    def children(self, comp, where):
        """None for a leaf, else (slot, where it is met)."""
        if len(comp) == self.slots:
            return None
        r = settle(comp, *where, self.lim)
        return ((r[1], r[2]), (r[3], r[4], r[1])) if r[0] == 'slot' else None

    def leaves(self):
        todo = [self.root()]
        while todo:
            comp, where = todo.pop()
            k = self.children(comp, where)
            if k is None:
                if self.full(comp):
                    yield self.show(comp)
                continue
            slot, at = k
            todo.extend(({**comp, slot: i}, at) for i in self.options(comp))

    def descent(self, rng):
        comp, where = self.root()
        while (k := self.children(comp, where)) is not None:
            slot, where = k
            comp = {**comp, slot: rng.choice(self.options(comp))}
        return self.show(comp) if self.full(comp) else None

    def fault(self, prog):
        """Why prog is not a program of the tree, or None."""
        try:
            rows = sim.parse(prog)
        except (ValueError, IndexError):
            return 'unreadable'
        if len(rows) != self.params[0] or any(len(r) != self.params[1] for r in rows):
            return 'wrong dimensions'
        whole = sim.comp(rows)
        comp, where = self.root()
        if whole.get((0, 0)) != comp[0, 0]:
            return 'does not begin with 1RB'
        while (k := self.children(comp, where)) is not None:
            slot, where = k
            if slot not in whole:
                return f'reaches {slot}, which should be filled'
            if whole[slot] not in self.options(comp):
                return f'{whole[slot]} at {slot} is not in normal form'
            comp = {**comp, slot: whole[slot]}
        if comp != whole:
            return f'fills {sorted(set(whole) - set(comp))}, which is never reached'
        if not self.full(comp):
            return 'leaves out a state or colour'
        return None


# ---------------------------------------------------------------- the workload

CHILD = """
import sys, json
sys.path.insert(0, %r)
from bbv import rust
m = rust.RustModule(%r)
params, halt, lim = json.loads(sys.argv[1])
progs = m.tree_progs(tuple(params), halt, lim)
if len(sys.argv) < 3:
    print(json.dumps(progs))
else:
    import random
    from zlib import crc32
    texts = [p.encode() for p in progs]
    print(json.dumps([len(progs), len(set(progs)), sum(map(crc32, texts)), sum(crc32(t + b'#') for t in texts),
                      random.Random(sys.argv[2]).sample(progs, min(len(progs), 1000))]))
"""


@functools.cache
def library():
    from bbv import rust
    so = rust.build('ship')
    atexit.register(lambda pid=os.getpid(): os.getpid() == pid and os.unlink(so))
    return so


@functools.cache
def reference():
    from bbv import paths
    exe = paths.build_dir() / f'treeref-{os.getpid()}'
    subprocess.run(['cc', '-O2', '-w', str(paths.VERIF / 'bbv' / 'treeref.c'), '-o', str(exe)], check=True)
    atexit.register(lambda pid=os.getpid(): os.getpid() == pid and exe.unlink())
    return exe


def enumerate_in_process(params, halt, lim, threads, *more):
    from bbv import paths
    env = dict(os.environ, RAYON_NUM_THREADS=str(threads))
    try:
        r = subprocess.run([sys.executable, '-c', CHILD % (str(paths.VERIF), str(library())),
                            json.dumps([params, halt, lim]), *more], env=env, capture_output=True, text=True,
                           timeout=500)
    except subprocess.TimeoutExpired:
        return None, 'no end'
    if r.returncode:
        return None, r.stderr[-600:]
    return json.loads(r.stdout), None


def whole(col, item):
    """The whole list, by number and checksums, against the reference in C."""
    params, halt, lim, threads, seed = item
    tag = f'{params} halt={halt} limit={lim}'
    col.ev()
    r = subprocess.run([str(reference()), *map(str, (*params, int(halt), lim))], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f'the reference gives up on {tag}: {r.returncode}')
    want = list(map(int, r.stdout.split()))
    got, err = enumerate_in_process(params, halt, lim, threads, str(seed))
    if got is None:
        col.violation('fails', tag, f'with {threads} threads: {err}')
        return
    number, distinct, *sums, some = got
    if distinct != number:
        col.violation('duplicate', tag, f'{number - distinct} duplicates with {threads} threads')
    tree = Tree(params, halt, lim)
    for p in some:
        col.nontriv((p, halt, lim))
        if why := tree.fault(p):
            col.violation('extra', tag, f'{p}: {why}')
            return
    if distinct != want[0]:
        col.violation('number', tag, f'{distinct} programs with {threads} threads, not {want[0]}')
    elif distinct == number and sums != want[1:]:
        col.violation('other', tag, f'with {threads} threads, not the programs of the tree, though as many')
    col.count('lists compared whole by checksum')
    col.count('programs compared by checksum', number)
    col.top('programs in one list', number)
    col.sample('list', [*item[:4], number])


def case(col, item):
    params, halt, lim, threads, mode, seed = item
    tag = f'{params} halt={halt} limit={lim}'
    col.ev()
    rng = random.Random(seed)
    tree = Tree(params, halt, lim)
    progs, err = enumerate_in_process(params, halt, lim, threads)
    if progs is None:
        col.violation('fails', tag, f'with {threads} threads: {err}')
        return
    col.count('enumerations')
    col.count('programs listed', len(progs))
    col.top('threads', threads)
    seen = set(progs)
    if len(seen) != len(progs):
        dup = next(p for p in progs if progs.count(p) > 1)
        col.violation('duplicate', tag, f'{len(progs) - len(seen)} duplicates with {threads} threads, '
                      f'e.g. {dup}')
    if mode == 'all':
        want = set(tree.leaves())
        for p in want:
            col.nontriv((p, halt, lim))
        if missing := sorted(want - seen):
            col.violation('missing', tag, f'{len(missing)} of {len(want)} programs missing with '
                          f'{threads} threads, e.g. {missing[0]}', missing=missing[:10])
        if extra := sorted(seen - want):
            col.violation('extra', tag, f'{len(extra)} programs too many with {threads} threads, e.g. '
                          f'{extra[0]}: {tree.fault(extra[0])}', extra=extra[:10])
        col.count('lists compared whole')
    else:
        for p in rng.sample(progs, min(mode, len(progs))):
            if why := tree.fault(p):
                col.violation('extra', tag, f'{p}: {why}')
                break
            col.nontriv((p, halt, lim))
            col.count('listed programs judged')
        for _ in range(mode):
            p = tree.descent(rng)
            if p is None:
                continue
            col.count('descents judged')
            col.nontriv((p, halt, lim))
            if p not in seen:
                col.violation('missing', tag, f'not listed: {p}')
                break
    col.sample('enumeration', [params, halt, lim, threads, len(progs)])


def run(ctx):
    rng = ctx.rng('items')
    library()
    items = []

    def add(params, halt, lim, threads, mode):
        items.append((params, halt, lim, threads, mode, rng.randrange(1 << 40)))

    for halt in (True, False):
        for lim in (3, 30, 100):
            add((2, 2), halt, lim, rng.choice((1, 2, 8, 32)), 'all')
        add((3, 2), halt, rng.choice((20, 35, 50)), 1, 'all')
        add((3, 2), halt, rng.choice((20, 35, 50)), rng.choice((3, 8)), 'all')
        add((2, 3), halt, rng.choice((20, 35, 50)), 8, 'all')
        add((2, 3), halt, rng.choice((20, 35, 50)), 2, 'all')
    add((4, 2), True, 40, 4, ctx.scale(8000, 60_000))
    add((2, 4), True, 40, 4, ctx.scale(8000, 60_000))
    big = [((2, 5), True, 2), ((2, 5), False, 2), ((3, 3), True, 2), ((3, 3), False, 2), ((5, 2), True, 2),
           ((4, 2), True, 876), ((2, 4), True, 876), ((4, 2), True, 7), ((2, 4), True, 7),
           ((4, 2), False, 20), ((2, 4), False, 20)]
    if not ctx.quick:
        big += [((2, 6), True, 2), ((2, 5), True, 3), ((3, 3), True, 3)]
        big += [(dims, halt, lim) for dims in ((4, 2), (2, 4)) for halt in (True, False)
                for lim in (1, 2, 3, 5, 10, 30, 80, 300, 876)]
    reference()
    ctx.map('whole', [(*b, rng.choice((1, 3, 8, 20)), rng.randrange(1 << 40)) for b in big], cpu=1500, chunk=1,
            mem=0, workers=5)
    if not ctx.quick:
        for halt in (True, False):
            for lim in (0, 1, 2, 5, 10, 300, 876):
                for th in (1, 2, 5, 16):
                    add((2, 2), halt, lim, th, 'all')
            for lim in (1, 5, 80, 300):
                for th in (1, 4, 16):
                    add((3, 2), halt, lim, th, 'all')
                    add((2, 3), halt, lim, th, 'all')
        add((4, 2), False, 60, 8, 30_000)
        add((2, 4), False, 60, 8, 30_000)
        add((4, 2), True, 100, 2, 100_000)
    ctx.map('case', items, cpu=900, chunk=1, mem=0)
    ctx.need('lists compared whole', 10)
    ctx.need('lists compared whole by checksum', 11)
    ctx.need('descents judged', 500)
