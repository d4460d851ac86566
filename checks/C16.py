"""C16: instruction sequences and tree-normal forms describe the actual run."""
import itertools

from bbv import gen, pyload, sim
from bbv.renaming import same_run, shuffled, mirror

PROPERTY, LEVEL = 'C16', 'exploration'
TECHNIQUE = 'reference-model monitor: the sequence is replayed cell by cell; renamed programs run in lockstep'
NOTE = ('Sequences are judged for as long as the partial programs stop within the step budget; tree '
        'normal forms for as far as the tool promises to look (its first thousand cycles).')
RULE = ('Instruction sequences and tree-normal forms of recorded programs, programs of the normal-form '
        'tree, random tables and mutants, and of renamed copies of these. Non-trivial: distinct '
        'programs with a sequence of three or more parts, or whose tree-normal form differs.')

CAP = 20_000
FAR = 400_000


def expected(rows, cap=CAP):
    """The sequence by cell-by-cell runs, as far as each part stops; whether all do."""
    ns, nc = sim.dims(rows)
    part = [[None] * nc for _ in range(ns)]
    part[0][0] = (1, True, 1)
    out = []
    for _ in range(ns * nc - 1):
        r = sim.Prog(part).run(cap, flags=1)
        if r['status'] in ('limit', 'nospace'):
            return out, False
        if r['status'] == 'spin':
            break
        slot = r['state'], r['scan']
        out.append((sim.show(part), r['steps'], slot))
        if slot[0] >= ns or slot[1] >= nc or rows[slot[0]][slot[1]] is None:
            break
        part[slot[0]][slot[1]] = rows[slot[0]][slot[1]]
    return out, True


def far_seq_case(col, prog):
    seq_case(col, prog, FAR)


def seq_case(col, prog, cap=CAP):
    pyload.load(False)
    from tools.instr_seq import instr_seq
    rows = sim.parse(prog)
    want, ends = expected(rows, cap)
    if not ends:
        col.count('sequences that run on')
    col.ev()
    try:
        # what comes after the last part that is known to stop is not asked for
        got = [(p, n, tuple(slot)) for p, n, slot in itertools.islice(instr_seq(prog), None if ends else len(want))]
    except Exception as e:
        col.violation('sequence-exception', prog, f'{type(e).__name__}: {e}')
        return
    col.count('sequences')
    col.count('parts', len(want))
    col.top('step of a part', max([n for _, n, _ in want] + [0]))
    if len(want) >= 3:
        col.nontriv(prog)
    if len(want) > 1 and want[-2][1] > 1000:
        col.count('parts after a thousand steps')
    if got != want:
        i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
        col.violation('sequence', prog, f'part {i} is {got[i:i + 1]}, should be {want[i:i + 1]}')
    col.sample('sequence', [prog, want])


def filled(rng, rows):
    """The program with the slot it halts at filled in, twice, and possibly wider."""
    rows = [list(r) for r in rows]
    ns, nc = sim.dims(rows)
    if rng.random() < .4:
        rows.append([None] * nc)
    if rng.random() < .3:
        for r in rows:
            r.append(None)
    ns, nc = sim.dims(rows)
    for _ in range(3):
        r = sim.Prog(rows).run(FAR, flags=1)
        if r['status'] not in ('undef', 'spin'):
            break
        st, c = r['state'], r['scan']
        if st < ns and c < nc:
            rows[st][c] = (rng.randrange(nc), rng.random() < .5, rng.randrange(ns))
    return rows


def further(rng, rows, st, sc):
    """The program with the slot it halts at leading to the last of two more states, or two more colors."""
    rows = [list(r) for r in rows]
    ns, nc = sim.dims(rows)
    if rng.random() < .5:
        for r in rows:
            r += [None if rng.random() < .2 else (rng.randrange(nc + 2), rng.random() < .5, rng.randrange(ns))
                  for _ in range(2)]
        # the mark is left behind and come back to
        rows[st][sc] = (nc + 1, rng.random() < .5, rng.randrange(ns))
    else:
        rows += [[None if rng.random() < .2 else (rng.randrange(nc), rng.random() < .5, rng.randrange(ns + 2))
                  for _ in range(nc)] for _ in range(2)]
        rows[st][sc] = (rng.randrange(nc), rng.random() < .5, ns + 1)
    return rows


def tree_case(col, prog):
    pyload.load(False)
    from tools.tree_norm import tree_norm
    rows = sim.parse(prog)
    ns, nc = sim.dims(rows)
    col.ev()
    try:
        text = tree_norm(prog)
    except Exception as e:
        col.violation('tree-exception', prog, f'{type(e).__name__}: {e}')
        return
    got = sim.parse(text)
    if sim.dims(got) != (ns, nc) or sum(i is None for r in got for i in r) != sum(
            i is None for r in rows for i in r):
        col.violation('tree-size', prog, f'becomes {text}')
        return
    why, (_, _, flip), steps = same_run(rows, got, 3000, skip=False)
    col.count('tree-normal forms')
    col.count('steps in lockstep', steps)
    if why or flip:
        col.violation('tree-behaviour', prog, f'becomes {text}: {why or "its mirror image"}')
        return
    # what the run meets first comes first
    comp = sim.comp(got)
    tape, head, state = {}, 0, 0
    nexts, nextc = was = 1, 1
    for n in range(1000):
        scan = tape.get(head, 0)
        nexts += state == nexts
        nextc += scan == nextc
        if state > nexts or scan > nextc:
            col.violation('tree-order', prog, f'becomes {text}: slot '
                          f'{chr(65 + state)}{scan} at step {n}')
            return
        if n > 100 and was != (nexts, nextc):
            col.count('states or colors met after a hundred steps')
        was = nexts, nextc
        if nexts >= ns and nextc >= nc:
            break
        i = comp.get((state, scan))
        if i is None:
            col.count('halting programs in tree-normal form')
            break
        tape[head] = i[0]
        head += 1 if i[1] else -1
        state = i[2]
    if text != prog:
        col.count('tree-normal forms that differ')
        col.nontriv(('tree', prog))
        col.sample('tree', [prog, text])
    try:
        again = tree_norm(text)
    except Exception as e:
        col.violation('tree-exception', text, f'{type(e).__name__}: {e}')
        return
    if again != text:
        col.violation('tree-idempotent', prog, f'{text} becomes {again}')


def run(ctx):
    pyload.load(False)
    rng = ctx.rng('progs')
    tables = [sim.parse(p) for p in gen.corpus_progs()]
    t = gen.tnf(3, 2, 60) + gen.tnf(2, 3, 60)
    tables += [sim.parse(p) for p in gen.tnf(2, 2, 60)]
    tables += [sim.parse(p) for p in rng.sample(t, min(len(t), ctx.scale(2500, 10 ** 9)))]
    for _ in range(ctx.scale(15_000, 400_000)):
        ns, nc = rng.choice(gen.SIZES)
        tables.append(gen.tree_prog(rng, ns, nc) if rng.random() < .6
                      else sim.parse(gen.some_prog(rng)))
    tables = [r for r in tables if len({len(x) for x in r}) == 1 and len(r) > 1 and len(r[0]) > 1]
    for r in tables[:]:
        ns, nc = sim.dims(r)
        if all(i is None or (i[0] < nc and i[2] < ns) for row in r for i in row):
            continue
        tables.remove(r)
    seqs = [sim.show(r) for r in tables if r[0][0] == (1, True, 1)]
    ctx.map('seq_case', list(dict.fromkeys(seqs)), cpu=25)
    late = []
    for p in dict.fromkeys([*gen.corpus_progs(), *(x if isinstance(x, str) else x[0] for x in gen.rule_ends())]):
        r = sim.parse(p)
        if r[0][0] == (1, True, 1) and len({len(x) for x in r}) == 1:
            n = sim.Prog(r).run(FAR, flags=1)
            if n['steps'] > 300 and n['status'] in ('undef', 'spin'):
                late.append(r)
    ctx.count('programs that halt late', len(late))
    far = [sim.show(filled(rng, r)) for r in late for _ in range(ctx.scale(2, 40))]
    ctx.map('far_seq_case', list(dict.fromkeys(far)), cpu=60)
    trees = [sim.show(r) for r in tables]
    for r in tables:
        s = shuffled(rng, r)
        if s[0][0] and not s[0][0][1]:
            s = mirror(s)
        trees.append(sim.show(s))
    # what is met late: two states, or colors, more, met the other way round
    mid = []
    for p in dict.fromkeys([*gen.corpus_progs(), *(x if isinstance(x, str) else x[0] for x in gen.rule_ends())]):
        r = sim.parse(p)
        if len({len(x) for x in r}) == 1 and max(sim.dims(r)) < 9:
            n = sim.Prog(r).run(950, flags=1)
            if n['status'] == 'undef' and n['steps'] > 100 and n['state'] < len(r) and n['scan'] < len(r[0]):
                mid.append((r, n['state'], n['scan']))
    ctx.count('programs that halt after a hundred steps', len(mid))
    for _ in range(ctx.scale(3000, 60_000)):
        r, st, sc = rng.choice(mid)
        trees.append(sim.show(further(rng, r, st, sc)))
    ctx.map('tree_case', list(dict.fromkeys(trees)))
    ctx.need('states or colors met after a hundred steps', 500)
    ctx.need('sequences', 2000)
    ctx.need('parts after a thousand steps', 100)
    ctx.need('tree-normal forms that differ', 1000)
    ctx.need('halting programs in tree-normal form', 100)
