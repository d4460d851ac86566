"""C24: generated C programs do what the Turing machine does."""
import hashlib
import re

from bbv import ctrace, gen, paths, pyload, sim

PROPERTY, LEVEL = 'C24', 'exploration'
TECHNIQUE = ('online monitor: every store of the compiled program is watched (sanitizer coverage callbacks) '
             'and the machine is stepped alongside; AddressSanitizer and UBSan')
NOTE = ('The generated text is compiled with clang -O0 and the machine.h of machines/structured. Runs that '
        'leave the 100 squares of the generated tape are followed up to there.')
RULE = ('Recorded programs, tree paths, random tables with undefined slots and halting instructions (as "...", '
        'as an H and as an underscore), 1 to 26 states and 2 to 10 colors, programs that go blank, loop on '
        'one state in either or both colors. Non-trivial: distinct programs followed for more than 10 steps.')
ASSUMPTIONS = ['An undefined instruction stands for writing a mark, stepping right and stopping, as the '
               'generator has it, and a program also stops when its tape goes blank.']
LIMIT = 3_000


def expected(rows, limit):
    """Steps until it stops, or None if it leaves the tape or is still running."""
    tape, pos, state, marks, steps = {}, 50, 0, 0, 0
    while steps < limit:
        scan = tape.get(pos, 0)
        color, shift, trans = ctrace.convention(rows[state][scan])
        marks += (color != 0) - (scan != 0)
        tape[pos] = color
        pos += shift
        steps += 1
        if trans < 0:
            return steps, 'halt'
        if not marks:
            return steps, 'blank'
        if not 0 <= pos < 100:
            return None, 'left the tape'
        state = trans
    return None, 'limit'


def case(col, item):
    pyload.load(False)
    from tools.c import make_c
    prog, wrong = item
    col.ev()
    try:
        text = make_c(prog)
    except Exception as e:
        col.violation('exception', prog, f'{type(e).__name__}: {e}')
        return
    rows = sim.parse(prog)
    rows = [[i if i is None or i[2] < len(rows) else (i[0], i[1], -1) for i in row] for row in rows]
    steps, end = expected(rows, LIMIT)
    d = paths.build_dir() / 'c24'
    d.mkdir(exist_ok=True)
    name = 'g' + hashlib.sha1(f'{prog}{wrong}'.encode()).hexdigest()[:16]
    src = d / f'{name}.c'
    src.write_text(text)
    b = ctrace.build(name, src, ctrace.table(rows, ctrace.convention), len(rows[0]),
                     (steps if steps is not None else 10 ** 9) + wrong, LIMIT, may_leave=True)
    src.unlink()
    if b.error:
        line = next((x for x in b.error.splitlines() if 'error' in x), b.error[-200:])
        col.violation('compile', prog, re.sub(r'^\S*?:', '', line))
        return
    if b.unwatched:
        col.count('compiled, but not watched')
        if steps is not None:
            rc, _, err = b.run()
            if (rc != 0) != bool(wrong):
                col.violation('run', prog, f'exit {rc}: {err[-200:]}')
        b.remove()
        return
    try:
        bad, how, nums = ctrace.result(*b.run())
    except ctrace.subprocess.TimeoutExpired:
        bad, how, nums = 'no answer after two minutes', None, {}
    b.remove()
    if bad:
        col.violation('run', prog, bad)
        return
    col.count('steps watched', nums['steps'])
    col.top('states', len(rows))
    col.top('colors', len(rows[0]))
    want = end if steps is None else ('assert ' if wrong else 'return ') + end
    if how != want:
        col.violation('end', prog, f'it ends with "{how}", should be "{want}"')
        return
    if steps is not None and nums['steps'] != steps:
        col.violation('steps', prog, f"{nums['steps']} steps, should be {steps}")
        return
    col.count('ended: ' + how)
    if text.count(prog.strip()) < 1:
        col.violation('name', prog, 'the program is not named in the text')
    if nums['steps'] > 10:
        col.nontriv(prog)
    col.sample('watched', [prog, how, nums])


def with_halts(rng, prog):
    """Some undefined slots become explicit halting instructions."""
    rows = sim.parse(prog)
    halt = rng.choice('_H_') if len(rows) < 8 else '_'
    out = []
    for row in rows:
        line = []
        for i in row:
            if i is None:
                line.append('...' if rng.random() < .5 else
                            f"{rng.randrange(len(row))}{rng.choice('LR')}{halt}")
            else:
                line.append(f"{i[0]}{'R' if i[1] else 'L'}{chr(65 + i[2])}")
        out.append(' '.join(line))
    return '  '.join(out)


def run(ctx):
    pyload.load(False)
    rng = ctx.rng('progs')
    n = ctx.scale(480, 8000)
    sizes = [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3), (5, 2), (2, 5), (6, 2), (4, 3), (7, 2), (3, 4)]
    progs = {}
    corpus = list(gen.corpus_progs())
    rng.shuffle(corpus)
    for p in corpus[:n // 5]:
        progs[p] = 0
    while len(progs) < n:
        r = rng.random()
        s, c = rng.choice(sizes)
        if r < .35:
            p = gen.tree_prog(rng, s, c, halt=rng.random() < .7)
        elif r < .55:
            p = gen.random_prog(rng, s, c, undef=rng.choice([0, 1, 2, 3]),
                                first=rng.choice(['1RB', '1RB', None]))
        elif r < .63:
            p = gen.random_prog(rng, rng.randint(8, 26), rng.choice([2, 2, 3]), undef=rng.randrange(4))
        elif r < .68:
            p = gen.random_prog(rng, rng.randint(2, 3), rng.randint(6, 10), undef=rng.randrange(4))
        elif r < .8:
            # self loops
            rows = gen.random_prog(rng, s, c, undef=rng.randrange(3))
            for st, row in enumerate(rows):
                for co, i in enumerate(row):
                    if i and rng.random() < .45:
                        row[co] = (i[0], i[1], st)
            p = sim.show(rows)
        else:
            p = gen.mutate(rng, gen.some_prog(rng, sizes=sizes))
        p = p if isinstance(p, str) else sim.show(p)
        if rng.random() < .5:
            p = with_halts(rng, p)
        if rng.random() < .2:
            rows = sim.parse(p)
            if all(i is None or i[2] < len(rows) for row in rows for i in row):
                # the mirror image, so that it starts left
                p = sim.show([[i and (i[0], not i[1], i[2]) for i in row] for row in rows])
        progs[p] = 1 if rng.random() < .06 else 0
    ctx.map('case', list(progs.items()), mem=0, chunk=4)
    if not ctx.counters.get('compiled, but not watched'):
        ctx.need('ended: return halt', 20)
        ctx.need('ended: return blank', 5)
        ctx.need('ended: left the tape', 5)
