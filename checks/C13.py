"""C13: program text round-trips."""
from bbv import gen, pyload, sim
from bbv.rust import PanicException

PROPERTY, LEVEL = 'C13', 'exploration'
TECHNIQUE = 'reference-model monitor of every reader and writer; round trips checked on each value'
NOTE = ('Held on the texts and tables listed in the evidence; every state letter, colour digit and '
        'instruction is covered exhaustively, whole tables are sampled.')
RULE = ('Every state A-Z with every colour 0-9 and both directions as slot and as instruction; '
        'recorded programs; random tables of 1-26 states and 1-10 colours with any number of '
        'undefined slots, among them undefined last rows and columns, written with and without '
        'explicit dimensions. Non-trivial: distinct table texts, and distinct tables without dimensions.')


def mods():
    pyload.load(True)
    import tools
    from tm import parse, show
    return tools, parse, show


def guarded(col, key, what, f, *a):
    try:
        return True, f(*a)
    except (Exception, PanicException) as e:
        col.violation('refused', key, f'{what} fails: {type(e).__name__}: {e}')
        return False, None


def same(col, kind, key, what, f, args, want):
    ok, got = guarded(col, key, what, f, *args)
    if ok and got != want:
        col.violation(kind, key, f'{what} gives {got!r}, should be {want!r}')
    return ok


def text_case(col, rows):
    tools, parse, show = mods()
    text = sim.show(rows)
    comp = sim.comp(rows)
    dims = sim.dims(rows)
    col.ev()
    col.nontriv(text)
    col.count('tables')
    col.count('undefined slots', dims[0] * dims[1] - len(comp))
    same(col, 'read', text, 'reading the text', parse.tcompile, (text,), comp)
    same(col, 'read', text, 'reading the text between blanks', parse.tcompile, (f' {text}\n',), comp)
    same(col, 'write', text, 'writing the table', show.show_comp, (comp, dims), text)
    ok, again = guarded(col, text, 'reading', parse.tcompile, text)
    if ok:
        same(col, 'round-trip', text, 'writing what was read', show.show_comp, (again, dims), text)
    table = [[None if i is None else tuple(i) for i in row] for row in rows]
    same(col, 'python-read', text, 'tools.parse', lambda t: [
        [None if i is None else tuple(i) for i in r] for r in tools.parse(t)], (text,), table)
    same(col, 'python-read', text, 'tools.get_params', tools.get_params, (text,), dims)
    # without dimensions: the smallest table, of two states and colours at least, that has room
    if comp:
        ns = 1 + max([1] + [x for (s, _), i in comp.items() for x in (s, i[2])])
        nc = 1 + max([1] + [x for (_, c), i in comp.items() for x in (c, i[0])])
        col.nontriv(('no dimensions', text))
        ok, t = guarded(col, text, 'writing without dimensions', show.show_comp, comp)
        if ok:
            want = sim.show([[comp.get((s, c)) for c in range(nc)] for s in range(ns)])
            if t != want:
                col.violation('write-min', text, f'without dimensions writes {t!r}, not {want!r}')
            same(col, 'round-trip', text, 'reading what was written without dimensions',
                 parse.tcompile, (t,), comp)
            if ns <= dims[0] and nc <= dims[1]:
                col.count('smallest tables within the dimensions')
    col.sample('table', text)


def atom_case(col, item):
    tools, parse, show = mods()
    from tm import rust_stuff as rs
    s, c = item
    col.ev()
    letter, slot = chr(65 + s), f'{chr(65 + s)}{c}'
    same(col, 'slot', slot, 'show_slot', show.show_slot, ((s, c),), slot)
    same(col, 'slot', slot, 'read_slot', parse.read_slot, (slot,), (s, c))
    same(col, 'state', letter, 'show_state', show.show_state, (s,), letter)
    for right in (False, True):
        t = f"{c}{'R' if right else 'L'}{letter}"
        col.nontriv(t)
        col.count('instructions')
        same(col, 'instr', t, 'show_instr', show.show_instr, ((c, right, s),), t)
        same(col, 'instr', t, 'read_instr', rs.read_instr, (t,), (c, right, s))
    same(col, 'undefined', '...', 'show_instr', show.show_instr, (None,), '...')
    same(col, 'undefined', '...', 'read_instr', rs.read_instr, ('...',), None)
    same(col, 'undefined', '.', 'show_state', show.show_state, (None,), '.')


def run(ctx):
    mods()
    rng = ctx.rng('tables')
    ctx.map('atom_case', [(s, c) for s in range(26) for c in range(10)])
    items = [sim.parse(p) for p in gen.corpus_progs()]
    items = [r for r in items if len({len(x) for x in r}) == 1]
    for _ in range(ctx.scale(40_000, 1_000_000)):
        ns, nc = rng.choice(gen.SIZES) if rng.random() < .5 else (
            rng.randrange(1, 27), rng.randrange(1, 11))
        rows = gen.random_prog(rng, ns, nc, undef=rng.randrange(ns * nc), first=None)
        r = rng.random()
        if r < .2:
            rows[-1] = [None] * nc
        elif r < .4:
            for row in rows:
                row[-1] = None
        elif r < .5:
            rows[0][0] = None
        items.append(rows)
    ctx.map('text_case', items)
    ctx.need('tables', 1000)
    ctx.need('instructions', 500)
    ctx.need('smallest tables within the dimensions', 100)
