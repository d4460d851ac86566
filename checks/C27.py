"""C27: the command line tools process every input line, in order."""
import ast
import contextlib
import io
import json
import os
import pathlib
import random
import re
import stat
import sys
import tempfile

from bbv import gen, paths, pyload, script, sim

PROPERTY, LEVEL = 'C27', 'exploration'
TECHNIQUE = ('offline checker of the output of the scripts, against what the library gives for each line '
             'by itself; a stand-in for graphviz records how it is called')
NOTE = 'What the library functions give is judged by other checks.'
RULE = ('run.py, normalize.py (also --tree, and on text without spaces), instr_seq.py, c_prog.py, measure.py, '
        'dump_graphs.py, dump_macros.py on lists of programs (empty, one, many, repeated; last line not '
        'ended; lines with spaces at the end), output to a pipe, a file or a terminal. Non-trivial: distinct '
        '(script, list) of at least 2 lines.')

FAKE_DOT = '''#!{python}
import json, os, sys
args = sys.argv[1:]
read = {{}}
for a in args:
    if os.path.isfile(a):
        read[a] = open(a).read()
with open({log!r}, 'a') as f:
    f.write(json.dumps([args, read]) + chr(10))
'''


def squeeze(prog):
    return '_'.join(st.replace(' ', '').replace('...', '---') for st in prog.split('  '))


class Untrue(Exception):
    pass


def history(prog, text):
    """The rows printed are configurations of the run, in order."""
    rows = sim.parse(prog)
    cells, head, state, confs = {}, 0, 0, []
    end = sim.Prog(rows).facts(3000)
    for _ in range((end['steps'] if end['spin'] is None else end['spin']) + 2):
        marked = [k for k, v in cells.items() if v] or [head]
        lo, hi = min(*marked, head), max(*marked, head)
        confs.append((state, head - lo, tuple(cells.get(k, 0) for k in range(lo, hi + 1))))
        instr = rows[state][cells.get(head, 0)]
        if instr is None:
            break
        cells[head], right, state = instr
        head += 1 if right else -1
    index = -1
    lines = text.splitlines()
    for n, line in enumerate(lines):
        m = re.fullmatch(r' *(\d+) \| +(\d+|\.\.\.) \| ([A-Z])(\d) \| (.*)', line.replace('| ...', '|  ...'))
        if m is None:
            raise Untrue(f'unexpected row {line!r}')
        cycle, step, st, sc, tape = m.groups()
        if not re.fullmatch(r'((\d+(\^\d+)?|\[\d+\])( |$))+', tape):
            return              # a count too large to be shown in digits
        if int(cycle) != n:
            raise Untrue(f'row {n} is numbered {cycle}')
        shown, at = [], None
        for b in tape.split(' '):
            if b[0] == '[':
                at = len(shown)
                shown.append(int(b[1:-1]))
                scan = shown[-1]
            else:
                c, _, k = b.partition('^')
                shown += [int(c)] * int(k or 1)
        if scan != int(sc):
            raise Untrue(f'row {n}: slot {st}{sc} with {scan} scanned')
        while shown[-1] == 0 and len(shown) - 1 > at:
            shown.pop()
        while shown[0] == 0 and at:
            shown.pop(0)
            at -= 1
        conf = (ord(st) - 65, at, tuple(shown))
        last = n == len(lines) - 1
        if step != '...':
            k = int(step)
            if k < index or k == index and not last or k >= len(confs) or confs[k] != conf:
                raise Untrue(f'row {line!r} of {prog} is not its configuration after {k} steps')
            index = k
        else:
            k = next((k for k in range(index + (not last), len(confs)) if confs[k] == conf), None)
            if k is None:
                raise Untrue(f'row {line!r} of {prog} is not a later configuration')
            index = k
    HISTORY[0] += len(lines)


HISTORY = [0]
MACROS = [0]


def expected(name, progs):
    """The lines, or the text, that the script has to print."""
    pyload.load(True)
    if name == 'run.py':
        from tm.machine import Machine
        sys.set_int_max_str_digits(100_000)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            for i, p in enumerate(progs):
                m = Machine(p, opt_macro=8_000)
                at = out.tell()
                m.run(sim_lim=10 ** 10, watch_tape=True)
                if isinstance(m.program, dict):
                    history(p, out.getvalue()[at:])
                print(f'{i} | {m}')
        return out.getvalue()
    if name == 'normalize.py':
        from tools.normalize import normalize
        return ''.join(normalize(p) + '\n' for p in progs)
    if name == 'normalize.py --tree':
        from tools.tree_norm import tree_norm
        return ''.join(tree_norm(p) + '\n' for p in progs)
    if name == 'normalize.py (squeezed)':
        return ''.join(p + '\n' for p in progs)
    if name == 'c_prog.py':
        from tools.c import make_c
        return ''.join(make_c(p) + '\n' for p in progs)
    if name == 'instr_seq.py':
        from tm.show import show_slot
        from tools.instr_seq import instr_seq
        return [(p, {partial: (step, show_slot(slot)) for partial, step, slot in instr_seq(p)})
                for p in progs]
    if name == 'measure.py':
        from tm.machine import Machine, show_number
        out = []
        for p in progs:
            m = Machine(p, opt_macro=2_000).run()
            marks = m.marks if isinstance(m.marks, int) else m.marks.estimate()
            out.append(('infrul' if m.infrul else str(m.limrul),
                        (p, (m.cycles, str(marks), str(marks), show_number(m.rulapp)))))
        return out
    if name == 'dump_macros.py':
        from tm.machine import Machine
        from tm.macro import MacroProg, show_comp
        from tools.normalize import normalize
        out = ''
        for p in progs:
            m = Machine(p, opt_macro=2_000, backsym=None)
            if isinstance(m.program, MacroProg):
                m.run()
                out += normalize(show_comp(m.program.instrs)) + '\n'
                MACROS[0] += 1
        return out
    raise ValueError(name)


def blocks(name, text):
    """What instr_seq.py and measure.py print, as data."""
    out = []
    if name == 'instr_seq.py':
        for body in re.findall(r'^ {4}"(?:.|\n)*?^ {4}\},\n', text, re.M):
            (p, d), = ast.literal_eval('{' + body + '}').items()
            out.append((p, d))
        if len(''.join(re.findall(r'^ {4}"(?:.|\n)*?^ {4}\},\n', text, re.M))) != len(text):
            return None
        return out
    found = re.findall(r'^(\S+)\n( {8}"(?:.|\n)*?^ {8}\),\n)', text, re.M)
    if sum(len(a) + 1 + len(b) for a, b in found) != len(text):
        return None
    for head, body in found:
        (p, d), = ast.literal_eval('{' + body + '}').items()
        out.append((head, (p, d)))
    return out


def case(col, item):
    name, progs, out, inp, ended, spaces, seed = item
    col.ev()
    rng = random.Random(seed)
    lines = [squeeze(p) for p in progs] if 'squeezed' in name else list(progs)
    text = '\n'.join(p + (' ' * rng.randint(1, 2) if spaces and rng.random() < .5 else '') for p in lines)
    text += '\n' if ended and lines else ''
    args = name.split(' ')[1:]
    args = [a for a in args if a[0] == '-']
    what = f'{name}: {len(progs)} lines, output to a {out}'
    try:
        if name == 'dump_graphs.py':
            graphs(col, what, progs, text, out, inp)
        else:
            want = expected(name, progs)
            rc, got, err = script.run(name.split(' ')[0], args, text, out=out, inp=inp, native=True,
                                      pieces=rng.choice([None, None, 200]), timeout=200)
            if rc is None:
                col.violation('no-answer', what, 'does not end')
                return
            if rc != 0:
                col.violation('exit', what, f'exit {rc}: {err[-300:]}')
                return
            if name in ('instr_seq.py', 'measure.py'):
                try:
                    have = blocks(name, got)
                except (ValueError, SyntaxError) as err:
                    col.violation('text', what, f'not the table it should be: {err!r}')
                    return
                if have is None:
                    col.violation('text', what, f'lines beyond the table: {got[:300]!r}')
                    return
                if have != want:
                    k = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b),
                             min(len(have), len(want)))
                    col.violation('lines', what, f'entry {k} of {len(want)}: {have[k:k + 1]} and not '
                                                 f'{want[k:k + 1]}'[:800])
                    return
            elif got != want:
                a, b = got.split('\n'), want.split('\n')
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                col.violation('lines', what, f'line {k + 1}: {a[k:k + 1]} and not {b[k:k + 1]}'[:800])
                return
    except Untrue as err:
        col.violation('history', what, str(err))
        return
    except Exception as err:    # noqa: BLE001  (the library itself fails)
        col.violation('error', what, f'{type(err).__name__}: {err}'[:300])
        return
    col.count(name)
    if HISTORY[0]:
        col.count('rows of histories', HISTORY[0])
        HISTORY[0] = 0
    if MACROS[0]:
        col.count('macros dumped', MACROS[0])
        MACROS[0] = 0
    col.count('lines', len(progs))
    col.count(f'output to a {out}')
    if len(progs) > 1:
        col.nontriv((name, tuple(progs)))
    col.sample(name, [what, inp, ended, spaces])


def graphs(col, what, progs, text, out, inp):
    from tools.dot import make_dot
    with tempfile.TemporaryDirectory(dir=paths.build_dir()) as d:
        d = pathlib.Path(d)
        log = d / 'log'
        log.write_text('')
        dot = d / 'dot'
        dot.write_text(FAKE_DOT.format(python=sys.executable, log=str(log)))
        dot.chmod(dot.stat().st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
        rc, got, err = script.run('dump_graphs.py', [], text, out=out, inp=inp,
                                  env={'PATH': f'{d}:{os.environ.get("PATH", "")}', 'TMPDIR': str(d)})
        calls = [json.loads(x) for x in log.read_text().splitlines()]
    if rc is None:
        col.violation('no-answer', what, 'does not end')
        return
    if rc != 0:
        col.violation('exit', what, f'exit {rc}: {err[-300:]}')
        return
    if len(calls) != len(progs):
        col.violation('calls', what, f'dot is called {len(calls)} times')
        return
    for p, (args, read) in zip(progs, calls):
        png = args[args.index('-o') + 1] if '-o' in args[:-1] else None
        if png != p.replace(' ', '_') + '.png':
            col.violation('picture', p, f'dot is called with {args}')
            return
        if list(read.values()) != [make_dot(p)]:
            col.violation('graph', p, f'dot reads {list(read.values())}'[:600])
            return
        if '-T' not in args or args[args.index('-T') + 1] != 'png':
            col.violation('format', p, f'dot is called with {args}')
            return


def run(ctx):
    pyload.load(True)
    rng = ctx.rng('lists')
    base = [p for p in gen.corpus_progs() if max(sim.dims(sim.parse(p))) <= 8]
    ended = json.loads((paths.VERIF / 'bbv' / 'data' / 'ended.json').read_text())
    short = brief(ended)
    # programs that are run as macros (none of the brief ones are)
    macroed = json.loads((paths.VERIF / 'bbv' / 'data' / 'macroed.json').read_text())
    trees = [gen.some_prog(rng) for _ in range(300)]
    items = []
    names = ('run.py', 'normalize.py', 'normalize.py --tree', 'normalize.py (squeezed)', 'instr_seq.py',
             'c_prog.py', 'measure.py', 'dump_graphs.py', 'dump_macros.py')
    sizes = [0, 1, 2, 5, 17]
    for i in range(ctx.scale(108, 1100)):
        name = names[i % len(names)]
        runs = name in ('run.py', 'measure.py', 'dump_macros.py', 'instr_seq.py')
        pool = short if runs else base + trees
        size = sizes[i // len(names) % len(sizes)]
        if not runs and name != 'dump_graphs.py' and i % 4 == 0:
            size *= 20
        share = {'dump_macros.py': .6, 'run.py': .3, 'measure.py': .3}.get(name, 0)
        progs = [rng.choice(macroed if rng.random() < share else pool) for _ in range(size)]
        if size > 3:
            progs[2] = progs[0]
        items.append((name, progs, rng.choice(['pipe', 'pipe', 'file', 'pty']), rng.choice(['pipe', 'file']),
                      rng.random() < .7, name in ('run.py', 'c_prog.py') and rng.random() < .4, i))
    ctx.map('case', items, mem=0, chunk=1, cpu=400)
    for name in names:
        ctx.need(name, 8)
    ctx.need('rows of histories', 300)
    ctx.need('macros dumped', 20)
    for out in ('pipe', 'file', 'pty'):
        ctx.need(f'output to a {out}', 3)


def brief(ended):
    """Programs that end after a few steps, so that every tool ends on them too."""
    out = []
    for kind in ('halt', 'spin'):
        for p in ended[kind]:
            rows = sim.parse(p)
            if max(sim.dims(rows)) > 8:
                continue
            r = sim.Prog(rows).facts(3000)
            if r['status'] == 'halt' or r['spin'] is not None:
                out.append(p)
    return out
