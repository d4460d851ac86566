"""One computation of the library, named by plain data, and a text that says all about its result."""
import hashlib
import signal
import sys


class Slow(Exception):
    pass


def num(x):
    if isinstance(x, int):
        return f'{x:x}' if x.bit_length() < 2000 else hashlib.sha256(f'{x:x}'.encode()).hexdigest()
    if x.leaves > 400:
        return f'{type(x).__name__} of {x.leaves} leaves, depth {x.depth}'
    return str(x)


def tape(t):
    return ' '.join([*(f'{b.color}^{num(b.count)}' for b in t.lspan), f'[{t.scan}]',
                     *(f'{b.color}^{num(b.count)}' for b in t.rspan)])


def value(x):
    if isinstance(x, dict):
        return '{' + ', '.join(f'{value(k)}: {value(v)}' for k, v in x.items()) + '}'
    if isinstance(x, tuple):
        return '(' + ', '.join(map(value, x)) + ')'
    if isinstance(x, (set, frozenset)):
        return 'set ' + ', '.join(sorted(map(value, x)))
    if hasattr(x, 'leaves'):
        return num(x)
    return num(x) if type(x) is int else repr(x)


def report(m):
    out = []
    for name in ('steps', 'cycles', 'blanks', 'infrul', 'limrul', 'cfglim', 'susrul', 'undfnd', 'spnout',
                 'xlimit', 'rulapp'):
        x = getattr(m, name, None)
        if x is not None:
            out.append(f'{name} {value(x)}')
    out.append('marks ' + num(m.marks))
    out.append('tape ' + tape(m.tape))
    out.append(f'configs {m.prover.config_count}')
    rules = m.prover.rules
    out.append('rules ' + ' / '.join(
        f'{slot} {len(rules[slot])}' for slot in sorted(rules)))
    return '\n'.join(out)


def machine(prog, kw, lim, twice):
    from tm.machine import Machine
    if 'params' in kw:
        kw = {**kw, 'params': tuple(kw['params'])}
    m = Machine(prog, **kw)
    out = report(m.run(sim_lim=lim))
    if twice:
        report(m.run(sim_lim=lim // 8))
        again = report(m.run(sim_lim=lim))
        if again != out:
            return f'{out}\nBUT AGAIN {again}'
    return out


def macro(prog, kw, slots):
    """The instructions of a macro at the slots that a walk through it names."""
    from tm.macro import make_macro
    from tm.tape import Tape
    m = make_macro(prog, **kw)
    out, state, t = [str(m) if not isinstance(m, dict) else 'plain'], 0, Tape()
    for _ in range(slots):
        try:
            color, shift, new = m[state, t.scan]
        except KeyError:
            out.append('undefined')
            break
        except Exception as e:      # noqa: BLE001
            out.append(type(e).__name__)
            break
        out.append(f'{state} {t.scan}: {color} {shift} {new}')
        if state == new and t.at_edge(shift):
            break
        t.step(shift, color, state == new)
        state = new
    return '\n'.join(out)


def bounce(rows, cells):
    """The longest stay in that many blank cells that ends."""
    best = 0
    for state in range(len(rows)):
        for pos in (0, cells - 1):
            tape, at, st = [0] * cells, pos, state
            for n in range(400):
                instr = rows[st][tape[at]]
                if instr is None:
                    best = max(best, n)
                    break
                tape[at], right, st = instr
                at += 1 if right else -1
                if not 0 <= at < cells:
                    best = max(best, n)
                    break
    return best


def closures(kw, seed, states, colors, count, slots):
    """The instructions of many macros, each at the slots that are named by its own instructions."""
    import random

    from bbv import gen, sim
    from tm.macro import make_macro
    rng, out = random.Random(seed), []
    for _ in range(count):
        n = kw.get('blocks') or 1 + kw['backsym']
        p = max((gen.random_prog(rng, states, colors, 0, None) for _ in range(20)),
                key=lambda rows: bounce(rows, n))
        p = sim.show(p)
        m = make_macro(p, **kw)
        row, todo, seen = [p], [(0, 0)], set()
        while todo and len(seen) < slots:
            slot = todo.pop(0)
            if slot in seen:
                continue
            seen.add(slot)
            try:
                i = m[slot]
            except Exception as e:      # noqa: BLE001
                row.append(f'{slot}: {type(e).__name__}')
                continue
            row.append(f'{slot}: {i}')
            todo += [(i[2], 0), (i[2], i[0])]
        out.append(' '.join(row))
    return '\n'.join(out)


def session(seed, domain):
    import random

    import tm.num
    from bbv import symnum
    out = []

    def see(op, v, s):
        out.append(num(v))
        return True

    def refused(op, e, t):
        out.append(type(e).__name__)

    symnum.Session(tm.num, random.Random(seed), domain, see, refused).run()
    return '\n'.join(out)


def native(name, args):
    import tm.rust_stuff as r
    return repr(getattr(r, name)(*args))


def tool(name, prog):
    if name == 'graph':
        from tools.graph import Graph
        g = Graph(prog)
        return value((str(g), g.states, g.colors, g.is_normal, g.is_connected, g.reflexive_states,
                      g.zero_reflexive_states, g.is_simple, g.is_dispersed, g.entry_points, g.exit_points,
                      g.reduced, g.is_connected))
    if name == 'normalize':
        from tools.normalize import normalize
        return normalize(prog)
    if name == 'tree_norm':
        from tools.tree_norm import tree_norm
        return tree_norm(prog)
    if name == 'make_c':
        from tools.c import make_c
        return make_c(prog)
    if name == 'make_dot':
        from tools.dot import make_dot
        return make_dot(prog)
    raise ValueError(name)


def perform(task, seconds):
    """The result as text; None when it takes too long."""
    def late(*_):
        raise Slow
    signal.signal(signal.SIGPROF, late)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return globals()[task[0]](*task[1:])
    except Slow:
        return None
    except RecursionError:
        return 'RecursionError'
    except BaseException as e:      # noqa: BLE001  (native panics are no Exceptions)
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return f'{type(e).__name__}: {e}'[:500]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def main():
    """In a process of its own: tasks on standard input, results on standard output."""
    import json
    import pathlib
    sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
    from bbv import pyload
    pyload.load()
    tasks, seconds = json.load(sys.stdin)
    sys.set_int_max_str_digits(0)
    json.dump([perform(t, seconds) for t in tasks], sys.stdout)


if __name__ == '__main__':
    main()
