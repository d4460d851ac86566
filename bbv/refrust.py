"""A plain Python reading of what the native helper functions are documented to do.
Two uses: the reference the native ones are compared with, and a stand-in that lets the
Python-only checks answer when the native sources do not compile."""
import types

from . import sim


def read_color(c):
    if not ('0' <= c <= '9'):
        raise ValueError(c)
    return int(c)


def read_instr(s):
    if '.' in s:
        return None
    return read_color(s[0]), s[1] == 'R', ord(s[2]) - 65


def read_slot(s):
    return ord(s[0]) - 65, read_color(s[1])


def show_state(state):
    return '.' if state is None else chr(state + 65)


def show_slot(slot):
    return f'{show_state(slot[0])}{slot[1]}'


def show_instr(i):
    return '...' if i is None else f"{i[0]}{'R' if i[1] else 'L'}{show_state(i[2])}"


def tcompile(prog):
    return {
        (s, c): i
        for s, row in enumerate(prog.strip().split('  '))
        for c, t in enumerate(row.split(' '))
        if (i := read_instr(t)) is not None
    }


def py_show_comp(comp, params=None):
    if params is None:
        ms = max([1] + [s for s, _ in comp] + [i[2] for i in comp.values()])
        mc = max([1] + [c for _, c in comp] + [i[0] for i in comp.values()])
        params = ms + 1, mc + 1
    return '  '.join(
        ' '.join(show_instr(comp.get((s, c))) for c in range(params[1]))
        for s in range(params[0]))


class PastConfigs:
    """Cycles at which a state was seen; proposes three further intervals when the last five
    cycles fit  next = i * last + linear."""

    def __init__(self, state, cycle):
        self.configs = {state: [cycle]}

    def next_deltas(self, state, cycle):
        cs = self.configs.setdefault(state, [cycle])
        cs.append(cycle)
        if len(cs) < 5:
            return None
        e, d, c, b, a = cs
        del cs[0]
        for i in range(1, 5):
            p1, p2, p3, p4 = a - b * i, b - c * i, c - d * i, d - e * i
            diff = p1 - p2
            if p2 - p3 != diff or p3 - p4 != diff:
                continue
            n1 = a * i + p1 + diff
            n2 = n1 * i + p1 + 2 * diff
            n3 = n2 * i + p1 + 3 * diff
            if a > n1 or n1 > n2 or n2 > n3:
                return None
            return n1 - a, n2 - n1, n3 - n2
        return None

    def delete_configs(self, state):
        self.configs.pop(state, None)


def cells_after(prog, cycles):
    """(cells lspan..scan..rspan, blocks history) after `cycles` compressed steps."""
    comp = tcompile(prog)
    left, scan, right = [], 0, []      # nearest cell last
    state = 0
    hist = []
    for _ in range(cycles):
        hist.append((tuple(left), scan, tuple(right)))
        ins = comp.get((state, scan))
        if ins is None:
            return None
        color, shift, nxt = ins
        pull, push = (right, left) if shift else (left, right)
        same = nxt == state
        if same and scan == 0 and not pull:
            return None
        n = 1
        if same:
            while pull and pull[-1] == scan:
                pull.pop()
                n += 1
        new = pull.pop() if pull else 0
        if push or color:
            push.extend([color] * n)
        scan = new
        state = nxt
    return hist, (tuple(left), scan, tuple(right))


def n_blocks(left, right):
    def one(xs):
        return sum(1 for i, x in enumerate(xs) if i == 0 or xs[i - 1] != x)
    return one(left) + one(right)


def py_opt_block(prog, steps):
    r = cells_after(prog, steps)
    if r is None:
        return 1
    hist, _ = r
    best, at = 0, 0
    for i, (left, _, right) in enumerate(hist, start=1):
        b = n_blocks(left, right)
        if b > best:
            best, at = b, i
    r = cells_after(prog, at)
    left, scan, right = r[1]
    tape = list(left) + [scan] + list(reversed(right))
    opt, least = 1, 1 + len(tape)
    for size in range(1, len(tape) // 2):
        comp = len(tape)
        for i in range(0, len(tape) - 2 * size, size):
            if tape[i:i + size] == tape[i + size:i + 2 * size]:
                comp -= size
        if comp < least:
            least, opt = comp, size
    return opt


def module():
    m = types.ModuleType('tm.rust_stuff')

    def gone(name):
        def f(*a, **k):
            raise NotImplementedError(f'{name}: native code did not compile')
        return f

    for n in ('py_cant_blank', 'py_cant_halt', 'py_cant_spin_out', 'py_segment_cant_halt',
              'py_quick_term_or_rec', 'run_prover', 'run_quick_machine', 'tree_progs',
              'py_is_connected'):
        setattr(m, n, gone(n))
    for n in ('read_instr', 'read_slot', 'show_state', 'show_slot', 'show_instr', 'tcompile',
              'py_show_comp', 'PastConfigs', 'py_opt_block'):
        setattr(m, n, globals()[n])
    m.TermRes = m.MachineResult = type('Absent', (), {})
    m.is_reference = True
    return m
