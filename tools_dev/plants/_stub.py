"""Stand-in for the native module, enough for the Python code."""
import sys
import types


def read_instr(s):
    return None if '.' in s else (int(s[0]), s[1] == 'R', ord(s[2]) - 65)


def show_state(s):
    return '.' if s is None else chr(s + 65)


def show_instr(i):
    return '...' if i is None else f"{i[0]}{'R' if i[1] else 'L'}{show_state(i[2])}"


def show_slot(s):
    return f'{show_state(s[0])}{s[1]}'


def tcompile(prog):
    return {(s, c): i for s, row in enumerate(prog.strip().split('  '))
            for c, t in enumerate(row.split(' ')) if (i := read_instr(t)) is not None}


class PastConfigs:
    def __init__(self, state, cycle):
        self.cfgs = {state: [cycle]}

    def next_deltas(self, state, cycle):
        c = self.cfgs.setdefault(state, [])
        c.append(cycle)
        if len(c) < 5:
            return None
        c[:] = c[-5:]
        a, b, d, e, f = c
        for q in range(1, 4):
            x, y, z, w = f - e, e - d, d - b, b - a
            if x == y == z == w:
                return (x, x, x)
        return None

    def delete_configs(self, state):
        self.cfgs.pop(state, None)


m = types.ModuleType('tm.rust_stuff')
m.__dict__.update(read_instr=read_instr, show_state=show_state, show_instr=show_instr, show_slot=show_slot,
                  tcompile=tcompile, read_slot=lambda s: (ord(s[0]) - 65, int(s[1])), PastConfigs=PastConfigs,
                  py_opt_block=lambda *a: 1, run_prover=None, py_quick_term_or_rec=None,
                  py_show_comp=lambda *a: '', py_is_connected=None)
sys.path.insert(0, '.')
import tm
sys.modules['tm.rust_stuff'] = m
tm.rust_stuff = m
