"""Independent program text handling and the ctypes face of naive.c."""
import ctypes
import os
import subprocess
from array import array

from . import paths

LIMIT, UNDEF, SPIN, NOSPACE, HIT, BLANKREP = range(6)
STATUS = ['limit', 'undef', 'spin', 'nospace', 'hit', 'blankrep']

_lib = None


def lib():
    global _lib
    if _lib is None:
        so = paths.build_dir() / 'naive.so'
        src = paths.VERIF / 'bbv' / 'naive.c'
        with paths.lock('naive'):
            if not so.exists() or so.stat().st_mtime < src.stat().st_mtime:
                tmp = so.with_suffix(f'.{os.getpid()}.tmp')
                subprocess.run(['cc', '-O2', '-shared', '-fPIC', str(src), '-o', str(tmp)],
                               check=True)
                os.replace(tmp, so)
        _lib = ctypes.CDLL(str(so))
        i64, p, c = ctypes.c_int64, ctypes.c_void_p, ctypes.c_int
        _lib.naive_run.argtypes = [p, c, c, p, i64, i64, c, i64, i64, c, p, p, p, p, i64]
        _lib.naive_reach.argtypes = [p, c, c, p, i64, i64, c, p, i64, i64, c, i64, i64, i64, p]
        _lib.naive_facts.argtypes = [p, c, c, i64, i64, p]
    return _lib


# ------------------------------------------------------------ program text

def parse(prog):
    """text -> list of rows of (color, right, state) or None."""
    rows = []
    for part in prog.strip().split('  '):
        row = []
        for ins in part.split(' '):
            if '.' in ins or ins == '---':
                row.append(None)
            else:
                row.append((int(ins[0]), ins[1] == 'R', ord(ins[2]) - 65))
        rows.append(row)
    return rows


def show(rows):
    return '  '.join(' '.join(
        '...' if i is None else f"{i[0]}{'R' if i[1] else 'L'}{chr(65 + i[2])}"
        for i in row) for row in rows)


def dims(rows):
    return len(rows), max(len(r) for r in rows)


def comp(rows):
    return {(s, c): i for s, row in enumerate(rows) for c, i in enumerate(row) if i is not None}


class Prog:
    """A program table in the form naive.c takes.  `rows` may come from text or
    from a (state, color) -> instr mapping of any size."""

    def __init__(self, rows):
        if isinstance(rows, str):
            rows = parse(rows)
        self.rows = rows
        self.ns, self.nc = dims(rows)
        a = array('i')
        for row in rows:
            for c in range(self.nc):
                i = row[c] if c < len(row) else None
                a.extend((-1, 0, 0) if i is None else (i[0], int(i[1]), i[2]))
        self.table = a
        self._ptr = a.buffer_info()[0]

    def run(self, maxsteps, init=b'', head=0, state=0, flags=1, tapecap=1 << 22,
            want_cells=0, counts=False):
        out = array('q', [0] * 8)
        blanks = array('q', [0] * max(1, self.ns + 64))
        cells = ctypes.create_string_buffer(want_cells) if want_cells else None
        cnt = array('q', [0] * (self.ns * self.nc)) if counts else None
        lib().naive_run(self._ptr, self.ns, self.nc, bytes(init), len(init), head, state,
                        maxsteps, tapecap, flags, out.buffer_info()[0],
                        blanks.buffer_info()[0], cnt.buffer_info()[0] if counts else None,
                        cells, want_cells)
        r = {
            'status': STATUS[out[0]], 'steps': out[1], 'state': out[2], 'scan': out[3],
            'marks': out[4], 'head': out[5], 'width': out[6],
            'blanks': {s: blanks[s] for s in range(self.ns) if blanks[s] >= 0},
        }
        if want_cells:
            r['cells'] = bytes(cells.raw[:out[6]]) if out[6] <= want_cells else None
        if counts:
            r['counts'] = cnt
        return r

    def reach(self, init, head, state, target, thead, tstate, maxsteps, minsteps=1,
              tapecap=1 << 22):
        out = array('q', [0] * 4)
        lib().naive_reach(self._ptr, self.ns, self.nc, bytes(init), len(init), head, state,
                          bytes(target), len(target), thead, tstate, minsteps, maxsteps,
                          tapecap, out.buffer_info()[0])
        return STATUS[out[0]], out[1]

    def facts(self, maxsteps, tapecap=1 << 22):
        out = array('q', [0] * 8)
        lib().naive_facts(self._ptr, self.ns, self.nc, maxsteps, tapecap, out.buffer_info()[0])
        return {
            'status': STATUS[out[0]], 'steps': out[1],
            'spin': out[2] if out[2] >= 0 else None,
            'blank': out[3] if out[3] >= 0 else None,
            'marks': out[4], 'state': out[5], 'scan': out[6],
            'blankrep': out[7] if out[7] >= 0 else None,
        }
