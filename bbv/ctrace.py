"""Compile and watch C translations of Turing machines (see ctrace.h)."""
import os
import pathlib
import subprocess

from . import paths, sim

HERE = pathlib.Path(__file__).resolve().parent
FLAGS = ['-O0', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
         '-fno-sanitize-recover=all', '-fsanitize-coverage=inline-8bit-counters,trace-stores', '-w']
ENV = {**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0',
       'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=98'}


def table(rows, stop):
    """rows: sim tables; stop(instr or None) -> (color, shift, trans) with trans -1/-2."""
    out = []
    for row in rows:
        out.append('{' + ','.join('{%d,%d,%d}' % stop(x) for x in row) + '}')
    return '{' + ','.join(out) + '}'


def plain(x):
    if x is None:
        return 0, 0, -2
    return x[0], 1 if x[1] else -1, x[2] if 0 <= x[2] < 26 else -1


def convention(x):
    """An undefined instruction stands for writing a mark, stepping right and stopping."""
    return plain((1, True, -1) if x is None else x)


class Built:
    def __init__(self, exe, error, unwatched=False):
        self.exe, self.error, self.unwatched = exe, error, unwatched

    def run(self, timeout=120):
        p = subprocess.run([self.exe], capture_output=True, text=True, env=ENV, timeout=timeout,
                           errors='replace')
        return p.returncode, p.stdout, p.stderr

    def remove(self):
        if self.exe:
            pathlib.Path(self.exe).unlink(missing_ok=True)


def build(name, source, tab, colors, xlimit, limit, *, skip_return=False, may_leave=False,
          start=0, need=None):
    d = paths.build_dir() / 'ctrace'
    d.mkdir(exist_ok=True)
    exe = d / name
    defs = [f'-DBBV_SOURCE="{source}"', f'-DBBV_TABLE={tab}', f'-DBBV_COLORS={colors}',
            f'-DXLIMIT={xlimit}', f'-DBBV_START={start}', f'-DBBV_LIMIT={limit}L',
            f'-I{paths.REPO}/machines/structured']
    if skip_return:
        defs.append('-DBBV_SKIP_RETURN')
    if need:
        defs += [f'-DBBV_NEED_MIN={need[0]}', f'-DBBV_NEED_MAX={need[1]}']
    if may_leave:
        defs.append('-DBBV_MAY_LEAVE')
    c = d / f'{name}.c'
    c.write_text(f'#include "{HERE}/ctrace.h"\n')
    p = subprocess.run(['clang', *FLAGS, *defs, str(c), '-o', str(exe)], capture_output=True,
                       text=True, errors='replace')
    c.unlink()
    if p.returncode:
        # Is it the program, or only what the monitor knows of it?
        q = subprocess.run(['clang', '-O0', '-g', '-fsanitize=address,undefined', '-w',
                            '-fno-sanitize-recover=all', *defs[3:], str(source), '-o', str(exe)],
                           capture_output=True, text=True, errors='replace')
        if q.returncode:
            return Built(None, q.stderr)
        return Built(str(exe), None, True)
    return Built(str(exe), None)


def result(rc, out, err):
    """(violation or None, how it ended, numbers)."""
    bad = [x for x in out.splitlines() if x.startswith('BAD ')]
    end = [x for x in out.splitlines() if x.startswith('END ')]
    if bad:
        return bad[0][4:], None, {}
    if rc == 0 and end:
        words = end[-1].split()
        how = [w for w in words[1:] if '=' not in w]
        nums = {k: int(v) for k, v in (w.split('=') for w in words if '=' in w)}
        return None, ' '.join(how), nums
    lines = [x for x in err.splitlines() if 'runtime error' in x or 'ERROR: ' in x or 'SUMMARY' in x]
    return f'exit {rc}: ' + (lines[0] if lines else (err or out)[-200:]), None, {}
