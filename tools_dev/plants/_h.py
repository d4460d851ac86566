import pathlib
STUB = {'stub.py': (pathlib.Path(__file__).parent / '_stub.py').read_text()}
HEAD = 'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport stub\n'
_V = pathlib.Path(__file__).resolve().parents[2]
NATIVE = {str(_V / 'rust'): 'rust', str(_V / 'bbv/rust.py'): 'rust_build.py', str(_V / 'bbv/paths.py'): 'paths.py'}
HEADN = '''import os, shutil, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp(prefix='demo-')
import atexit
atexit.register(shutil.rmtree, tmp, True)
os.makedirs(tmp + '/kit')
shutil.copytree(here + '/rust', tmp + '/rust')
shutil.copy(here + '/rust_build.py', tmp + '/kit/rust.py')
shutil.copy(here + '/paths.py', tmp + '/kit/paths.py')
open(tmp + '/kit/__init__.py', 'w').close()
os.environ['BBV_REPO'] = os.getcwd()
sys.path.insert(0, tmp)
from kit import rust
N = rust.install()


def naive(prog, lim):
    """Steps one by one: (why it stopped, steps, state, tape)."""
    rows = [[None if '.' in x else (int(x[0]), x[1] == 'R', ord(x[2]) - 65) for x in r.split(' ')]
            for r in prog.split('  ')]
    tape, pos, st, lo, hi = {}, 0, 0, 0, 0
    for n in range(lim):
        ins = rows[st][tape.get(pos, 0)]
        if ins is None:
            return 'undfnd', n, st, tape
        c, sh, nx = ins
        if nx == st and not tape.get(pos, 0) and not any(v for p, v in tape.items() if (p > pos if sh else p < pos)):
            return 'spnout', n, st, tape
        tape[pos] = c
        pos += 1 if sh else -1
        st = nx
    return 'limit', lim, st, tape
'''
