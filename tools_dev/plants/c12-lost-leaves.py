import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c12-lost-leaves', 'C12'
EDITS = [('src/tree.rs', "        access(&progs).push(comp.show(Some(params)));\n", "        let prog = comp.show(Some(params));\n\n        for _ in 0..64 {\n            if let Ok(mut progs) = progs.try_lock() {\n                progs.push(prog);\n                return;\n            }\n        }\n")]
NEEDS = 'another thread holding the list of programs for as long as 64 attempts to take it'
BREAKS = 'programs are dropped when the lock on the result is contended'
COPY = NATIVE
DEMO_PY = HEADN + '''
seen = {len(N.tree_progs((3, 2), False, 200)) for _ in range(3)} | {len(N.tree_progs((2, 3), False, 200)) for _ in range(3)}
a = [len(N.tree_progs((3, 2), False, 200)) for _ in range(25)]
b = [len(set(N.tree_progs((2, 3), False, 200))) for _ in range(25)]
print(set(a), set(b))
assert len(set(a)) == 1 and len(set(b)) == 1
os.environ['RAYON_NUM_THREADS'] = '1'
import subprocess
c = subprocess.run([sys.executable, '-c', "import sys; sys.path.insert(0, %r)\\nfrom kit import rust\\nN = rust.install()\\nprint(len(N.tree_progs((3, 2), False, 200)), len(N.tree_progs((2, 3), False, 200)))" % tmp], capture_output=True, text=True)
assert c.stdout.split() == [str(a[0]), str(b[0])], (c.stdout, c.stderr, a[0], b[0])
'''
