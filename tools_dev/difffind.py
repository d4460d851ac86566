"""difffind.py MODE FILE < "old ==> new": programs on which a change of FILE shows, and how they really end.
MODE: py, quick, rprover, cant_halt, cant_blank, cant_spin_out, term, segment."""
import json, os, pathlib, random, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent

WORK = r'''
import sys, json, random, signal
sys.path.insert(0, "/verif")
from multiprocessing import Pool
from bbv import gen, sim
mode = sys.argv[1]
from bbv import pyload
if mode == "py":
    pyload.load()
    from tm.machine import Machine
else:
    from bbv import rust
    N = rust.install()
def progs():
    r = random.Random(7)
    out = []
    if mode in ("py", "rprover"):
        d = json.load(open("/verif/bbv/data/ruleends.json")) 
        out += d
        out += json.load(open("/verif/bbv/data/ruleprogs.json"))["quick"]
    out += gen.pool(r)[:6000] if mode == "py" else gen.pool(r)
    if mode not in ("py",):
        for _ in range(60000):
            ns, nc = r.choice(((2,2),(3,2),(2,3),(2,4),(3,3),(4,2),(5,2)))
            out.append(sim.show(gen.tree_prog(r, ns, nc)))
    return [sim.show(p) if not isinstance(p, str) else p for p in out]
def one(p):
    signal.alarm(10)
    try:
        if mode == "py":
            m = Machine(p).run(sim_lim=3000)
            return str(m)
        if mode == "quick":
            return repr(N.run_quick_machine(p, 5000))
        if mode == "rprover":
            return repr(N.run_prover(p, 3000))
        if mode == "term":
            return str(N.py_quick_term_or_rec(p, 300))
        if mode == "segment":
            return str(N.py_segment_cant_halt(p, PARAMS(p), 8))
        return str(getattr(N, "py_" + mode)(p, 60))
    except BaseException as e:
        return type(e).__name__
    finally:
        signal.alarm(0)
def PARAMS(p):
    r = p.split("  ")
    return len(r), len(r[0].split(" "))
def h(*a): raise TimeoutError
signal.signal(signal.SIGALRM, h)
ps = list(dict.fromkeys(progs()))
with Pool(4) as pool:
    for p, v in zip(ps, pool.map(one, ps, chunksize=64)):
        print(p, "@@", v.replace(p, "P"))
'''
mode, file = sys.argv[1:3]
old, new = sys.stdin.read().strip('\n').split('\n==>\n')
d = '/tmp/fd/mut'
shutil.rmtree(d, ignore_errors=True)
subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
s = open(f'{d}/{file}').read()
assert s.count(old) == 1, s.count(old)
open(f'{d}/{file}', 'w').write(s.replace(old, new))
open('/tmp/fd/work.py', 'w').write(WORK)
def run(repo):
    r = subprocess.run([sys.executable, '/tmp/fd/work.py', mode], env={**os.environ, 'BBV_REPO': repo}, capture_output=True, text=True)
    if r.returncode: print(r.stderr[-2000:])
    return r.stdout.split('\n')
base = f'/tmp/fd/base-{mode}'
if not os.path.exists(base):
    open(base, 'w').write('\n'.join(run('/repo')))
a, b = open(base).read().split('\n'), run(d)
print(len(a), len(b))
k = 0
sys.path.insert(0, '/verif')
for x, y in zip(a, b):
    if x != y:
        k += 1
        if k < 12:
            print(x.split(' @@ ')[0], '\n   ', x.split(' @@ ')[1][:220], '\n   ', y.split(' @@ ')[1][:220])
print(k, 'differ')
