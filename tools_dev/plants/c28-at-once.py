import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c28-at-once', 'C28'
EDITS = [('just_so.py', "    if CANT_REACH(prog, CYCLES) is not None:\n", "    if CANT_REACH(prog, CYCLES):\n")]
NEEDS = 'a program that is refuted at depth zero, that is, without any step backwards'
BREAKS = 'programs refuted at once are printed as holdouts'
COPY = {**NATIVE}
DEMO_PY = HEADN + '''
import subprocess
boot = tmp + '/boot.py'
open(boot, 'w').write("""import sys
sys.path.insert(0, %r)
from kit import rust
rust.install()
import runpy
sys.argv = ['just_so.py', '--blank', '--cycles', '50']
sys.path.insert(0, %r)
runpy.run_path('just_so.py', run_name='__main__')
""" % (tmp, os.getcwd()))
r = subprocess.run([sys.executable, boot], input='1RB 1LB  1LA 1RB\\n1RB 0LA  1LB 1RA\\n', capture_output=True, text=True)
print(r.stdout, r.stderr[-500:])
assert N.py_cant_blank('1RB 1LB  1LA 1RB', 50) == 0
assert r.stdout == '1RB 0LA  1LB 1RA\\n', r.stdout
'''
