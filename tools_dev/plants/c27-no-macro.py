import sys, pathlib; sys.path.insert(0, str(pathlib.Path(__file__).parent)); from _h import *
ID, PROPERTY = 'c27-no-macro', 'C27'
EDITS = [('dump_macros.py', "        if not isinstance(macro := machine.program, MacroProg):\n            continue\n", "        if not isinstance(macro := machine.program, MacroProg):\n            break\n")]
NEEDS = 'a program without a macro followed by one with a macro on standard input'
BREAKS = 'the programs after one that has no macro are not processed'
COPY = {**NATIVE}
DEMO_PY = HEADN + '''
import subprocess
boot = tmp + '/boot.py'
open(boot, 'w').write("""import sys
sys.path.insert(0, %r)
from kit import rust
rust.install()
import runpy
sys.argv = ['dump_macros.py']
sys.path.insert(0, %r)
runpy.run_path('dump_macros.py', run_name='__main__')
""" % (tmp, os.getcwd()))
ps = ['1RB 1LB  1LA ...', '1RB 1LC  1RC 1RB  1RD 0LE  1LA 1LD  ... 0LA']
assert N.py_opt_block(ps[0], 2000) == 1 and N.py_opt_block(ps[1], 2000) > 1
run = lambda x: subprocess.run([sys.executable, boot], input=''.join(p + '\\n' for p in x), capture_output=True, text=True)
a, b = run(ps), run(ps[1:])
print(b.stdout, b.stderr[-300:])
assert a.stdout == b.stdout != '', a.stdout
'''
