"""mut.py CHECK[,CHECK] FILE: for each "old ==> new" block on standard input (separated by ----), run the
checks against a copy of /repo with that change."""
import os, shutil, subprocess, sys
checks, file = sys.argv[1].split(','), sys.argv[2]
for i, m in enumerate(sys.stdin.read().split('\n----\n')):
    old, new = m.strip('\n').split('\n==>\n') if '\n==>\n' in m else m.strip('\n').split(' ==> ')
    d = f'/tmp/mut-{os.getpid()}-{i}'
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    p = f'{d}/{file}'
    s = open(p).read()
    if s.count(old) < 1:
        print('??', repr(old)); shutil.rmtree(d); continue
    open(p, 'w').write(s.replace(old, new, 1))
    if os.environ.get('MUT_TEST'):      # only changes that the stable tests let pass
        ns = ['/verif/tools_dev/inns.sh', d, 'bash']
        t = subprocess.run([*ns, '-c', 'bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json'], capture_output=True, text=True)
        if '67 passed' not in t.stdout:
            print('tests fail', repr(new[:60]), flush=True); shutil.rmtree(d); continue
    for c in checks:
        r = subprocess.run(['./check', c], cwd='/verif', env={**os.environ, 'BBV_REPO': d}, capture_output=True, text=True)
        t = [l for l in r.stdout.split('\n') if l and not l.startswith(('KNOWN', 'VIOL'))]
        print(c, 'rc', r.returncode, repr(new[:60]), '|', (t[-1] if r.returncode else '')[:160] or r.stderr[-100:], flush=True)
    shutil.rmtree(d)
    import hashlib
    shutil.rmtree('/verif/build/alt-' + hashlib.sha1(d.encode()).hexdigest()[:10], ignore_errors=True)
