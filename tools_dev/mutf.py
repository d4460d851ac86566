"""mutf.py < blocks: like mut.py, each block headed by "@ FILE CHECK[,CHECK]"; old and new split by ==> lines."""
import hashlib, os, shutil, subprocess, sys
for i, m in enumerate(sys.stdin.read().split('\n----\n')):
    head, m = m.strip('\n').split('\n', 1)
    _, file, checks = head.split()
    old, new = m.strip('\n').split('\n==>\n')
    d = f'/tmp/mut-{os.getpid()}-{i}'
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    p = f'{d}/{file}'
    s = open(p).read()
    tag = f'#{i} {file} {new.strip()[:70]!r}'
    if s.count(old) < 1:
        print('??', tag, flush=True); shutil.rmtree(d); continue
    open(p, 'w').write(s.replace(old, new, 1))
    if os.environ.get('MUT_TEST'):
        ns = ['/verif/tools_dev/inns.sh', d, 'bash']
        t = subprocess.run([*ns, '-c', 'bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json'], capture_output=True, text=True)
        if '67 passed' not in t.stdout:
            print('tests fail', tag, flush=True); shutil.rmtree(d); continue
    for c in checks.split(','):
        r = subprocess.run(['./check', c], cwd='/verif', env={**os.environ, 'BBV_REPO': d}, capture_output=True, text=True)
        t = [l for l in r.stdout.split('\n') if l and not l.startswith(('KNOWN', 'VIOL'))]
        print(c, 'rc', r.returncode, tag, '|', (t[-1] if r.returncode else '')[:160] or r.stderr[-100:], flush=True)
        if r.returncode == 1:
            break
    shutil.rmtree(d)
    shutil.rmtree('/verif/build/alt-' + hashlib.sha1(d.encode()).hexdigest()[:10], ignore_errors=True)
