"""plant.py FILE.py: FILE defines ID, PROPERTY, EDITS [(path, old, new)], DEMO (text of demo.sh or of
demo.py), FILES {name: text}, NEEDS, BREAKS.  Confirms the change in a scratch copy and keeps it."""
import json, pathlib, runpy, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    out = V / 'seeded' / d['ID']
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='plant-', dir='/tmp'))
    repo, demo = tmp / 'repo', tmp / 'demo'
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        demo.mkdir()
        if 'DEMO_PY' in d:
            (demo / 'demo.py').write_text(d['DEMO_PY'])
            (demo / 'demo.sh').write_text('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        else:
            (demo / 'demo.sh').write_text(d['DEMO'])
        for n, t in d.get('FILES', {}).items():
            p = demo / n
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(t)
        for src, n in d.get('COPY', {}).items():
            (shutil.copytree if pathlib.Path(src).is_dir() else shutil.copy)(src, demo / n)
        run = lambda: subprocess.run(['bash', demo / 'demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
        r = run()
        if r.returncode:
            print(d['ID'], 'demo fails on the clean tree', r.stdout[-1500:], r.stderr[-1500:]); continue
        for path, old, new in d['EDITS']:
            s = (repo / path).read_text()
            if s.count(old) != 1:
                print(d['ID'], path, 'matches', s.count(old)); break
            (repo / path).write_text(s.replace(old, new))
        else:
            r = run()
            if r.returncode == 0:
                print(d['ID'], 'demo passes with the change', r.stdout[-500:]); continue
            last = (r.stdout + r.stderr).strip().split('\n')[-1]
            diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
            # stable tests against the copy
            ns = [V / 'tools_dev' / 'inns.sh', repo, 'bash']
            b = subprocess.run([*ns, '/opt/vp/build.sh'], capture_output=True, text=True)
            t = subprocess.run([*ns, '/opt/vp/test.sh', tmp / 'o.json'], capture_output=True, text=True)
            if b.returncode or '67 passed' not in t.stdout:
                print(d['ID'], 'tests:', t.stdout.strip().split('\n')[-1], b.stderr[-300:]); continue
            if out.exists():
                shutil.rmtree(out)
            shutil.copytree(demo, out, ignore=shutil.ignore_patterns('__pycache__', 'target'))
            (out / 'patch.diff').write_text(diff)
            (out / 'meta.json').write_text(json.dumps({'property': d['PROPERTY'], 'needs': d['NEEDS'],
                                                       'what_it_breaks': d['BREAKS']}, indent=1) + '\n')
            print(d['ID'], 'planted;', last[:200])
    finally:
        shutil.rmtree(tmp)
