"""Run the repository's command line scripts, with the native module they need."""
import os
import pathlib
import pty
import select
import subprocess
import sys
import tempfile
import threading
import time

from . import paths

STUB = '''
import os, sys, runpy
sys.path.insert(0, {verif!r})
from bbv import pyload
pyload.load({native!r})
sys.argv = {argv!r}
{before}
runpy.run_path({path!r}, run_name='__main__')
'''


class Died(Exception):
    pass


def run(script, args, text, *, out='pipe', inp='pipe', native=False, before='', unbuffered=False,
        env=None, timeout=120, during=None, pieces=None):
    """(exit code, standard output, standard error)."""
    stub = STUB.format(verif=str(paths.VERIF), native=native, argv=[script, *args], before=before,
                       path=str(paths.REPO / script))
    e = {k: v for k, v in os.environ.items() if k != 'PYTHONUNBUFFERED'}
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    if unbuffered:
        e['PYTHONUNBUFFERED'] = '1'
    e.update(env or {})
    with tempfile.TemporaryDirectory(dir=paths.build_dir()) as d:
        d = pathlib.Path(d)
        master = None
        if out == 'file':
            stdout = open(d / 'out', 'wb')
        elif out == 'pty':
            master, stdout = pty.openpty()
        else:
            stdout = subprocess.PIPE
        if inp == 'file':
            (d / 'in').write_text(text)
            stdin = open(d / 'in', 'rb')
        else:
            stdin = subprocess.PIPE
        p = subprocess.Popen([sys.executable, '-c', stub], cwd=d, env=e, stdin=stdin, stdout=stdout,
                             stderr=subprocess.PIPE, start_new_session=True)
        got = {'out': b'', 'err': b''}

        def pump(name, fd):
            while True:
                try:
                    b = os.read(fd, 65536)
                except OSError:
                    break
                if not b:
                    break
                got[name] += b

        threads = [threading.Thread(target=pump, args=('err', p.stderr.fileno()))]
        if out == 'pipe':
            threads.append(threading.Thread(target=pump, args=('out', p.stdout.fileno())))
        elif out == 'pty':
            os.close(stdout)
            threads.append(threading.Thread(target=pump, args=('out', master)))
        if inp != 'file':
            def feed():
                try:
                    data = text.encode()
                    n = pieces or max(1, len(data))
                    for i in range(0, len(data), n):
                        p.stdin.write(data[i:i + n])
                        p.stdin.flush()
                        if pieces:
                            time.sleep(.01)
                    p.stdin.close()
                except OSError:
                    pass
            threads.append(threading.Thread(target=feed))
        for t in threads:
            t.start()
        try:
            if during:
                during(p)
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
        for t in threads:
            t.join(20)
        if master is not None:
            os.close(master)
        if out == 'file':
            stdout.close()
            got['out'] = (d / 'out').read_bytes()
    return (rc, got['out'].decode('utf-8', 'replace').replace('\r\n', '\n'),
            got['err'].decode('utf-8', 'replace'))
