"""Where things are.  BBV_REPO lets a developer point the checks at a scratch
copy; the registered commands use the default."""
import contextlib
import fcntl
import hashlib
import os
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('BBV_REPO', '/repo')).resolve()


def build_root():
    p = VERIF / 'build'
    p.mkdir(exist_ok=True)
    return p


def build_dir():
    name = 'main' if str(REPO) == '/repo' else 'alt-' + hashlib.sha1(str(REPO).encode()).hexdigest()[:10]
    p = build_root() / name
    p.mkdir(exist_ok=True)
    return p


@contextlib.contextmanager
def lock(name):
    with open(build_dir() / f'.{name}.lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield
