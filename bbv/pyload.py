"""Import the Python code under test, with the native module it needs."""
import sys

from . import paths, refrust, rust

NATIVE_ERROR = None


def load(need_native=False):
    global NATIVE_ERROR
    if str(paths.REPO) not in sys.path:
        sys.path.insert(0, str(paths.REPO))
    if 'tm.rust_stuff' in sys.modules:
        return sys.modules['tm.rust_stuff']
    try:
        m = rust.load()
    except rust.BuildError as e:
        NATIVE_ERROR = str(e)
        if need_native:
            raise
        m = refrust.module()
    return rust.install(m)


def reference_only():
    """Python checks that should not depend on the native build at all."""
    if str(paths.REPO) not in sys.path:
        sys.path.insert(0, str(paths.REPO))
    if 'tm.rust_stuff' not in sys.modules:
        rust.install(refrust.module())
