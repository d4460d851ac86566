"""Internals of the native code, driven through functions appended to a copy of its sources."""
import array
import ctypes

from . import paths, rust

_libs = {}
MISSING = {}


def lib(name):
    """The native library with one probe, or None when it does not fit the sources (any more)."""
    if name not in _libs and name not in MISSING:
        text = (paths.VERIF / 'bbv' / 'probes' / f'{name}.rs').read_text()
        try:
            so = rust.load('ship', {'tag': f'probe-{name}', f'{name}.rs': text})._lib
        except rust.BuildError as e:
            rust.build('ship')          # the sources themselves must compile
            MISSING[name] = str(e)
            return None
        f = getattr(so, f'bbv_{name}')
        f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_size_t]
        f.restype = ctypes.c_ssize_t
        _libs[name] = so
    return _libs.get(name)


CAP = 1 << 22
_out = None


def call(name, ops, code):
    """Lines written by the probe; None when the native code panics."""
    global _out
    if _out is None:
        _out = ctypes.create_string_buffer(CAP)
    a = array.array(code, ops)
    n = getattr(lib(name), f'bbv_{name}')(a.buffer_info()[0], len(a), _out, CAP)
    if n == -1:
        return None
    assert n >= 0, n
    return ctypes.string_at(_out, n).decode().split('\n')[:-1]


def tape(ops):
    return call('tape', ops, 'q')


def rules(ops):
    return call('rules', ops, 'Q')


def macros(ops):
    return call('macros', ops, 'Q')
