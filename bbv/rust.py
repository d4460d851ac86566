"""Builds the real Rust sources of the code under test with the pyo3 stand-in in
/verif/rust and presents them as the module `tm.rust_stuff`."""
import ctypes
import filecmp
import os
import shutil
import struct
import subprocess
import sys
import types

from . import paths


class BuildError(Exception):
    pass


class PanicException(BaseException):
    """What pyo3 raises for a Rust panic (a BaseException there as well)."""


def _sync(src, dst):
    """Copy a tree, touching only files whose content changed (keeps cargo incremental)."""
    dst.mkdir(parents=True, exist_ok=True)
    names = set()
    for f in src.iterdir():
        names.add(f.name)
        if f.is_dir():
            _sync(f, dst / f.name)
        elif not (dst / f.name).exists() or not filecmp.cmp(f, dst / f.name, shallow=False):
            shutil.copyfile(f, dst / f.name)
    for f in dst.iterdir():
        if f.name not in names:
            shutil.rmtree(f) if f.is_dir() else f.unlink()


FLAVOURS = {
    # what the repository ships: no overflow checks
    'ship': {},
    # arithmetic sanitizer: silent wrap-around becomes a panic
    'ovf': {'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'true'},
}


def build(flavour='ship', extra=None):
    """Returns the path of the shared library.  `extra`: {file name: text} appended to
    files of the copied sources (monitors that need internals)."""
    tag = flavour + ('-' + extra['tag'] if extra else '')
    with paths.lock('rust-' + tag):
        root = paths.build_dir() / f'rust-{tag}'
        root.mkdir(exist_ok=True)
        for sub in ('pyo3', 'pyo3-macros'):
            _sync(paths.VERIF / 'rust' / sub, root / sub)
        ext = root / 'ext'
        ext.mkdir(exist_ok=True)
        stage = root / 'stage'
        if stage.exists():
            shutil.rmtree(stage)
        shutil.copytree(paths.REPO / 'src', stage)
        for name, text in (extra or {}).items():
            if name != 'tag':
                with open(stage / name, 'a') as f:
                    f.write(text)
        _sync(stage, ext / 'src')
        for name, out in (('Cargo.toml.in', 'Cargo.toml'), ('Cargo.lock', 'Cargo.lock')):
            src = paths.VERIF / 'rust' / 'ext' / name
            if src.exists() and not ((ext / out).exists()
                                     and filecmp.cmp(src, ext / out, shallow=False)):
                shutil.copyfile(src, ext / out)
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
            env.pop(k, None)
        env.update(CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=str(root / 'target'),
                   **FLAVOURS[flavour])
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=ext, env=env,
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        so = root / 'target' / 'release' / 'librust_stuff.so'
        # a private copy: another build must not replace a mapped file
        out = root / f'librust_stuff.{os.getpid()}.so'
        shutil.copyfile(so, out)
        return out


# ------------------------------------------------------------------- encoding

class _Obj:
    __slots__ = ('_mini_id', '__weakref__')


def _enc(v, o):
    if v is None:
        o.append(b'N')
    elif v is True or v is False:
        o.append(b'B\1' if v else b'B\0')
    elif isinstance(v, EnumMember):
        s = v._cls.encode()
        o.append(b'E' + struct.pack('<I', len(s)) + s + struct.pack('<Q', v._idx))
    elif isinstance(v, int):
        if not -(1 << 127) <= v < 1 << 127:
            raise OverflowError('int too big to convert')
        o.append(b'I' + v.to_bytes(16, 'little', signed=True))
    elif isinstance(v, float):
        o.append(b'F' + struct.pack('<d', v))
    elif isinstance(v, str):
        s = v.encode()
        o.append(b'S' + struct.pack('<I', len(s)) + s)
    elif isinstance(v, (list, tuple)):
        o.append((b'L' if isinstance(v, list) else b'T') + struct.pack('<I', len(v)))
        for x in v:
            _enc(x, o)
    elif isinstance(v, dict):
        o.append(b'D' + struct.pack('<I', len(v)))
        for k, x in v.items():
            _enc(k, o)
            _enc(x, o)
    elif isinstance(v, _Obj):
        s = type(v).__name__.encode()
        o.append(b'O' + struct.pack('<I', len(s)) + s + struct.pack('<Q', v._mini_id))
    else:
        raise TypeError(f'cannot convert {type(v).__name__}')


class EnumMember:
    def __init__(self, cls, name, idx):
        self._cls, self._name, self._idx = cls, name, idx

    def __eq__(self, other):
        if isinstance(other, EnumMember):
            return (self._cls, self._idx) == (other._cls, other._idx)
        if isinstance(other, int):
            return self._idx == other
        return NotImplemented

    __hash__ = None

    def __int__(self):
        return self._idx

    def __repr__(self):
        return f'{self._cls}.{self._name}'


class _Dec:
    def __init__(self, buf, mod):
        self.b, self.i, self.mod = buf, 0, mod

    def s(self):
        n, = struct.unpack_from('<I', self.b, self.i)
        self.i += 4 + n
        return self.b[self.i - n:self.i].decode()

    def val(self):
        b = self.b
        t = b[self.i]
        self.i += 1
        if t == 78:
            return None
        if t == 66:
            self.i += 1
            return b[self.i - 1] != 0
        if t == 73:
            self.i += 16
            return int.from_bytes(b[self.i - 16:self.i], 'little', signed=True)
        if t == 83:
            return self.s()
        if t == 70:
            self.i += 8
            return struct.unpack_from('<d', b, self.i - 8)[0]
        if t in (76, 84, 68):
            n, = struct.unpack_from('<I', b, self.i)
            self.i += 4
            if t == 68:
                return {self.val(): self.val() for _ in range(n)}
            xs = [self.val() for _ in range(n)]
            return xs if t == 76 else tuple(xs)
        name = self.s()
        i, = struct.unpack_from('<Q', b, self.i)
        self.i += 8
        cls = self.mod._classes[name]
        if t == 69:
            return self.mod._enums[name][i]
        x = object.__new__(cls)
        x._mini_id = i
        return x


class RustModule(types.ModuleType):
    def __init__(self, so, name='tm.rust_stuff'):
        super().__init__(name)
        self._lib = lib = ctypes.CDLL(str(so))
        self.__file__ = str(so)
        lib.mini_call.argtypes = [ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t,
                                  ctypes.c_void_p, ctypes.c_void_p]
        lib.mini_free.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        lib.mini_drop.argtypes = [ctypes.c_uint64]
        self._classes, self._enums = {}, {}
        p, n = ctypes.c_void_p(), ctypes.c_size_t()
        lib.mini_describe.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        lib.mini_describe(ctypes.byref(p), ctypes.byref(n))
        _, items = self._take(p, n)
        for it in items:
            if it[0] == 'f':
                setattr(self, it[1], self._func(it[1], it[2]))
            else:
                setattr(self, it[1], self._class(*it[1:]))

    def _take(self, p, n):
        buf = ctypes.string_at(p, n.value)
        self._lib.mini_free(p, n)
        return _Dec(buf, self).val()

    def _call(self, idx, args, kw):
        o = []
        _enc(tuple(args), o)
        _enc(kw, o)
        buf = b''.join(o)
        p, n = ctypes.c_void_p(), ctypes.c_size_t()
        rc = self._lib.mini_call(idx, buf, len(buf), ctypes.byref(p), ctypes.byref(n))
        v = self._take(p, n)
        if rc == 0:
            return v
        if rc == 1:
            raise {'TypeError': TypeError, 'OverflowError': OverflowError}.get(
                v[0], RuntimeError)(v[1])
        raise PanicException(v)

    def _func(self, name, idx):
        def f(*a, **k):
            return self._call(idx, a, k)
        f.__name__ = f.__qualname__ = name
        return f

    def _class(self, name, variants, methods):
        mod = self
        ns = {'__slots__': ()}
        for m, kind, idx in methods:
            if kind == 'new':
                def new(cls, *a, _i=idx, **k):
                    return mod._call(_i, a, k)
                ns['__new__'] = new
            elif kind == 'get':
                ns[m] = property(lambda s, _i=idx: mod._call(_i, (s,), {}))
            elif kind == 'static':
                ns[m] = staticmethod(lambda *a, _i=idx, **k: mod._call(_i, a, k))
            else:
                def meth(s, *a, _i=idx, **k):
                    return mod._call(_i, (s, *a), k)
                ns[m] = meth
        ns['__del__'] = lambda s: mod._lib.mini_drop(s._mini_id)
        cls = type(name, (_Obj,), ns)
        self._classes[name] = cls
        if variants:
            self._enums[name] = [EnumMember(name, v, i) for v, i in variants]
            for m in self._enums[name]:
                setattr(cls, m._name, m)
        return cls


_cache = {}


def load(flavour='ship', extra=None):
    key = (flavour, extra['tag'] if extra else '')
    if key not in _cache:
        so = build(flavour, extra)
        _cache[key] = RustModule(so)
        os.unlink(so)
    return _cache[key]


def install(module=None):
    """Put the extension where the Python code under test looks for it."""
    if str(paths.REPO) not in sys.path:
        sys.path.insert(0, str(paths.REPO))
    sys.dont_write_bytecode = True
    m = module or load()
    import tm  # noqa
    sys.modules['tm.rust_stuff'] = m
    tm.rust_stuff = m
    return m
