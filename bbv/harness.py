"""Common runner: workload -> monitors -> verdict, evidence, replay files.

A check module provides PROPERTY, LEVEL, RULE and run(ctx).  Work is expressed as
(function name, item) cases so that any single case can be replayed.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import paths

WORKERS = int(os.environ.get('BBV_WORKERS', '8'))


class Inconclusive(Exception):
    pass


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Col:
    """What one or more cases observed."""

    MAXS = 4

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = {}
        self.counters = {}
        self.violations = []        # dicts
        self.where = None           # (func, item) being run

    def ev(self, n=1):
        self.evaluations += n

    def nontriv(self, key):
        self.nontrivial.add(digest(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def top(self, name, n):
        k = 'max ' + name
        self.counters[k] = max(self.counters.get(k, 0), n)

    def sample(self, kind, obj):
        s = self.samples.setdefault(kind, [])
        if len(s) < self.MAXS:
            s.append(obj)

    def violation(self, kind, key, message, **detail):
        """kind: the mechanism / call site; key: the input that fails."""
        if len([v for v in self.violations if v['kind'] == kind]) < 200:
            self.violations.append({'kind': kind, 'key': str(key), 'message': message,
                                    'detail': detail, 'case': self.where})

    def merge(self, o):
        self.evaluations += o.evaluations
        self.nontrivial |= o.nontrivial
        for k, v in o.counters.items():
            if k.startswith('max '):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for k, v in o.samples.items():
            s = self.samples.setdefault(k, [])
            s.extend(v[:self.MAXS - len(s)])
        self.violations.extend(o.violations)


class Ctx(Col):
    def __init__(self, mod):
        super().__init__()
        self.mod = mod
        self.property = mod.PROPERTY
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.quick = self.tier != 'thorough'
        self.notes = []
        self.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        self.needs = []
        self.broken = None
        self.t0 = time.monotonic()
        self.known = [f for f in findings() if f['property'] == self.property]

    def fresh(self):
        return [v for v in self.violations if not any(matches(f, v) for f in self.known)]

    def rng(self, *tag):
        return random.Random(f'{self.seed}/{self.property}/' + '/'.join(map(str, tag)))

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def need(self, counter, minimum=1):
        """The run only counts if the monitor saw at least this many such events."""
        self.needs.append((counter, minimum))

    # ------------------------------------------------------------- parallel
    def map(self, func, items, *, cpu=120.0, mem=6 << 30, workers=None, crash='crash',
            hang='no-answer', chunk=None):
        """Run mod.func(col, item) for every item, in forked workers.
        A worker killed by a signal, or one item using more than `cpu` CPU seconds, is itself an
        observation (violation kinds `crash` / `hang`; None = make the run inconclusive)."""
        items = list(items)
        if not items:
            return
        workers = workers or WORKERS
        n = chunk or max(1, min(64, len(items) // (workers * 6) or 1))
        chunks = [items[i:i + n] for i in range(0, len(items), n)]
        chunks.reverse()
        live = {}
        fn = getattr(self.mod, func)
        hung = 0
        while chunks or live:
            # enough is known: an answer in time is worth more than a complete list
            late = time.monotonic() - self.t0 if self.quick else 0
            if late > 500 and self.fresh() or hung >= 3 or late > 800:
                if late > 800 and not self.fresh():
                    self.broken = 'out of time'
                chunks.clear()
                for r, st in live.items():
                    os.kill(st[0], signal.SIGKILL)
                    os.waitpid(st[0], 0)
                    os.close(r)
                return
            while chunks and len(live) < workers:
                ch = chunks.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for x in live:
                        os.close(x)
                    _worker(fn, func, ch, w, mem)
                os.close(w)
                live[r] = [pid, ch, b'', 0, 0.0, time.monotonic()]
            ready, _, _ = select.select(list(live), [], [], 2.0)
            for r in ready:
                st = live[r]
                data = os.read(r, 1 << 20)
                if data:
                    st[2] += data
                    while len(st[2]) >= 8:
                        ln, = struct.unpack('<Q', st[2][:8])
                        if len(st[2]) < 8 + ln:
                            break
                        msg = pickle.loads(st[2][8:8 + ln])
                        st[2] = st[2][8 + ln:]
                        if isinstance(msg, tuple):
                            st[3], st[4] = msg[1], msg[2]
                            st[5] = time.monotonic()
                        else:
                            self.merge(msg)
                            st[3] = len(st[1])
                    continue
                os.close(r)
                del live[r]
                _, status = os.waitpid(st[0], 0)
                if st[3] < len(st[1]):
                    item = st[1][st[3]]
                    rest = st[1][st[3] + 1:]
                    if rest:
                        chunks.append(rest)
                    why = (f'signal {os.WTERMSIG(status)}' if os.WIFSIGNALED(status)
                           else f'exit {os.WEXITSTATUS(status)}')
                    self.count('worker deaths')
                    kind = hang if len(st) > 6 else crash
                    msg = (f'no answer after {cpu:g} CPU seconds' if len(st) > 6
                           else f'the process died: {why}')
                    if kind is None:
                        self.broken = f'{msg} on {item!r}'
                    else:
                        self.where = (func, item)
                        self.violation(kind, repr(item)[:300], msg)
                        hung += len(st) > 6
            now = time.monotonic()
            for r, st in live.items():
                if now - st[5] > cpu and len(st) == 6 and _cpu(st[0]) - st[4] > cpu:
                    st.append('hang')
                    os.kill(st[0], signal.SIGKILL)


def _cpu(pid):
    try:
        f = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


def _send(w, x):
    d = pickle.dumps(x)
    d = struct.pack('<Q', len(d)) + d
    while d:
        d = d[os.write(w, d):]


def _theirs(e):
    """Did the code under test raise this (and not the monitor, or a limit set by it)?"""
    if isinstance(e, MemoryError):
        return False
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(str(paths.REPO) + os.sep)


def _worker(fn, func, items, w, mem):
    code = 1
    try:
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get('BBV_DEBUG'):
            os.dup2(dn, 2)
        col = Col()
        for i, it in enumerate(items):
            _send(w, ('at', i, time.process_time()))
            col.where = (func, it)
            try:
                fn(col, it)
            except Exception as e:      # noqa: BLE001
                if not _theirs(e):
                    raise
                col.violation('error', repr(it)[:300], traceback.format_exc(limit=-2)[-300:])
        _send(w, col)
        code = 0
    except BaseException:
        c = Col()
        c.where = (func, items[i] if items else None)
        c.counters['harness errors'] = 1
        c.samples['harness error'] = [traceback.format_exc()[-3000:]]
        try:
            c.merge(col)
            _send(w, c)
        except BaseException:
            pass
        code = 0
    finally:
        os._exit(code)


# ---------------------------------------------------------------------- main

def findings():
    p = paths.VERIF / 'known_findings.json'
    return json.loads(p.read_text())['findings'] if p.exists() else []


def matches(f, v):
    if f['status'] != 'known' or f['kind'] != v['kind']:
        return False
    return v['key'] in f['keys']


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def main(modname):
    t0 = time.monotonic()
    try:
        sys.set_int_max_str_digits(0)
        mod = importlib.import_module('checks.' + modname)
        ctx = Ctx(mod)
        mod.run(ctx)
    except Inconclusive as e:
        print(f'INCONCLUSIVE {modname}: {e}')
        return 2
    except BaseException:
        traceback.print_exc()
        print(f'INCONCLUSIVE {modname}: the check itself failed')
        if 'ctx' not in locals() or not ctx.fresh():
            return 2

    prop = mod.PROPERTY
    known = [f for f in findings() if f['property'] == prop]
    seen, fresh = {}, []
    for v in ctx.violations:
        for i, f in enumerate(known):
            if matches(f, v):
                seen.setdefault(i, []).append(v)
                break
        else:
            fresh.append(v)

    rdir = paths.VERIF / 'replay'
    cov = {
        'evaluations': ctx.evaluations,
        'distinct_nontrivial': len(ctx.nontrivial),
        'rule': mod.RULE,
        'samples': [{k: jsonable(x)} for k, xs in ctx.samples.items() for x in xs][:40],
        'observed': dict(sorted(ctx.counters.items())),
    }
    if ctx.notes:
        cov['explanation'] = ' '.join(ctx.notes)
    ev = {
        'property': prop, 'tier': 'quick' if ctx.quick else 'thorough', 'seed': ctx.seed,
        'level': mod.LEVEL, 'coverage': cov, 'assumptions': ctx.assumptions,
        'wall_s': round(time.monotonic() - t0, 2), 'violations': len(fresh),
    }
    edir = paths.VERIF / 'evidence'
    edir.mkdir(exist_ok=True)
    tmp = edir / f'.{prop}.{os.getpid()}'
    tmp.write_text(json.dumps(ev, indent=1, default=repr) + '\n')
    os.replace(tmp, edir / f'{prop}.json')

    for i, f in enumerate(known):
        if i in seen:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")

    print(f"{prop}: {ctx.evaluations} evaluations, {len(ctx.nontrivial)} distinct non-trivial, "
          f"{len(fresh)} violations, {sum(map(len, seen.values()))} known, {ev['wall_s']} s")
    if fresh:
        rdir.mkdir(exist_ok=True)
        kinds = {}
        for v in fresh:
            kinds.setdefault(v['kind'], []).append(v)
        for kind, vs in sorted(kinds.items()):
            v = min(vs, key=lambda v: (len(v['key']), v['key']))
            h = hashlib.sha1(f"{kind}{v['key']}".encode()).hexdigest()[:10]
            path = rdir / f'{prop}-{h}.json'
            path.write_text(json.dumps({
                'property': prop, 'module': modname, 'seed': ctx.seed, 'kind': kind,
                'key': v['key'], 'message': v['message'], 'detail': v['detail'],
                'case': pickle.dumps(v['case']).hex() if v['case'] else None,
                'case_repr': repr(v['case']),
                'others': [w['key'] for w in vs][:500],
            }, indent=1, default=repr) + '\n')
            print(f"  {kind}: {v['message']}  [{v['key'][:300]}]  ({len(vs)} cases)")
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if ctx.counters.get('harness errors'):
        print(f'INCONCLUSIVE {prop}: a monitor failed:')
        for s in ctx.samples.get('harness error', []):
            print(s)
        return 2
    if ctx.broken:
        print(f'INCONCLUSIVE {prop}: {ctx.broken}')
        return 2
    for name, least in ctx.needs:
        if ctx.counters.get(name, 0) < least:
            print(f'INCONCLUSIVE {prop}: saw {ctx.counters.get(name, 0)} of "{name}", '
                  f'needed {least}')
            return 2
    return 0


def replay(path):
    r = json.loads(open(path).read())
    sys.set_int_max_str_digits(0)
    mod = importlib.import_module('checks.' + r['module'])
    os.environ['VERIF_SEED'] = str(r['seed'])
    ctx = Ctx(mod)
    func, item = pickle.loads(bytes.fromhex(r['case']))
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    ctx.where = (func, item)
    getattr(mod, func)(ctx, item)
    for v in ctx.violations:
        print(v['kind'], '|', v['message'], '|', v['key'])
        print(json.dumps(v['detail'], indent=1, default=repr))
    print('reproduced' if any(v['kind'] == r['kind'] for v in ctx.violations)
          else 'not reproduced')
    return int(any(v['kind'] == r['kind'] for v in ctx.violations))
