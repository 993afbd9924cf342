"""C12: crash points of a dump"""
import os, sys, io, itertools, warnings, pickle, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch
from mc.eqv import diff
from mc import zoo, eqv
import numpy as np
import h5py
import scipy.sparse as sp
import importlib.util


def load_mod(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


c11 = load_mod('c11')      # (registers the comparison of sparse matrices)
A = c11.A
VAL = dict(c11.VAL)
VAL.update(
    bigarr=lambda: np.arange(20000, dtype='f8'), biglist=lambda: ['item %d' % i for i in range(60)], manyarr=lambda: {'k%d' % i: np.arange(300) * i for i in range(16)}, bigtext=lambda: 'x\u00e9' * 40000,
    deep=lambda: [[[[[[['deep', A()]]]]]]], nums=lambda: list(range(150)), floats=lambda: (0.5,) * 90, bools=lambda: [True] * 9)
SMALL = ['scalar', 'text', 'none', 'arr', 'nlist', 'mixed', 'dic', 'sets', 'shared', 'masked', 'strarr', 'objarr', 'csr', 'plain', 'cls', 'npsc', 'big', 'tup', 'sub', 'bools']
BIG = ['bigarr', 'biglist', 'manyarr', 'bigtext', 'deep', 'nums', 'floats']
KW = [{}, dict(compression='gzip'), dict(compression='lzf', shuffle=True, fletcher32=True), dict(chunks=True)]
OLD = {'/': lambda: ['root', np.arange(3), {'k': 'old'}], '/old': lambda: {'x': [1, 'old'], 'y': A()}}


def cases(tier):
    T = tier == 'thorough'
    for v in SMALL + BIG:
        for k in range(len(KW)):
            if T or k == 0 or v in ('arr', 'dic', 'bigarr', 'nums'):
                for ctx in ('fresh', 'append', 'over', 'second') if T or v not in BIG else ('fresh', 'append'):
                    if k == 0 or ctx == 'fresh' or T:
                        yield ('hist', v, k, ctx)
    # the process dies at a call of the storage library
    for v in (SMALL + BIG if T else ['arr', 'mixed', 'dic', 'plain', 'cls', 'bigarr', 'nlist', 'shared']):
        for t in ('str_w', 'str_a', 'h5_w', 'h5_a', 'group', 'file'):
            yield ('kill', v, t)
    # the same, with everything before that call written to the file
    for v in SMALL + (BIG if T else ['nums', 'deep']):
        for t in ('str_w', 'str_a'):
            for k in range(len(KW)) if T else (0,):
                yield ('evict', v, t, k)
    # after dump returned
    for v in SMALL + BIG:
        for t in ('h5_w', 'h5_a', 'group', 'h5_core_no', 'file', 'raw'):
            for n in (1, 2):
                if t != 'h5_core_no':
                    yield ('done', v, t, n)


class Rec(io.BytesIO):
    """file object recording everything handed to it"""

    def __init__(self, data=b''):
        super().__init__(data)
        self.ops = []

    def write(self, b):
        self.ops.append(('w', self.tell(), bytes(b)))
        return super().write(b)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self.ops.append(('t', size))
        n = len(self.getbuffer())
        if size > n:
            pos = self.tell()
            self.seek(n)
            io.BytesIO.write(self, bytes(size - n))
            self.seek(pos)
            return size
        return super().truncate(size)


def images(initial, ops, T):
    """every content of the file a crash can leave behind, up to the granularity of torn writes"""
    cur = bytearray(initial)
    yield 'start', bytes(cur)
    for i, op in enumerate(ops):
        if op[0] == 't':
            n = op[1]
            if n < len(cur):
                del cur[n:]
            else:
                cur.extend(bytes(n - len(cur)))
            yield 'op %d truncate to %d' % (i, n), bytes(cur)
            continue
        _, pos, data = op
        if not data:
            continue
        n = len(data)
        cuts = {1, n // 2, n - 1, 8, 64, 512, 4096} if not T else {1, 2, 3, 4, 6, n // 4, n // 2, 3 * n // 4, n - 1, n - 2, n - 4} | set(range(8, min(n, 600), 8)) | set(range(512, min(n, 40000), 512))
        for c in sorted(c for c in cuts if 0 < c < n):
            torn = bytearray(cur)
            if len(torn) < pos:
                torn.extend(bytes(pos - len(torn)))
            torn[pos:pos + c] = data[:c]
            yield 'op %d write of %d bytes at %d torn after %d' % (i, n, pos, c), bytes(torn)
        if len(cur) < pos:
            cur.extend(bytes(pos - len(cur)))
        cur[pos:pos + n] = data
        yield 'op %d write of %d bytes at %d' % (i, n, pos), bytes(cur)


def try_load(data, path):
    import hickle
    return hickle.load(io.BytesIO(data), path=path, filename='img')


def do_hist(vn, k, ctx, T=False):
    import hickle
    build = VAL[vn]
    old = {}
    f = Rec()
    path = '/'
    mode = 'w'
    if ctx in ('append', 'over'):
        for p, b in OLD.items():
            hickle.dump(b(), f, mode='a', path=p, filename='x')
            old[p] = b
        mode, path = ('a', '/new') if ctx == 'append' else ('w', '/')
    initial = f.getvalue()
    f.ops = []
    if ctx == 'second':
        # both dumps belong to the history
        hickle.dump(OLD['/old'](), f, mode='w', path='/old', filename='x')
        old['/old'] = OLD['/old']
        path, mode = '/new', 'a'
    hickle.dump(build(), f, mode=mode, path=path, filename='x', **KW[k])
    final = f.getvalue()
    ops = list(f.ops)
    n, seen, out = 0, set(), {'raise': 0, 'value': 0}
    expect = dict((p, b) for p, b in old.items() if not (ctx == 'over' and p == path))
    cur = None
    for what, img in images(initial, ops, T):
        if img == cur:
            continue
        cur = img
        h = hash(img)
        if h in seen:
            continue
        seen.add(h)
        n += 1
        for p in [path] + list(expect):
            try:
                back = try_load(img, p)
            except Exception:
                out['raise'] += 1
                continue
            out['value'] += 1
            if p == path:
                d = diff(build(), back, 'path %s' % p)
                if d and ctx == 'over' and p in old and diff(old[p](), back) is None:
                    d = None           # still the old file
            else:
                d = diff(expect[p](), back, 'path %s' % p)
            if d:
                return Result(n, 'violation', 'crash at %s of %d: %s' % (what, len(ops), d))
    # the complete history
    try:
        d = diff(build(), try_load(final, path), 'complete file')
        for p in expect:
            if d is None and ctx != 'over':
                d = diff(expect[p](), try_load(final, p), 'complete file, path %s' % p)
    except Exception as e:
        d = 'load of the complete file raised %s: %s' % (type(e).__name__, str(e)[:200])
    return Result(n, 'ok' if d is None else 'violation', d, [(vn, k, ctx, i) for i in range(n)])


class Killer(c11.Injector):
    def wrap(self, orig, label):
        inj = self

        def call(*a, **k):
            if inj.depth == 0 and inj.n is not None:
                inj.count += 1
                if inj.count == inj.n:
                    os._exit(42)
            inj.depth += 1
            try:
                return orig(*a, **k)
            finally:
                inj.depth -= 1
        return call


class Evictor(c11.Injector):
    """the storage library writes back everything it holds before each call, as it does when its caches are full"""

    def wrap(self, orig, label):
        inj = self

        def call(*a, **k):
            if inj.depth == 0 and inj.n is not None:
                inj.depth += 1
                try:
                    for i in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE):
                        h5py.h5f.flush(i)
                finally:
                    inj.depth -= 1
                with open(inj.fname, 'rb') as f:
                    inj.images.append((label, f.read()))
            inj.depth += 1
            try:
                return orig(*a, **k)
            finally:
                inj.depth -= 1
        return call


def do_evict(vn, t, k):
    import hickle
    build = VAL[vn]
    fname = os.path.join(scratch(), 'c12.h5')
    copy = os.path.join(scratch(), 'c12i.h5')
    old = setup(t, fname)
    path, mode = ('/', 'w') if t == 'str_w' else ('/new', 'a')
    ev = Evictor()
    ev.fname, ev.images = fname, []
    if t == 'str_w':
        open(fname, 'wb').close()
    with ev:
        ev.n = 0
        hickle.dump(build(), fname, mode=mode, path=path, **KW[k])
        ev.n = None
    n, seen = 0, set()
    for i, (label, img) in enumerate(ev.images):
        if hash(img) in seen:
            continue
        seen.add(hash(img))
        n += 1
        with open(copy, 'wb') as f:
            f.write(img)
        d = look(t, copy, build, old, False)
        if d:
            return Result(n, 'violation', 'process died after everything up to call %d (%s) had been written back: %s' % (i, label, d))
    d = look(t, fname, build, old, True)
    return Result(n, 'ok' if d is None else 'violation', d and 'no crash: ' + d, [(vn, t, k, i) for i in range(n)])


def child(t, fname, build, n):
    """runs in a forked process, dies at the n-th call"""
    import hickle
    kill = Killer()
    h = None
    if t in ('h5_w', 'h5_a', 'group'):
        h = h5py.File(fname, 'w' if t == 'h5_w' else 'a')
        tgt = h.create_group('g') if t == 'group' else h
        path, mode = ('/', 'w') if t == 'h5_w' else ('/new', 'a')
        if t == 'group':
            h.flush()
    elif t in ('file', 'raw'):
        tgt = open(fname, 'r+b', buffering=0 if t == 'raw' else -1)
        path, mode = '/new', 'a'
    else:
        tgt = fname
        path, mode = ('/', 'w') if t == 'str_w' else ('/new', 'a')
    with kill:
        kill.n = n
        hickle.dump(build(), tgt, mode=mode, path=path)
        kill.n = None
    if t == 'file':
        tgt.flush()
    os._exit(7)


def setup(t, fname):
    import hickle
    if os.path.exists(fname):
        os.unlink(fname)
    old = {}
    if t not in ('str_w', 'h5_w'):
        for p, b in OLD.items():
            hickle.dump(b(), fname, mode='a', path=p)
            old[p] = b
    return old


def spawn(t, fname, build, n):
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            child(t, fname, build, n)
        except BaseException as e:
            sys.stderr.write('child: %r\n' % (e,))
            os._exit(9)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def pathof(t):
    return {'str_w': '/', 'h5_w': '/', 'group': '/g/new'}.get(t, '/new')


def look(t, fname, build, old, must):
    import hickle
    for p in [pathof(t)] + list(old):
        if not os.path.exists(fname):
            if must:
                return 'file does not exist'
            continue
        try:
            back = hickle.load(fname, path=p)
        except Exception as e:
            if must:
                return 'path %s: load raised %s: %s' % (p, type(e).__name__, str(e)[:200])
            continue
        d = diff((build if p == pathof(t) else old[p])(), back, 'path %s' % p)
        if d:
            return d


def do_kill(vn, t):
    build = VAL[vn]
    fname = os.path.join(scratch(), 'c12.h5')
    n = 0
    while True:
        n += 1
        old = setup(t, fname)
        rc = spawn(t, fname, build, n)
        if rc == 7:
            d = look(t, fname, build, old, True)
            return Result(n, 'ok' if d is None else 'violation', d and 'no crash: ' + d, [(vn, t, i) for i in range(n)])
        if rc != 42:
            return Result(n, 'violation', 'dump failed in the child process with status %r' % rc)
        d = look(t, fname, build, old, False)
        if d:
            return Result(n, 'violation', 'process died at call %d: %s' % (n, d))
        if n > 3000:
            return Result(n, 'violation', 'no end of storage calls')


def do_done(vn, t, times):
    """the caller never closes or flushes the file it opened"""
    import hickle
    build = VAL[vn]
    fname = os.path.join(scratch(), 'c12.h5')
    old = setup(t, fname)
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            if t in ('file', 'raw'):
                tgt = open(fname, 'r+b', buffering=0 if t == 'raw' else -1)
            else:
                tgt = h5py.File(fname, 'w' if t == 'h5_w' else 'a')
                if t == 'group':
                    tgt = tgt.create_group('g')
            for i in range(times):
                hickle.dump(build(), tgt, mode='a', path='/' if t == 'h5_w' and i == 0 else '/new%s' % ('' if i == 0 else i))
            if t == 'file':
                tgt.flush()     # data still inside the caller's own buffer has not been handed to the system
            os._exit(7)
        except BaseException as e:
            sys.stderr.write('child: %r\n' % (e,))
            os._exit(9)
    rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if rc != 7:
        return Result(1, 'violation', 'dump failed in the child process with status %r' % rc)
    d = look(t, fname, build, old, True)
    for i in range(1, times):
        if d is None:
            try:
                d = diff(build(), hickle.load(fname, path=('/g' if t == 'group' else '') + '/new%d' % i), 'dump %d' % i)
            except Exception as e:
                d = 'dump %d: load raised %s: %s' % (i, type(e).__name__, str(e)[:200])
    return Result(2, 'ok' if d is None else 'violation', d and 'after dump returned: ' + d)


TIER = ['quick']


def run_case(case):
    warnings.simplefilter('ignore')
    if case[0] == 'hist':
        return do_hist(*case[1:], T=TIER[0] == 'thorough')
    return globals()['do_' + case[0]](*case[1:])


CHECK = Check('C12', cases, run_case, level='fault_enumeration', init=lambda tier: TIER.__setitem__(0, tier),
              rule='the sequence of writes and truncations of each dump is recorded; every prefix, and every prefix with the last write torn at several offsets, is materialised and all paths are loaded; in addition a real process is killed before each call of the storage library, and after the dump returned without closing the file',
              bound='%d values x 1..4 filter settings x 4 histories (fresh file, appended, overwritten, two dumps) x all prefixes x up to 7 (thorough: about 150) cut offsets; process death at every storage call for 6 kinds of target, and with everything written back before each call' % (len(SMALL) + len(BIG)),
              assumptions=['writes reach the file in the order they are issued (no reordering by the operating system)', 'data kept in the buffer of a Python file object opened by the caller has not been handed to the operating system'])
if __name__ == '__main__':
    run(CHECK)
