"""C19: results do not depend on the history of the process"""
import os, sys, io, itertools, warnings, gc, shutil, threading, subprocess, hashlib, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, Viol, REPO, VERIF
from mc import eqv, zoo, values, legacy
from mc.eqv import diff
from mc.proc import in_child
import numpy as np
import h5py
import scipy.sparse as sp
import astropy.units, astropy.time, astropy.table, astropy.coordinates, astropy.constants
import hickle

VALUES = dict(values.BUILTIN)
VALUES.update(values.NUMPY)
VALUES.update(values.SCIPY)
VALUES.update(values.OBJECTS)
VALUES.update(values.astro_values())
VALUES['obj0'] = lambda: np.array({'a': 1}, object)
VALUES['mix4'] = lambda: [1, 'a', {'k': (2, 'x')}]
VALUES['bmat'] = lambda: {'m': sp.csr_matrix(np.eye(3)), 'n': [sp.coo_matrix(np.eye(2)), 'x']}
LEGACY = dict(mix4='34', arr='34', text='34', plain='4', csc='4', obj0='4', tlist='4', strarr='4')
NOTES = (hickle.lookup.SerializedWarning,)


# ------------------------------------------------------------------------------------------------------- operations
def observed(fn):
    """value, exception and warnings of the library; picklable"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = ('value', fn())
        except Viol:
            raise
        except BaseException as e:
            r = ('raised', type(e).__name__)
    notes = tuple(sorted(x.category.__name__ for x in w if x.category.__module__.startswith('hickle')))
    return r + (notes,)


def dump_to_bytes(v, **k):
    b = io.BytesIO()
    hickle.dump(v, b, mode='w', filename='mem.hkl', **k)
    return b.getvalue()


def load_from(data, **k):
    return hickle.load(io.BytesIO(data), filename='mem.hkl', **k)


def file_digest(data):
    return hashlib.blake2b(data, digest_size=12).hexdigest()


def content_digest(data):
    with h5py.File(io.BytesIO(data), 'r') as f:
        return hashlib.blake2b(repr(values.content(f)).encode('utf8', 'backslashreplace'), digest_size=12).hexdigest()


class Breaks(object):
    """can not be stored"""

    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc('broken')


class Reenter(object):
    """stores something itself while it is stored, and loads something while it is loaded"""

    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {'d': dump_to_bytes([self.v, 'inner'])}

    def __setstate__(self, s):
        self.v = load_from(s['d'])[0]


class Cust(object):
    def __init__(self, v):
        self.v = v


def cust_dump(py_obj, h_group, name, **kw):
    return h_group.create_dataset(name, data=py_obj.v, **kw), ()


def cust_load(h_node, base_type, py_obj_type):
    return Cust(h_node[()])


FRESH = {}


def source(v, fmt):
    """bytes of a file with value v written by another process"""
    return FRESH['src', v, fmt]


def op_D(v):
    def do():
        val = VALUES[v]()
        before = VALUES[v]()
        data = dump_to_bytes(val)
        d = diff(before, val)
        if d:
            raise Viol('dump changed its input: ' + d)
        return file_digest(data), data
    r = observed(do)
    if r[0] == 'value':
        ref = FRESH.get(('op', 'D', v))
        if ref is not None and ref[0] == 'value' and ref[1][0] != r[1][0]:
            # other bytes, may still be the same content
            if content_digest(r[1][1]) == content_digest(source(v, 'new')):
                r = ('value', (ref[1][0], None), r[2])
        r = ('value', (r[1][0], None), r[2])
    return r


def op_L(v, fmt='new'):
    def do():
        return diff(VALUES[v](), load_from(source(v, fmt)))
    return observed(do)


def op_P(v):
    """in an open file, at a path, next to something else"""
    def do():
        with h5py.File(io.BytesIO(), 'w') as f:
            f['other'] = np.arange(3)
            hickle.dump(VALUES[v](), f, path='/a/b')
            hickle.dump([1, 'x'], f, path='/c')
            return diff(VALUES[v](), hickle.load(f, path='/a/b')), diff([1, 'x'], hickle.load(f, path='/c')), repr(f['other'][()])
    return observed(do)


def bad(exc, wrap):
    def do():
        dump_to_bytes(wrap(Breaks(exc)))
    return lambda: observed(do)


def corrupt(kind):
    def do():
        b = io.BytesIO(source('dic', 'new'))
        with h5py.File(b, 'r+') as f:
            if kind == 'notype':
                def strip(n, o):
                    for a in ('base_type', 'type'):
                        if a in o.attrs:
                            del o.attrs[a]
                f.visititems(strip)
            elif kind == 'novers':
                for a in list(f.attrs):
                    del f.attrs[a]

        try:
            return diff(VALUES['dic'](), load_from(b.getvalue())) is None
        except Warning:
            raise
    if kind == 'typeref':
        def do():  # noqa
            b = io.BytesIO(source('cls', 'new'))
            with h5py.File(b, 'r+') as f:
                for n in list(f):
                    if n != 'data':
                        del f[n]
            return type(load_from(b.getvalue())).__name__
    return lambda: observed(do)


def closed():
    f = h5py.File(io.BytesIO(), 'w')
    f.close()
    hickle.dump(1, f)


def missing():
    m = type(sys)('hkl19_gone')
    cls = type('Gone', (list,), {'__module__': 'hkl19_gone'})
    m.Gone = cls
    sys.modules['hkl19_gone'] = m
    try:
        data = dump_to_bytes([cls([1, 'x']), 'y'])
    finally:
        del sys.modules['hkl19_gone']
    r = load_from(data)
    return type(r).__name__, type(r[0]).__name__, r[1]


def reenter():
    data = dump_to_bytes([Reenter([1, 'q']), 'z', Reenter({'a': np.arange(3)})])
    r = load_from(data)
    return r[0].v, r[1], repr(r[2].v)


def register():
    hickle.lookup.LoaderManager.register_class(Cust, b'cust19', cust_dump, cust_load, None, True, 'custom')
    data = dump_to_bytes([Cust(4), 'x'], options={'custom': True})
    r = load_from(data)
    return type(r[0]).__name__, int(r[0].v), r[1]


class Sub(Cust):
    pass


class Lst(list):
    pass


def lst_dump(py_obj, h_group, name, **kw):
    return h_group.create_dataset(name, data=np.array(py_obj), **kw), ()


def lst_load(h_node, base_type, py_obj_type):
    return Lst(h_node[()].tolist())


def option(on, cls, handle=False):
    """registered loader, used or not depending on the option of this very call"""
    def do():
        reg = hickle.lookup.LoaderManager.register_class
        reg(Cust, b'cust19', cust_dump, cust_load, None, True, 'custom')
        reg(Lst, b'lst19', lst_dump, lst_load, None, True, 'custom')
        opt = {} if on is None else {'options': {'custom': on}}
        v = [cls(4) if cls is not Lst else Lst([1, 2, 3]), 'x']
        if handle:
            with h5py.File(io.BytesIO(), 'w') as f:
                hickle.dump(v, f, path='/p', **opt)
                kinds = f['p/data/data0'].attrs.get('base_type'), type(f['p/data/data0']).__name__
                r = hickle.load(f, path='/p')
        else:
            data = dump_to_bytes(v, **opt)
            with h5py.File(io.BytesIO(data), 'r') as f:
                kinds = type(f['data/data0']).__name__, f['data/data0'].shape
            r = load_from(data)
        return repr(kinds), type(r[0]).__name__, repr(getattr(r[0], 'v', r[0])), r[1]
    return lambda: observed(do)


def threaded():
    out = []
    t = threading.Thread(target=lambda: out.append(load_from(dump_to_bytes({'t': [1, 'x', A()]}))))
    t.start()
    t.join()
    return diff({'t': [1, 'x', A()]}, out[0])


A = values.A


def keepopen():
    """a file stays open with unfinished business of the caller"""
    f = h5py.File(io.BytesIO(), 'w')
    hickle.dump({'k': [1, 'x']}, f, path='/k')
    KEEP.append(f)
    return diff({'k': [1, 'x']}, hickle.load(f, path='/k'))


def gcoff():
    on = gc.isenabled()
    gc.disable()
    try:
        r = diff([1, 'x', A()], load_from(dump_to_bytes([1, 'x', A()])))
        return r, gc.isenabled()
    finally:
        if on:
            gc.enable()


def deep():
    v = 'x'
    for i in range(3000):
        v = [v, 1]
    dump_to_bytes(v)


def imp(n):
    def do():
        import importlib
        return importlib.import_module('hickle.loaders.load_' + n).__name__
    return lambda: observed(do)


def unload():
    """an object which can not be restored"""
    data = dump_to_bytes([zoo.Plain(a=1), [1, 'x']])
    old = zoo.Plain.__setstate__ if hasattr(zoo.Plain, '__setstate__') else None

    def fail(self, s):
        raise RuntimeError('no')
    zoo.Plain.__setstate__ = fail
    try:
        return type(load_from(data)).__name__
    finally:
        del zoo.Plain.__setstate__


def bigs():
    """many objects"""
    v = [{'k%d' % i: [i, 'x', zoo.Plain(a=i)]} for i in range(60)]
    return diff(v, load_from(dump_to_bytes(v)))


def partial():
    with h5py.File(io.BytesIO(source('dic', 'new')), 'r') as f:
        return [type(hickle.load(f, path='/')).__name__]


def truncated():
    d = source('mixed', 'new')
    load_from(d[:len(d) // 2])


KEEP = []
NOISE = dict(
    badfirst=bad(RuntimeError, lambda b: [b, 1]), badlast=bad(RuntimeError, lambda b: {'a': [1, 'x'], 'b': (A(), b)}), badkbd=bad(KeyboardInterrupt, lambda b: ['x', [b]]), badgen=lambda: observed(lambda: dump_to_bytes(['a', (i for i in ())])),
    badobj=bad(ValueError, lambda b: np.array([1, b, 'x'], object)), notype=corrupt('notype'), novers=corrupt('novers'), typeref=corrupt('typeref'), closed=lambda: observed(closed), missing=lambda: observed(missing), reenter=lambda: observed(reenter),
    register=lambda: observed(register), threaded=lambda: observed(threaded), keepopen=lambda: observed(keepopen), gcoff=lambda: observed(gcoff), deep=lambda: observed(deep), gzip=lambda: observed(lambda: diff(VALUES['dic'](), load_from(dump_to_bytes(VALUES['dic'](), compression='gzip')))),
    badkw=lambda: observed(lambda: dump_to_bytes([A(), 'x'], compression='nonsense')), badopt=lambda: observed(lambda: dump_to_bytes([1, 'x'], options={'nonsense': 1})), badmode=lambda: observed(lambda: hickle.dump(1, io.BytesIO(), mode='q', filename='x')),
    nofile=lambda: observed(lambda: hickle.load('/nonexistent/file.hkl')), nopath=lambda: observed(lambda: load_from(source('mixed', 'new'), path='/nothing')), unload=lambda: observed(unload), bigs=lambda: observed(bigs), truncated=lambda: observed(truncated),
    impnp=imp('numpy'), impsp=imp('scipy'), impap=imp('astropy'), impbi=imp('builtins'), collect=lambda: observed(lambda: [gc.collect()][1:]))

for _n, _o in (('on', True), ('off', False), ('no', None)):
    for _c in (Cust, Sub, Lst):
        NOISE['opt%s%s' % (_n, _c.__name__)] = option(_o, _c)
    NOISE['opt%sH' % _n] = option(_o, Cust, True)
OPS = {}
for _v in VALUES:
    OPS['D', _v] = lambda v=_v: op_D(v)
    OPS['L', _v] = lambda v=_v: op_L(v)
for _v in ('dic', 'arr', 'objarr', 'csr', 'plain', 'time', 'shared'):
    OPS['P', _v] = lambda v=_v: op_P(v)
for _v, _f in LEGACY.items():
    for _c in _f:
        OPS[_c, _v] = lambda v=_v, c=_c: op_L(v, 'v' + c)
for _v in NOISE:
    OPS['N', _v] = NOISE[_v]
# one operation of each family, for long histories
FIRST = [('D', 'mixed'), ('L', 'arr'), ('D', 'objarr'), ('L', 'masked'), ('D', 'csr'), ('L', 'coo'), ('D', 'quant'), ('L', 'time'), ('D', 'plain'), ('L', 'cls'), ('D', 'shared'), ('3', 'mix4'), ('4', 'obj0'), ('4', 'csc'), ('N', 'missing'), ('N', 'register'), ('N', 'badlast')]
LAST_QUICK = [('D', 'dic'), ('L', 'dic'), ('D', 'npsc'), ('L', 'objarr'), ('L', 'shared'), ('D', 'bsr'), ('L', 'csc'), ('L', 'table'), ('D', 'sky'), ('L', 'plain'), ('D', 'cls'), ('L', 'sets'), ('4', 'obj0'), ('4', 'mix4'), ('3', 'arr'), ('P', 'shared'), ('D', 'masked'), ('L', 'bmat'), ('D', 'func'), ('L', 'enum')]


# ------------------------------------------------------------------------------------------------------- reference
def make_source(v, fmt):
    def make():
        warnings.simplefilter('ignore')
        if fmt == 'new':
            return dump_to_bytes(VALUES[v]())
        b = io.BytesIO()
        with h5py.File(b, 'w') as f:
            dict(v3=legacy.v3_file, v4=legacy.v40_file)[fmt](VALUES[v](), f, '/')
        return b.getvalue()
    st, out = in_child(make)
    return out if st == 'ok' else b''


READY = []


def reference():
    """what each operation gives in a process which has done nothing else"""
    if READY:
        return
    READY.append(1)
    for v in VALUES:
        FRESH['src', v, 'new'] = make_source(v, 'new')
    for v, f in LEGACY.items():
        for c in f:
            FRESH['src', v, 'v' + c] = make_source(v, 'v' + c)
    for o in OPS:
        FRESH[('op',) + o] = in_child(OPS[o])


def init(tier):
    values.use_scipy()
    values.use_astropy()
    sys.pycache_prefix = os.path.join(os.environ.get('HKLMC_SCRATCH', '/nonexistent'), 'pycache')
    sys.dont_write_bytecode = False
    gc.collect()
    gc.freeze()


def cases(tier):
    T = tier == 'thorough'
    ops = sorted(OPS)
    for o in ops:
        yield ('alone', (o,), ())
    # every operation followed by every other one
    for a in ops:
        if T or a[0] in 'N34P' or a in FIRST:
            for i in range(0, len(ops), 40):
                yield ('after', (a,), tuple(ops[i:i + 40]))
    if not T:
        for a in ops:
            if not (a[0] in 'N34P' or a in FIRST):
                yield ('after', (a,), tuple(LAST_QUICK))
    # order of first use
    for n in ((2, 3) if T else (2,)):
        for p in itertools.permutations(FIRST, n):
            yield ('first', p, tuple(LAST_QUICK + FIRST) if T and n < 4 else tuple(LAST_QUICK))
    for a, b in itertools.product([o for o in ops if o[0] == 'N'], repeat=2):
        yield ('noise', (a, b), tuple(LAST_QUICK if T else LAST_QUICK[::5]))
    # same operation again and again, then others
    for o in ops:
        yield ('repeat', (o,) * 12, (('D', 'dic'), ('L', 'shared')))
    # all of them in one process, both orders, and from each starting point
    yield ('all', tuple(ops), ())
    yield ('all', tuple(reversed(ops)), ())
    for i in range(0, len(ops), 2 if T else 24):
        yield ('all', tuple(ops[i:] + ops[:i]), ())
        yield ('all', tuple(reversed(ops[i:] + ops[:i])), ())
    # files of one process read by another
    for v in sorted(VALUES):
        yield ('exchange', (v,), ())


def text(hist):
    return ' ; '.join('%s %s' % ({'D': 'dump', 'L': 'load', 'P': 'dump to path', '3': 'load v3', '4': 'load v4.0', 'N': 'do'}[o], v) for o, v in hist)


def compare(hist, o, got):
    ref = FRESH[('op',) + o]
    if ref[0] != 'ok':
        raise Viol('%s in a fresh process: %s' % (text([o]), str(ref[1])[:600]))
    if got != ref[1]:
        raise Viol('%s gives %s in a fresh process but %s after: %s' % (text([o]), repr(ref[1])[:300], repr(got)[:300], text(hist)))


def sane(o):
    """the reference itself"""
    st, r = FRESH[('op',) + o]
    if st != 'ok':
        raise Viol('%s in a fresh process: %s' % (text([o]), str(r)[:600]))
    if o[0] in 'L34' and r[:2] != ('value', None):
        raise Viol('%s in a fresh process gives: %s' % (text([o]), repr(r)[:400]))
    if o[0] == 'P' and (r[0] != 'value' or r[1][:2] != (None, None)):
        raise Viol('%s in a fresh process gives: %s' % (text([o]), repr(r)[:400]))
    if o[0] == 'D' and r[0] != 'value':
        raise Viol('%s in a fresh process gives: %s' % (text([o]), repr(r)[:400]))


def history(hist, lasts):
    """runs in a forked process"""
    done = []
    gc_on = gc.isenabled()
    n = 0
    for o in hist:
        got = OPS[o]()
        n += 1
        compare(done, o, got)
        done.append(o)
        if gc.isenabled() != gc_on:
            raise Viol('garbage collection is %s after: %s' % (gc.isenabled(), text(done)))
    for o in lasts:
        st, got = in_child(OPS[o])
        n += 1
        if st != 'ok':
            raise Viol('%s failed after %s: %s' % (text([o]), text(done), str(got)[:500]))
        compare(done, o, got)
    return n


SCRIPT = '''
import sys, os
sys.path.insert(0, %(repo)r); sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
sys.path.insert(1, %(verif)r)
%(pre)s
import hickle
%(do)s
'''


def exchange(v):
    """written by an unrelated process and loaded by another one which has imported nothing but the library"""
    d = os.environ['HKLMC_SCRATCH']
    name = os.path.join(d, 'ex_%d.hkl' % os.getpid())
    env = dict(os.environ, PYTHONHASHSEED='123', HKL19=name)
    src = SCRIPT % dict(repo=REPO, verif=VERIF, pre='', do='''
sys.argv = ['c19']
sys.path.insert(0, os.path.join(%r, 'checks')); import c19
hickle.dump(c19.VALUES[%r](), os.environ['HKL19'], 'w')
''' % (VERIF, v))
    p = subprocess.run([sys.executable, '-B', '-c', src], env=env, capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise Viol('dump %s in a process of its own failed: %s' % (v, p.stderr[-500:]))

    def load():
        warnings.simplefilter('ignore')
        return diff(VALUES[v](), hickle.load(name))
    st, out = in_child(load)
    if (st, out) != ('ok', None):
        raise Viol('%s dumped by another process loads as: %s %s' % (v, st, out))
    # dumped here, loaded by a process without anything imported and dumped again
    with open(name, 'wb') as f:
        f.write(source(v, 'new'))
    src = SCRIPT % dict(repo=REPO, verif=VERIF, pre='', do='hickle.dump(hickle.load(os.environ["HKL19"]), os.environ["HKL19"] + "2", "w")')
    p = subprocess.run([sys.executable, '-B', '-c', src], env=dict(env, PYTHONHASHSEED='7'), capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise Viol('%s can not be loaded and dumped by a process which just imported the library: %s' % (v, p.stderr[-500:]))

    def load2():
        warnings.simplefilter('ignore')
        return diff(VALUES[v](), hickle.load(name + '2'))
    st, out = in_child(load2)
    if (st, out) != ('ok', None):
        raise Viol('%s loaded and dumped again by another process loads as: %s %s' % (v, st, out))
    return 4


def run_case(case):
    kind, hist, lasts = case
    reference()
    try:
        if kind == 'alone':
            sane(hist[0])
            lasts, hist = hist, ()
        if kind == 'exchange':
            return Result(exchange(hist[0]), 'same', None)
    except Viol as e:
        return Result(1, 'violation', str(e))
    st, out = in_child(lambda: history(hist, lasts), limit=140)
    if st == 'ok':
        return Result(out, 'same', None, [(hist, o) for o in lasts] or [hist])
    return Result(1, 'violation', '%s: %s' % (text(hist), str(out)[:1500]) if st != 'viol' else out)


CHECK = Check('C19', cases, run_case, init=init, level='model_checking',
              rule='the real code: every history of the bound is executed in a forked process in which nothing has been used before; the observable result of each operation (bytes or content of the file, loaded value, exception, warnings of the library) is compared with its result in a fresh process',
              bound='all pairs of operations (about 150 operations: dump, load and dump into an open file of each kind of value, old formats, 29 failing or unusual operations) with the failing, legacy and one operation of each family first, all orders of first use of 2 (3) of 17 families, all pairs of failing operations, 12 repetitions, everything in one process in many orders; exchange with unrelated processes',
              assumptions=['a forked process which has imported but not used the library counts as fresh', 'warnings of other packages are not compared'])
if __name__ == '__main__':
    run(CHECK)
