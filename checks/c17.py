"""C17: files of version 3 and 4.0 load to the values they were written from"""
import os, sys, itertools, io, pathlib, collections, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, Viol, REPO
from mc import eqv, zoo, legacy, values
from mc.eqv import diff
from mc.proc import in_child
import numpy as np
import h5py
import scipy.sparse as sp

VER = ['v3']
WVER = [None]
WRITE = dict(v3=legacy.v3_file, v40=legacy.v40_file)


# ---------------------------------------------------------------------------------------------------------- oracle
def mdiff(a, b, path):
    """a missing mask was written as a mask without masked entries"""
    if type(b) is not np.ma.MaskedArray:
        return '%s: masked array became %s' % (path, type(b).__name__)
    d = eqv.arr_equal(np.asarray(a.data), np.asarray(b.data), path + '.data')
    return d or eqv.arr_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b), path + '.mask')


def ddiff(a, b, path):
    """version 3 did not store the order of keys"""
    if type(b) is not type(a):
        return '%s: dict became %s' % (path, type(b).__name__)
    if len(a) != len(b):
        return '%s: %d keys became %d (%s)' % (path, len(a), len(b), eqv.short(b))
    rest = list(b)
    for k in a:
        for i, l in enumerate(rest):
            if eqv.diff(k, l) is None or (k != k and l != l and type(k) is type(l)):
                d = eqv.diff(a[k], b[l], '%s[%r]' % (path, k))
                if d:
                    return d
                del rest[i]
                break
        else:
            return '%s: key %r missing in %s' % (path, k, eqv.short(list(b)))


def bdiff(a, b, path):
    """byte strings in lists come back as np.bytes_"""
    return None if isinstance(b, bytes) and a == b else '%s: %r became %r' % (path, a, b)


def sbdiff(a, b, path):
    return None if type(b) is set and all(isinstance(x, bytes) for x in b) and a == b else '%s: %r became %r' % (path, a, b)


def adiff(a, b, path):
    from astropy.table import Table
    if type(a).__name__ == 'Time':
        if type(b) is not type(a) or a.format != b.format or a.scale != b.scale or a.shape != b.shape:
            return '%s: %r became %r' % (path, a, b)
        return None if np.all(a == b) else '%s: %r became %r' % (path, a, b)
    if isinstance(a, Table):
        if type(b) is not type(a) or a.colnames != b.colnames or len(a) != len(b):
            return '%s: %r became %r' % (path, a, b)
        for c in a.colnames:
            x, y = np.asarray(a[c]), np.asarray(b[c])
            if x.dtype.kind == 'S' and y.dtype.kind == 'U':
                y = np.char.encode(y, 'utf8').astype(x.dtype)
            d = eqv.arr_equal(x, y, '%s[%s]' % (path, c))
            if d:
                return d
        for k in a.meta:
            if k not in b.meta or not np.all(b.meta[k] == a.meta[k]):
                return '%s: meta %r %r became %r' % (path, k, a.meta[k], b.meta.get(k))
        return None
    if type(a).__name__ == 'SkyCoord':
        if type(b) is not type(a) or a.shape != b.shape:
            return '%s: %r became %r' % (path, a, b)
        return None if np.array_equal(a.data.lon.deg, b.data.lon.deg) and np.array_equal(a.data.lat.deg, b.data.lat.deg) else '%s: %r became %r' % (path, a, b)
    if type(a).__name__.endswith('Constant') or type(a).__module__.startswith('astropy.constants'):
        from astropy.constants import Constant
        if not isinstance(b, Constant):
            return '%s: %r became %r' % (path, a, b)
        for k in ('value', 'unit', 'abbrev', 'name', 'reference', 'uncertainty', 'system'):
            if getattr(a, k) != getattr(b, k):
                return '%s.%s: %r became %r' % (path, k, getattr(a, k), getattr(b, k))
        return None
    if type(b) is not type(a) or b.unit != a.unit:
        return '%s: %r became %r' % (path, a, b)
    return eqv.arr_equal(np.asarray(a.value, 'f8'), np.asarray(b.value), path)


def init(tier):
    values.use_scipy()
    eqv.EXTRA[:0] = [(lambda a: isinstance(a, np.ma.MaskedArray), mdiff), (lambda a: isinstance(a, dict) and VER[0] == 'v3', ddiff),
                     (lambda a: type(a) is bytes and VER[0] == 'v40', bdiff),
                     (lambda a: type(a) is set and VER[0] == 'v40' and bool(a) and all(type(x) is bytes for x in a), sbdiff), (lambda a: type(a).__module__.startswith('astropy.'), adiff)]


def numeric(l):
    return l


# ---------------------------------------------------------------------------------------------------------- values
LEAF = dict(
    none=lambda: None, true=lambda: True, false=lambda: False, zero=lambda: 0, one=lambda: 1, neg=lambda: -7, imin=lambda: -2**63, imax=lambda: 2**63 - 1, flt=lambda: 2.5, nzero=lambda: -0.0, inf=lambda: float('inf'), nan=lambda: float('nan'), tiny=lambda: 5e-324,
    cplx=lambda: 1.5 - 2j, text=lambda: 'abc', text0=lambda: '', uni=lambda: 'h\u00e9\u2603\U0001f600', quote=lambda: "b'it\"s'", nl=lambda: 'a\n\tb', long=lambda: 'xy' * 3000, byts=lambda: b'ab', byts0=lambda: b'', bin=lambda: b'a\0b\xff\x80', qbytes=lambda: b"b'q'",
    lint=lambda: [1, 2, 3], lbool=lambda: [True, False], lflt=lambda: [1.5, -2.5], lcplx=lambda: [1j, 2], l1=lambda: [5], lstr=lambda: ['a', 'bcd', 'e'], luni=lambda: ['\u00e9', 'x', '\u2603\u2603'], lempty=lambda: ['', 'ab', ''], lchar=lambda: ['a', 'b'], lbytes=lambda: [b'a', b'bcd'], lbin=lambda: [b'\xff\x00\x01', b'', b'z'], lbyte1=lambda: [b'a', b'b'],
    tint=lambda: (1, 2), tflt=lambda: (0.5,), tstr=lambda: ('p', 'qr'), tbytes=lambda: (b'p', b'qr'), sint=lambda: {1, 5}, sstr=lambda: {'a', 'bc'}, sbytes=lambda: {b'a', b'bc'}, sflt=lambda: {1.5}, l0=lambda: [], t0=lambda: (), s0=lambda: set(), d0=lambda: {},
    mix=lambda: [1, 'a', None, 2.5], tmix=lambda: (1, 'a'), smix=lambda: {1, 'a'}, lnone=lambda: [None, None], ll=lambda: [[1, 2], [3]], lt=lambda: [(1, 'x'), ()], dic=lambda: {'a': 1, 'b': 'x'}, many=lambda: list(range(11)) + ['x', 2.5], manyt=lambda: tuple(str(i) for i in range(3)) + tuple(range(10)),
    arr=lambda: np.arange(6.).reshape(2, 3), arr0=lambda: np.array(4), arre=lambda: np.zeros((0, 2)), arrS=lambda: np.array([b'ab', b'c']), barr=lambda: np.array([True, False]), carr=lambda: np.array([1j]), be=lambda: np.arange(3, dtype='>i2'), rec=lambda: np.array([(1, 2.)], dtype=[('a', 'i4'), ('b', 'f8')]),
    arrU=lambda: np.array(['a', 'bc']), arrU0=lambda: np.array('text'), objd=lambda: np.array({'a': 1}, object), objn=lambda: np.array([1, 'x'], object)[0:1].reshape(()), mask=lambda: np.ma.array([1, 2, 3], mask=[0, 1, 0]), mask0=lambda: np.ma.array([1., 2.]), mask2=lambda: np.ma.array(np.arange(4).reshape(2, 2), mask=np.eye(2)),
    i1=lambda: np.int8(-3), u8=lambda: np.uint64(2**63), f4=lambda: np.float32(0.1), f8=lambda: np.float64(0.1), c8=lambda: np.complex64(1 + 2j), f2=lambda: np.float16(0.5), nbool=lambda: np.bool_(True),
    csr=lambda: sp.csr_matrix([[0, 1.5], [2, 0]]), csc=lambda: sp.csc_matrix([[0, 1, 0], [2, 0, 0]]), bsr=lambda: sp.bsr_matrix(np.kron(np.eye(2), np.ones((2, 1))), blocksize=(2, 1)), csr0=lambda: sp.csr_matrix((2, 3)),
    rng=lambda: range(3), frz=lambda: frozenset([1]), func=lambda: zoo.func, plain=lambda: zoo.Plain(a=1), klass=lambda: zoo.Plain, enum=lambda: zoo.Color.RED, point=lambda: zoo.Point(1, 2), dt=lambda: np.dtype('>i4'), dec=lambda: __import__('decimal').Decimal('1.5'), big=lambda: 2**70, ell=lambda: Ellipsis)
ASTRO = ['quant', 'squant', 'squant0', 'qdimless', 'angle', 'angle0', 'sky', 'sky0', 'time', 'time0', 'timeiso', 'timeiso0', 'table', 'tablemeta', 'tableS', 'const', 'emconst', 'skyu', 'skyh', 'tablearr', 'tableS1', 'angleh', 'quantbig']
WRAP = dict(l=lambda x: [x], ls=lambda x: [x, 's'], sl=lambda x: ['s', x, 2.5, x], t=lambda x: (x,), ts=lambda x: ('s', x), d=lambda x: {'k': x}, di=lambda x: {3: x, -1: 's'}, du=lambda x: {'h\u00e9 "q"': x, "it's": None}, dm=lambda x: {'b': x, 'a': [x], 'c': {'d': x}})
KEYS = ['a', 'a/b', '/', '//x', ('a/b', 1), '', 'a b', '1', 'None', 'h\u00e9', "it's", '"q"', '\\', 'a\nb', 'True', 0, 1, -5, 10, 2**40, 1.5, -0.25, 1e300, float('inf'), float('-inf'), True, False, 2j, 1 + 2j, -1 - 0.5j, (1, 2), ('a',), (), (1, (2, 'x')), ('a b', ' '), (' ',), ('1', 1), (True, None, -1), (1.5, None), None, b'k', b'\xff']


def astro(n):
    from astropy import units as u
    from astropy.time import Time
    from astropy.table import Table
    from astropy.coordinates import Angle, SkyCoord
    from astropy import constants as co
    return dict(const=lambda: co.G, emconst=lambda: co.c, quant=lambda: np.arange(3.) * u.m / u.s, squant=lambda: 2.5 * u.Jy, squant0=lambda: np.arange(4.).reshape(2, 2) * u.km, qdimless=lambda: 2. * u.dimensionless_unscaled, angle=lambda: Angle([1., 2.], 'deg'), angle0=lambda: Angle(1.5, 'rad'),
                skyu=lambda: SkyCoord([1., 2.] * u.hourangle, [30., -40.] * u.deg), skyh=lambda: SkyCoord([[1., 2.]] * u.deg, [[-0.5, 0.25]] * u.rad), tablearr=lambda: Table({'a': [1, 2]}, meta={'v': np.arange(3), 'f': 1.5, 'w': np.array([b'ab', b'c'])}), tableS1=lambda: Table({'s': np.array([b'', b'c d '])[:2], 'i': np.array([1, 2], 'i1'), 'z': np.array([[1, 2], [3, 4]])}),
                angleh=lambda: Angle([1.5, -2.], 'hourangle'), quantbig=lambda: np.arange(24.).reshape(2, 3, 4) * u.Unit('km / (Mpc s)'),
                sky=lambda: SkyCoord([1., 2.] * u.deg, [3., 4.] * u.deg), sky0=lambda: SkyCoord(1 * u.deg, 3 * u.deg), time=lambda: Time([2000., 2001.5], format='jyear', scale='tt'), time0=lambda: Time(51000.25, format='mjd', scale='utc'),
                timeiso=lambda: Time(['2000-01-01 00:00:00.000', '2001-05-01 12:00:00.000']), timeiso0=lambda: Time('2000-01-01T00:00:00.000', format='isot', scale='utc'),
                table=lambda: Table({'a': [1, 2], 'b': [1.5, 2.5]}), tablemeta=lambda: Table({'x': [True, False]}, meta={'k': 'v', 'n': 5}), tableS=lambda: Table({'s': np.array([b'ab', b'c']), 'z': np.zeros(2, 'f4')}))[n]()


def leaf(n):
    return astro(n) if n in ASTRO else LEAF[n]()


PATHS = ['/', '/a', 'a', '/a/b', 'test', '/d\u00e9/x y']
DT = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16', 'S1', 'S7', '>i2', '>f8', '>u4', '>c8']
SHAPES = [(), (0,), (1,), (3,), (2, 2), (0, 2), (2, 0, 3), (1, 1, 2), (2, 1, 2, 1)]
TARGETS = ['name', 'path', 'bytespath', 'h5r', 'h5r+', 'group', 'subgroup', 'bio', 'open_rb', 'open_r+b', 'tuple', 'dict']
REPR = ['dic', 'mix', 'arr', 'mask', 'text', 'uni', 'lstr', 'csr', 'cplx', 'plain', 'none', 'objd', 'quant']


def cases(tier):
    T = tier == 'thorough'
    names = list(LEAF) + ASTRO
    # in processes in which nothing else has been loaded before (first of all cases: this process is still untouched)
    for v in WRITE:
        for n in names:
            for w in ((), ('ls',), ('d',)):
                yield ('fresh', v, n, w, '/')
    for v in WRITE:
        yield ('sample', v)
        for n in names:
            for depth in range(3 if not T else 4):
                ws = itertools.product(WRAP, repeat=depth)
                for i, w in enumerate(ws):
                    if depth == 3 and n not in REPR + ['lint', 'd0', 'l0', 'lempty', 'mask0', 'l1', 't0', 'byts']:
                        continue
                    yield ('v', v, n, w, PATHS[i % len(PATHS)] if depth else '/')
            for p in PATHS:
                yield ('v', v, n, (), p)
        for a, b in itertools.product(names, repeat=2):
            for w in ('lp', 'tp', 'dp') if T else ('lp',):
                yield ('pair', v, a, b, w)
        for d in DT:
            for s in SHAPES:
                for k in ('arr', 'mask', 'masknone', 'maskpart', 'inlist', 'scalar'):
                    yield ('arr', v, d, s, k)
        for a in range(len(KEYS)):
            yield ('key', v, (a,))
        for a, b in itertools.combinations(range(len(KEYS)), 2):
            yield ('key', v, (a, b))
        if T:
            for ks in itertools.combinations(range(len(KEYS)), 3):
                yield ('key', v, ks)
        for tg in TARGETS:
            for p in ('/', '/a/b'):
                for n in REPR:
                    yield ('target', v, tg, p, n)
        for n in REPR:
            for m in REPR:
                for how in range(4):
                    if v == 'v40' or how in (0, 2):  # a new value inside the group of a version 3 value is no such file any more
                        yield ('mixed', v, n, m, how)
        for n in (REPR if not T else names):
            for m in REPR:
                yield ('two', v, n, m)
        for n in names:
            for ver in VERSIONS[v]:
                yield ('version', v, n, ver)
        for f in ('csr', 'csc', 'bsr'):
            for d in DT:
                for i in range(4):
                    yield ('sparse', v, f, d, i)
        for items in itertools.product(['', 'a', 'bc', '\u00e9', ' '], repeat=3 if not T else 4):
            for t in ('list', 'tuple', 'set'):
                yield ('strs', v, t, items)
        for items in itertools.product([b'', b'a', b'bc', b'\xff', b'\0x', b' '], repeat=3 if not T else 4):
            for t in ('list', 'tuple', 'set'):
                yield ('strs', v, t, items)


VERSIONS = dict(v3=['3.0.0', '3.2.0', '3.3.1', '3.4.0', '3.4.7', '3.10.2'], v40=['4.0.0', '4.0.2', '4.0.3', '4.0.4', '4.0.10'])


def sparse(f, d, i):
    d = np.dtype(d)
    if d.kind not in 'biufc' or d == np.float16 or not d.isnative:  # not supported by SciPy
        return None
    a = [np.array([[0, 1, 0], [2, 0, 3]]), np.zeros((2, 2)), np.array([[5]]), np.array([[0, 0, 0, 7], [1, 0, 0, 0]])][i].astype(d)
    if f == 'bsr':
        m = sp.bsr_matrix(a.astype(d.newbyteorder('=')), blocksize=[(1, 1), (2, 1), (1, 1), (2, 2)][i])
    else:
        m = getattr(sp, f + '_matrix')(a.astype(d.newbyteorder('=')))
    m.data = m.data.astype(d)
    return m


def mem():
    return io.BytesIO()


def write(v, value, path, how=None):
    b = io.BytesIO()
    with h5py.File(b, 'w') as f:
        WRITE[v](value, f, path, **({"version": WVER[0]} if WVER[0] else {}))
    return b.getvalue()


def load(data, path):
    import hickle
    return hickle.load(io.BytesIO(data), path=path, filename='mem.hkl')


def attempt(v, value, path):
    try:
        data = write(v, value, path)
    except legacy.Unsupported:
        return Result(0, 'trivial')
    try:
        back = load(data, path)
    except Exception as e:
        c = e.__cause__
        return Result(2, 'load raised', '%s file of %s at %s: load raised %s: %s (%r)' % (v, eqv.short(value), path, type(e).__name__, str(e)[:300], c))
    d = diff(value, back)
    return Result(2, 'equal', d and '%s file of %s at %s: %s' % (v, eqv.short(value), path, d))


def arr_value(d, s, k):
    d = np.dtype(d)
    n = int(np.prod(s, dtype=int))
    if d.kind == 'S':
        a = np.array([(b'abcdefg' * 2)[i % 7:i % 7 + 1 + i % d.itemsize] for i in range(n)], d).reshape(s)
    elif d.kind == 'b':
        a = (np.arange(n) % 2 == 0).reshape(s)
    else:
        a = ((np.arange(n) + 1) * (1.5 if d.kind in 'fc' else 1)).astype(d)
        if d.kind == 'c':
            a = a * d.type(1 - 2j)
        a = np.asarray(a, d).reshape(s)
    if k == 'arr':
        return a
    if k == 'inlist':
        return [a, a.copy(), 'x']
    if k == 'scalar':
        if s != () or not d.isnative or d.kind in 'Sb':
            return None
        return a[()]
    if k == 'mask':
        return np.ma.array(a, mask=True)
    if k == 'masknone':
        return np.ma.array(a)
    m = (np.arange(n) % 2 == 0).reshape(s)
    return np.ma.array(a, mask=m)


def run_case(case):
    k, v = case[0], case[1]
    VER[0] = v
    if k == 'fresh':
        st, r = in_child(lambda: (lambda q: (q.ops, q.outcome, q.viol))(run_case(('v',) + case[1:])))
        if st != 'ok':
            return Result(1, 'died', 'loading in a fresh process: %s' % (r,))
        return Result(r[0], r[1], r[2] and 'first operation of a process: ' + r[2])
    if k == 'v':
        x = leaf(case[2])
        for w in reversed(case[3]):
            x = WRAP[w](x)
        return attempt(v, x, case[4])
    if k == 'version':
        WVER[0] = case[3]
        try:
            return attempt(v, leaf(case[2]), '/')
        finally:
            WVER[0] = None
    if k == 'sparse':
        m = sparse(*case[2:])
        return Result(0, 'trivial') if m is None else attempt(v, [m, 'x'], '/')
    if k == 'pair':
        a, b = leaf(case[2]), leaf(case[3])
        return attempt(v, dict(lp=lambda: [a, b], tp=lambda: (a, b), dp=lambda: {'x': a, 'y': b})[case[4]](), '/')
    if k == 'arr':
        if v == 'v3' and case[3] == () and (not np.dtype(case[2]).isnative or case[2] == 'S7'):
            return Result(0, 'trivial')  # version 3 itself gave them in native byte order and minimal length
        return attempt(v, arr_value(*case[2:]), '/p')
    if k == 'key':
        d = {}
        for i, n in enumerate(case[2]):
            d[KEYS[n]] = [i, 'v%d' % i]
        if len(d) != len(case[2]):
            return Result(0, 'trivial')
        return attempt(v, d, '/')
    if k == 'strs':
        return attempt(v, dict(list=list, tuple=tuple, set=set)[case[2]](case[3]), '/')
    return dict(target=target, mixed=mixed, two=two, sample=sample)[k](*case[1:])


def target(v, tg, path, n):
    import hickle
    value = leaf(n)
    try:
        data = write(v, value, path)
    except legacy.Unsupported:
        return Result(0, 'trivial')
    d = os.environ['HKLMC_SCRATCH']
    name = os.path.join(d, 'old.hkl')
    with open(name, 'wb') as f:
        f.write(data)
    os.utime(name, (1e9, 1e9))
    closers = []
    kw = {}
    try:
        for turn in range(2):
            checkh = None
            if tg == 'name':
                obj = name
            elif tg == 'path':
                obj = pathlib.Path(name)
            elif tg == 'bytespath':
                obj = open(name, 'rb')
                closers.append(obj)
            elif tg in ('h5r', 'h5r+'):
                if turn == 0:
                    h = h5py.File(name, tg[2:])
                    closers.append(h)
                obj, checkh = h, h
            elif tg in ('group', 'subgroup'):
                if turn == 0:
                    h = h5py.File(name, 'r')
                    closers.append(h)
                obj, checkh = (h['/'], h['/']) if tg == 'group' else (h[path], h[path])
            elif tg == 'bio':
                obj = io.BytesIO(data)
            elif tg in ('open_rb', 'open_r+b'):
                obj = open(name, tg[5:])
                closers.append(obj)
            elif tg == 'tuple':
                obj = (io.BytesIO(data), 'x.hkl')
            elif tg == 'dict':
                obj = dict(file=io.BytesIO(data), name='x.hkl')
            if tg in ('bio',) or (tg in ('bytespath', 'open_rb', 'open_r+b') and False):
                kw = dict(filename='x.hkl')
            cls = type(obj)
            p = path
            if tg == 'subgroup':
                p = '/' if path == '/' else ''
                p = '/'
            back = hickle.load(obj, path=p, **kw)
            df = diff(value, back)
            if df:
                return Result(turn + 1, 'different', '%s through %s (load %d): %s' % (v, tg, turn + 1, df))
            if type(obj) is not cls:
                return Result(2, 'different', 'class of the passed object changed to %r' % type(obj))
            if checkh is not None and (not bool(checkh) or not bool(h.id.valid)):
                return Result(2, 'different', 'open handle passed to load has been closed')
            if tg in ('bytespath', 'open_rb', 'open_r+b'):
                if obj.closed:
                    return Result(2, 'different', 'open file passed to load has been closed')
            if tg == 'bio' and (obj.closed or obj.getvalue() != data):
                return Result(2, 'different', 'buffer passed to load was modified')
    except Exception as e:
        return Result(2, 'load raised', '%s through %s at %s: load %d raised %s: %s (%r)' % (v, tg, path, turn + 1, type(e).__name__, str(e)[:300], e.__cause__))
    finally:
        for c in closers[::-1]:
            c.close()
    with open(name, 'rb') as f:
        after = f.read()
    if after != data and tg != 'h5r+':
        return Result(2, 'modified', 'loading modified the old file')
    return Result(2, 'equal')


def mixed(v, n, m, how):
    """a new value dumped into an old file: old and new are there in any order of loading, repeatedly"""
    import hickle
    old, new = leaf(n), leaf(m)
    oldpath, newpath = [('/old', '/new'), ('/old', '/old/sub'), ('/o/a', '/o/b'), ('/', '/new')][how]
    try:
        data = write(v, old, oldpath)
    except legacy.Unsupported:
        return Result(0, 'trivial')
    try:
        from_ = write('v3', new, '/')
    except legacy.Unsupported:
        pass
    b = io.BytesIO(data)
    ops = 0
    try:
        with h5py.File(b, 'r+') as f:
            hickle.dump(new, f, path=newpath)
        ops += 1
        data2 = b.getvalue()
        for order in ((0, 1), (1, 0)):
            with h5py.File(io.BytesIO(data2), 'r') as f:
                for w in order + order:
                    back = hickle.load(f, path=(oldpath, newpath)[w])
                    ops += 1
                    VER[0] = v if w == 0 else 'v3'
                    d = diff((old, new)[w], back)
                    if d:
                        return Result(ops, 'different', '%s %s of a %s file with a new value at %s: %s' % (('old value at ' + oldpath, 'new value at ' + newpath)[w], '', v, newpath, d))
    except Exception as e:
        return Result(ops, 'raised', '%s file, old value %s at %s, new one %s at %s: %s: %s (%r)' % (v, n, oldpath, m, newpath, type(e).__name__, str(e)[:300], e.__cause__))
    return Result(ops, 'equal')


def two(v, n, m):
    """several old values in one file"""
    a, b = leaf(n), leaf(m)
    buf = io.BytesIO()
    try:
        with h5py.File(buf, 'w') as f:
            WRITE[v](a, f, '/x')
            WRITE[v](b, f, '/y/z')
    except legacy.Unsupported:
        return Result(0, 'trivial')
    for order in ((0, 1), (1, 0, 0)):
        for w in order:
            try:
                back = load(buf.getvalue(), ('/x', '/y/z')[w])
            except Exception as e:
                return Result(2, 'raised', 'two %s values in one file: %s (%r)' % (v, e, e.__cause__))
            d = diff((a, b)[w], back)
            if d:
                return Result(2, 'different', d)
    return Result(5, 'equal')


def pythonic(x):
    """numeric items come back as NumPy scalars"""
    if isinstance(x, np.bytes_):
        return bytes(x)
    if isinstance(x, (list, tuple, set)) and type(x) in (list, tuple, set):
        return type(x)([i.item() if isinstance(i, np.generic) and not isinstance(i, np.bytes_) else pythonic(i) for i in x])
    if type(x) is dict:
        return {k: pythonic(y) for k, y in x.items()}
    return x


def layout(o, v):
    at = {}
    for k, x in o.attrs.items():
        at[k] = (np.asarray(x).dtype.kind, str(x) if k in ('base_type', 'str_type', 'np_dtype', 'key_base_type', 'key_idx', 'python_subdtype', 'key_type', 'py3_string_type') or v == 'v3' and k == 'type' else '')
    if isinstance(o, h5py.Group):
        return ('group', at, {k: layout(o[k], v) for k in o})
    # version 3 sample: 32 bit integers of the platform it was written on
    return ('dataset', at, o.shape, o.dtype.kind, o.dtype.str if o.dtype.kind not in 'S' and not (v == 'v3' and o.dtype.kind == 'i') else '')


def layout_diff(a, b, path):
    if a == b:
        return None
    if a[0] == b[0] == 'group' and a[1] == b[1] and set(a[2]) == set(b[2]):
        for k in a[2]:
            d = layout_diff(a[2][k], b[2][k], path + '/' + k)
            if d:
                return d
    return '%s: %r in the sample, %r by the writer' % (path, a, b)


def sample(v):
    """conformance of the writers: for the items of the stored file of that version they produce the layout found in that file"""
    import hickle
    name = os.path.join(REPO, 'hickle', 'tests', 'legacy_hkls', {'v3': 'hickle_3_4_9.hkl', 'v40': 'hickle_4.0.0.hkl'}[v])
    if not os.path.exists(name):
        return Result(0, 'trivial')
    try:
        val = hickle.load(name, path={'v3': 'test', 'v40': '/'}[v])
    except Exception as e:
        return Result(1, 'raised', 'stored %s file can not be loaded: %s' % (v, e))
    ops = 1
    with h5py.File(name, 'r') as f:
        top = f['test/data_0'] if v == 'v3' else f['data']
        for k, x in (val.items() if v == 'v3' else enumerate(val)):
            b = io.BytesIO()
            try:
                with h5py.File(b, 'w') as g:
                    WRITE[v](pythonic(x), g, '/')
            except legacy.Unsupported:
                continue
            with h5py.File(b, 'r') as g:
                d = layout_diff(layout(top[repr(k)]['data_0'] if v == 'v3' else top['data_%d' % k], v), layout(g['data_0' if v == 'v3' else 'data'], v), repr(k))
            if d:
                return Result(ops, 'different', 'item of the stored %s file: %s' % (v, d))
            d = diff(pythonic(x), load(b.getvalue(), '/'))
            if d:
                return Result(ops, 'different', d)
            ops += 2
    return Result(ops, 'conforms')


CHECK = Check('C17', cases, run_case, init=init, level='exploration',
              rule='product of value kinds, nesting, element types, shapes, dictionary keys, target kinds and neighbours, written by independent writers of the formats of version 3 and 4.0 and loaded by the code; values compared structurally',
              bound='105 kinds of leaf under all stacks of 2 (3) of 9 containers; all pairs of kinds; 20 dtypes x 9 shapes x 5 kinds of array; all pairs (triples) of 34 keys; 12 kinds of file target; old and new values together',
              assumptions=['the writers in mc/legacy.py describe the formats of 3.4.9 and 4.0.x', 'version 3 did not store the order of keys, neither format the absence of a mask'])
if __name__ == '__main__':
    run(CHECK)
