"""named value constructors shared by the checks on histories, and general helpers for them"""
import os, sys, collections, enum, importlib.util
import numpy as np
import h5py
import scipy.sparse as sp
from . import zoo, eqv


def load_mod(n):
    key = 'hklmc_' + n
    if key in sys.modules:
        return sys.modules[key]
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks')
    spec = importlib.util.spec_from_file_location(key, os.path.join(d, n + '.py'))
    m = importlib.util.module_from_spec(spec)
    sys.modules[key] = m
    spec.loader.exec_module(m)
    return m


def use_scipy():
    eqv.EXTRA.append((sp.issparse, load_mod('c05').sdiff))


def use_astropy():
    c06 = load_mod('c06')
    eqv.EXTRA.append((lambda a: type(a).__module__.startswith('astropy.'), c06.adiff))


def A():
    return np.arange(6.).reshape(2, 3)


def shared():
    a = A()
    l = [a, 'x']
    return {'p': l, 'q': [l, a]}


def ro(a):
    a.flags.writeable = False
    return a


def counter():
    c = collections.Counter('abca')
    c['z'] = 0
    return c


def dd():
    d = collections.defaultdict(list)
    d['a'].append(1)
    return d


BUILTIN = dict(
    none=lambda: None, true=lambda: True, int=lambda: 5, big=lambda: [2**80, 'x'], flt=lambda: 2.5, cplx=lambda: 1 - 2j, text=lambda: 'h\u00e9', byts=lambda: b'a\0b', nlist=lambda: [1, 2, 3], flist=lambda: [1.5, 2], blist=lambda: [True, False],
    mixed=lambda: [1, 'a', None, [2.5, b'z']], tup=lambda: (1, 'q', (2, 'r')), tlist=lambda: ['a', 'bc', ''], sets=lambda: [{1, 2}, {'a', 3}, set()], empty=lambda: [[], (), {}, '', b''],
    dic=lambda: {'a': 1, 'b': [A(), 'y'], 3: None, 'k/l': 4, (1, 'k'): 'v'}, sub=lambda: {'x': {'y': {'z': [[['d']]]}}}, shared=shared, ragged=lambda: [np.arange(2), np.arange(3), [1, [2]]])
NUMPY = dict(
    arr=A, iarr=lambda: np.arange(4), barr=lambda: np.array([True, False]), carr=lambda: np.array([1j, 2]), bearr=lambda: np.arange(3, dtype='>i4'), farr=lambda: np.asfortranarray(A()), strided=lambda: np.arange(12).reshape(3, 4)[::2, ::-1],
    roarr=lambda: ro(A()), zerod=lambda: np.array(4.), emptya=lambda: np.zeros((0, 3)), strarr=lambda: np.array([['a', 'bc'], ['d', '']]), bytarr=lambda: np.array([b'a', b'bc']), objarr=lambda: np.array([1, 'x', None, [3]], object),
    rec=lambda: np.array([(1, 2.), (3, 4.)], dtype=[('a', 'i4'), ('b', 'f8')]), masked=lambda: np.ma.array(A(), mask=A() > 2), npsc=lambda: [np.float32(1), 'x', np.dtype('i4'), np.int8(3), np.str_('q'), np.bytes_(b'w')], matrix=lambda: np.matrix([[1, 2], [3, 4]]))
SCIPY = dict(csr=lambda: [sp.csr_matrix(np.eye(2)), 'n'], csc=lambda: sp.csc_matrix(np.array([[0, 1], [2, 0]])), bsr=lambda: sp.bsr_matrix(np.eye(2)), coo=lambda: sp.coo_matrix(np.eye(2)))
OBJECTS = dict(plain=lambda: [zoo.Plain(a=1), 'x', zoo.Plain(a=1)], cls=lambda: [zoo.MyList([1, 'x']), zoo.Point(1, 'y'), zoo.MyDict(a='b')], mystr=lambda: zoo.MyStr('q'), ordd=lambda: collections.OrderedDict([('z', 1), ('a', [2, 'x'])]), counter=counter,
               defd=dd, enum=lambda: [zoo.Color.RED, 'x'], data=lambda: zoo.Data(3, [1]), func=lambda: [zoo.func, 'x'], klass=lambda: {'c': zoo.Plain}, state=lambda: zoo.State([1, 'x']), slots=lambda: [zoo.Slots(1, [2])])


def astro_values():
    from astropy import units as u, constants as const
    from astropy.time import Time
    from astropy.table import Table
    from astropy.coordinates import Angle, SkyCoord
    return dict(quant=lambda: np.arange(3.) * u.m, squant=lambda: 2.5 * u.Jy, angle=lambda: Angle([1., 2.], 'deg'), time=lambda: Time([2000., 2001.5], format='jyear', scale='tt'), sky=lambda: SkyCoord([1., 2.] * u.deg, [3., 4.] * u.deg), const=lambda: const.G,
                table=lambda: Table({'a': [1, 2], 'b': [1.5, 2.5]}, meta={'k': 'v'}))


def content(f, where='/', data=True):
    """logical content of an HDF5 group as nested tuples: links in creation or name order, shapes, types, values, filters, attributes; references as names"""
    base = f[where].name.rstrip('/')

    def rel(name):
        return name[len(base):] if name is not None and (name + '/').startswith(base + '/') else name

    def plainv(v):
        if isinstance(v, h5py.Reference):
            return ('ref', rel(f[v].name) if v else None)
        if isinstance(v, h5py.Empty):
            return ('empty', v.dtype.str)
        a = np.asarray(v)
        if a.dtype.hasobject:
            return ('o', a.shape, tuple(plainv(x) if isinstance(x, (h5py.Reference, np.ndarray)) else repr(x) for x in a.reshape(-1)))
        return (type(v).__name__, a.dtype.str, repr(a.dtype.descr) if a.dtype.names else '', a.shape, a.tobytes())

    def node(o):
        at = tuple((k, plainv(v)) for k, v in sorted(o.attrs.items()))
        if isinstance(o, h5py.Group):
            return ('group', at, tuple((n, link(o, n)) for n in o))
        v = plainv(o[()]) if data else None
        return ('dataset', at, o.shape, o.dtype.str, o.chunks, o.compression, o.compression_opts, o.shuffle, o.fletcher32, v)

    def link(g, n):
        k = g.get(n, getlink=True)
        if isinstance(k, h5py.SoftLink):
            return ('soft', k.path)
        if isinstance(k, h5py.ExternalLink):
            return ('ext', k.filename, k.path)
        return node(g[n])
    return node(f[where])


def first_diff(a, b, path=''):
    if type(a) is not type(b) or not isinstance(a, tuple):
        return None if a == b else '%s: %s != %s' % (path, repr(a)[:150], repr(b)[:150])
    if len(a) != len(b):
        return '%s: %s != %s' % (path, repr(a)[:200], repr(b)[:200])
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return first_diff(x, y, '%s/%s' % (path, a[0] if isinstance(a[0], str) and i else i))
    return None


# -- exact state of an object graph ---------------------------------------------
def snap(x, seen=None):
    """identity, type and content of everything reachable; equal snapshots mean nothing was changed"""
    if seen is None:
        seen = {}
    if id(x) in seen:
        return ('seen', seen[id(x)])
    seen[id(x)] = len(seen)
    t = (id(x), type(x).__name__)
    d = getattr(x, '__dict__', None)
    extra = ()
    if isinstance(d, dict) and not isinstance(x, (type, type(snap))) and type(x).__module__ in ('mc.zoo', '__main__'):
        extra = tuple((k, snap(v, seen)) for k, v in d.items())
    if isinstance(x, np.ma.MaskedArray):
        return t + ('ma', x.dtype.str, x.shape, x.strides, x.flags.writeable, x.data.tobytes(), id(x.base), repr(x.mask), repr(x.fill_value), x.hardmask, x.sharedmask, extra)
    if isinstance(x, np.ndarray):
        return t + (x.dtype.str, repr(x.dtype.descr) if x.dtype.names else '', repr(x.dtype.metadata), x.shape, x.strides, x.flags.writeable, x.flags.c_contiguous, x.__array_interface__['data'][0], id(x.base),
                    tuple(snap(i, seen) for i in x.reshape(-1)) if x.dtype.hasobject and not x.dtype.names else x.tobytes(), extra)
    if isinstance(x, (list, tuple, collections.deque)):
        return t + (tuple(snap(i, seen) for i in x), extra)
    if isinstance(x, (set, frozenset)):
        return t + (tuple(snap(i, seen) for i in x), extra)
    if isinstance(x, dict):
        return t + (tuple((snap(k, seen), snap(v, seen)) for k, v in x.items()), repr(getattr(x, 'default_factory', None)), extra)
    if sp.issparse(x):
        return t + (x.shape, x.dtype.str, tuple((n, snap(getattr(x, n), seen)) for n in ('data', 'indices', 'indptr', 'row', 'col', 'offsets') if hasattr(x, n)), getattr(x, 'has_sorted_indices', None), extra)
    if hasattr(type(x), '__slots__') and type(x).__module__ == 'mc.zoo':
        extra += tuple((s, snap(getattr(x, s), seen)) for s in type(x).__slots__ if hasattr(x, s))
    if isinstance(x, type) or callable(x):
        return t + (repr(x),)
    return t + (repr(x), extra)


def arrays(x, out=None, seen=None):
    """all mutable objects reachable from x: (containers, arrays)"""
    if out is None:
        out, seen = ([], []), set()
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        out[1].append(x)
        if isinstance(x, np.ma.MaskedArray):
            arrays(x.mask, out, seen)
        elif x.dtype.hasobject and not x.dtype.names:
            for i in x.reshape(-1):
                arrays(i, out, seen)
        return out
    if isinstance(x, (list, set, dict, bytearray, collections.deque)):
        out[0].append(x)
    if isinstance(x, dict):
        for k, v in x.items():
            arrays(k, out, seen)
            arrays(v, out, seen)
    elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        for i in x:
            arrays(i, out, seen)
    elif sp.issparse(x):
        for n in ('data', 'indices', 'indptr', 'row', 'col', 'offsets'):
            if hasattr(x, n):
                arrays(getattr(x, n), out, seen)
    elif type(x).__module__ in ('mc.zoo', '__main__') and not isinstance(x, (type, enum.Enum)) and not callable(x):
        out[0].append(x)
        if hasattr(x, '__dict__'):
            arrays(x.__dict__, out, seen)
        for s in getattr(type(x), '__slots__', ()):
            if hasattr(x, s):
                arrays(getattr(x, s), out, seen)
    return out


def independent(x, y):
    cx, ax = arrays(x)
    cy, ay = arrays(y)
    ids = {id(i): i for i in cx}
    for i in cy:
        if id(i) in ids:
            return 'both results contain the same %s object' % type(i).__name__
    for a in ax:
        for b in ay:
            if a is b or np.may_share_memory(a, b) and a.nbytes:
                return 'both results share the memory of an array'


def scramble(x):
    """change every mutable object of x in place"""
    cs, ars = arrays(x)
    for a in ars:
        try:
            if not a.flags.writeable:
                continue
            if a.dtype.kind in 'biufc':
                a[...] = 77 if a.dtype.kind != 'b' else ~np.asarray(a)
            elif a.dtype.kind in 'SUO' :
                a[...] = 'Q' if a.dtype.kind != 'S' else b'Q'
            else:
                a[...] = np.zeros((), a.dtype)
        except (ValueError, TypeError):
            pass
    for c in cs:
        if isinstance(c, (list, collections.deque)):
            c.reverse()
            c.append('changed')
        elif isinstance(c, set):
            c.add('changed')
        elif isinstance(c, dict):
            for k in list(c):
                c[k] = 'changed'
            c['changed'] = 1
        elif isinstance(c, bytearray):
            c.append(1)
        elif hasattr(c, '__dict__'):
            try:
                for k in list(c.__dict__):
                    setattr(c, k, 'changed')
            except AttributeError:
                pass
