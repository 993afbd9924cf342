"""C08: storage keywords are transparent and applied"""
import os, sys, itertools, io, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result
from mc.rt import dump_bytes, load_bytes
from mc.eqv import diff
from mc import zoo
import numpy as np
import h5py
import scipy.sparse as sp
import importlib.util


def load_mod(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


c05 = load_mod('c05')
c06 = load_mod('c06')
from astropy import units as u, constants as const
from astropy.time import Time
from astropy.table import Table
from astropy.coordinates import Angle, Longitude, SkyCoord

COMP = [{}, dict(compression='gzip'), dict(compression='gzip', compression_opts=0), dict(compression='gzip', compression_opts=9), dict(compression='lzf'), dict(compression=True), dict(compression=5), dict(compression=0)]
OTHER = [{}, dict(shuffle=True), dict(fletcher32=True), dict(shuffle=True, fletcher32=True), dict(chunks=True), dict(chunks=True, shuffle=True, fletcher32=True), dict(shuffle=False)]


def A():
    return np.arange(24, dtype='f8').reshape(4, 6) / 7


def shared():
    a = np.arange(50)
    l = [a, 'x']
    return {'p': a, 'q': l, 'r': [l, a, {'s': a}]}


ALL = ['arr', 'arr_i4', 'arr_empty', 'arr_0d', 'arr_bool', 'arr_c', 'arr_S', 'arr_U', 'arr_obj', 'arr_struct', 'arr_f2', 'arr_big', 'arr_one', 'arr_2d0', 'scalar_np', 'masked', 'masked0', 'matrix', 'dtype',
       'int', 'bigint', 'float', 'complex', 'bool', 'none', 'str', 'str0', 'bytes', 'bytes0', 'list_num', 'list_mixed', 'list_empty', 'tuple', 'set', 'set_mixed', 'set0', 'dict', 'dict0', 'dict_keys', 'nested', 'shared',
       'long_str', 'big_list', 'plain', 'func', 'mylist', 'namedtuple', 'csr', 'csc', 'bsr', 'coo', 'dok', 'quantity', 'quantity0', 'angle', 'lon', 'time', 'time_s', 'time_s0', 'sky', 'sky0', 'const', 'table', 'table_u', 'table0', 'enum', 'frozen', 'bools', 'bigints', 'arr_U0', 'arr_S0']


def value(n):
    return dict(
        arr=A, arr_i4=lambda: np.arange(1000, dtype='i4') % 17, arr_empty=lambda: np.zeros((0, 3)), arr_0d=lambda: np.array(2.5), arr_bool=lambda: np.arange(40) % 3 == 0, arr_c=lambda: A() * 1j,
        arr_S=lambda: np.array([b'ab', b'c', b''] * 5), arr_U=lambda: np.array(['\u00e9', 'b', 'ccc'] * 5), arr_obj=lambda: np.array([1, 'x', None, [1]], object), arr_struct=lambda: np.zeros(9, [('a', 'i4'), ('b', 'f8')]),
        arr_f2=lambda: np.arange(30, dtype='f2'), arr_big=lambda: np.arange(30000, dtype='>i8') % 100, arr_one=lambda: np.ones((1,)), arr_2d0=lambda: np.zeros((3, 0), 'i2'), scalar_np=lambda: np.float32(1.25),
        masked=lambda: np.ma.array(A(), mask=A() > 1), masked0=lambda: np.ma.array(5, mask=True), matrix=lambda: np.matrix(A()), dtype=lambda: np.dtype('>i4'), int=lambda: 7, bigint=lambda: 2**90, float=lambda: 1.5,
        complex=lambda: 2j, bool=lambda: True, none=lambda: None, str=lambda: 'h\u00e9llo', str0=lambda: '', bytes=lambda: b'\0ab', bytes0=lambda: b'', list_num=lambda: list(range(30)), list_mixed=lambda: [1, 'a', None, 2.5, [3]],
        list_empty=lambda: [], tuple=lambda: (1.5, 2.5), set=lambda: set(range(20)), set_mixed=lambda: {1, 'a', (2,)}, set0=lambda: set(), dict=lambda: {'a': A(), 'b': 'x', 'c': [1, 2]}, dict0=lambda: {}, dict_keys=lambda: {1: 2, (1, 'x'): A(), None: 'n', 'a/b': [1, 'q']},
        nested=lambda: [[[[A(), 'x'], {'k': (1, 2)}]]], shared=shared, long_str=lambda: 'ab' * 5000, big_list=lambda: [str(i) for i in range(120)], plain=lambda: zoo.Plain(a=1, b=[1, 2]), func=lambda: zoo.func, mylist=lambda: zoo.MyList([1, 'x']), namedtuple=lambda: zoo.Point(1, [2]),
        csr=lambda: sp.csr_matrix(np.eye(5)), csc=lambda: sp.csc_matrix(np.zeros((3, 4))), bsr=lambda: sp.bsr_matrix(np.kron(np.eye(2), np.ones((2, 2)))), coo=lambda: sp.coo_matrix(np.eye(3)), dok=lambda: sp.dok_matrix(np.eye(3)),
        quantity=lambda: A() * u.m, quantity0=lambda: 3 * u.km, angle=lambda: Angle([1, 2], 'deg'), lon=lambda: Longitude(5, 'deg'), time=lambda: Time([50000., 51000.], format='mjd'), time_s=lambda: Time(['2000-01-01', '2001-01-01']), time_s0=lambda: Time('2000-01-01'),
        sky=lambda: SkyCoord([1, 2] * u.deg, [3, 4] * u.deg), sky0=lambda: SkyCoord(1 * u.deg, 3 * u.deg), const=lambda: const.G, table=lambda: Table([[1, 2], [3., 4.]], names=['a', 'b'], meta={'m': 1}), table_u=lambda: Table([['x', 'y']], names=['s']), table0=lambda: Table(np.zeros(0, [('a', 'i4')])),
        enum=lambda: zoo.Color.RED, frozen=lambda: frozenset([1]), bools=lambda: [True, False] * 9, bigints=lambda: [2**70, 2**71], arr_U0=lambda: np.array('x\u00e9'), arr_S0=lambda: np.array(b'xyz'))[n]()


CTX = [lambda x: x, lambda x: [x, 's'], lambda x: {'k': x, 'l': [x]}]


def filters():
    for c in COMP:
        for o in OTHER:
            yield dict(c, **o)


def cases(tier):
    T = tier == 'thorough'
    fl = list(filters())
    for n in ALL:
        for k, f in enumerate(fl):
            for c in range(3):
                if T or c == 0 or (k % 5 == c):
                    yield ('v', n, tuple(sorted(f.items())), c)
    for f in fl:
        for k in range(4):
            yield ('applied', tuple(sorted(f.items())), k)
        for k in APPLIED:
            yield ('applied', tuple(sorted(f.items())), k)
    for a, b in itertools.product(ALL, repeat=2):
        if T or (hash_(a + b) % 4 == 0):
            yield ('mix', a, b)


def hash_(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0xffffffff
    return h >> 4


def gdiff(a, b, path='value'):
    if type(a) in (list, tuple) and not all(isinstance(x, (int, float, complex, np.number)) for x in a) or type(a) is dict:
        it = list(a.items()) if type(a) is dict else list(enumerate(a))
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %s became %s' % (path, type(a).__name__, type(b).__name__)
        jt = list(b.items()) if type(a) is dict else list(enumerate(b))
        for (ka, x), (kb, y) in zip(it, jt):
            d = diff(ka, kb, path + ' key') or gdiff(x, y, '%s[%r]' % (path, ka))
            if d:
                return d
        return None
    if sp.issparse(a):
        return c05.gdiff(a, b, path)
    if isinstance(a, (u.Quantity, Time, SkyCoord, Table)):
        return c06.adiff(a, b, path)
    return diff(a, b, path)


def ids(v, out=None, path=()):
    """paths of all mutable containers and arrays grouped by identity"""
    out = {} if out is None else out
    if isinstance(v, (list, dict, np.ndarray)):
        out.setdefault(id(v), []).append(path)
    if type(v) in (list, tuple):
        for i, x in enumerate(v):
            ids(x, out, path + (i,))
    elif type(v) is dict:
        for k in v:
            ids(v[k], out, path + (repr(k),))
    return out


def run_case(case):
    warnings.simplefilter('ignore')
    if case[0] == 'applied':
        return applied(case)
    if case[0] == 'mix':
        v, kw = [value(case[1]), {'b': value(case[2])}, 'z'], dict(compression='gzip', shuffle=True, fletcher32=True)
    else:
        v, kw = CTX[case[3]](value(case[1])), dict(case[2])
    try:
        data = dump_bytes(v, **kw)
    except Exception as e:
        return Result(1, 'raised', 'dump with %r raised %s: %s' % (kw, type(e).__name__, str(e)[:300]))
    try:
        back = load_bytes(data)
    except Exception as e:
        return Result(2, 'raised', 'load (dumped with %r) raised %s: %s' % (kw, type(e).__name__, str(e)[:300]))
    d = gdiff(v, back)
    if d is None and sorted(ids(v).values()) != sorted(ids(back).values()):
        d = 'sharing of objects changed'
    return Result(2, 'equal' if d is None else 'different', d)


def filter_diff(d, kw):
    comp = kw.get('compression')
    want = {True: 'gzip', 5: 'gzip', 0: 'gzip'}.get(comp, comp) if comp is not None else None
    if comp is False:
        want = None
    if d.compression != want:
        return 'compression %r requested, dataset %s has %r' % (comp, d.shape, d.compression)
    lvl = kw.get('compression_opts', comp if type(comp) is int else None)
    if lvl is not None and d.compression_opts != lvl:
        return 'level %r requested, dataset has %r' % (lvl, d.compression_opts)
    if kw.get('shuffle') and not d.shuffle:
        return 'shuffle requested but not applied'
    if kw.get('fletcher32') and not d.fletcher32:
        return 'checksum requested but not applied'
    if kw.get('chunks') and d.chunks is None:
        return 'chunking requested but not applied'
    if not kw and d.compression is not None:
        return 'compressed without request'


def uniq(k, dt='f8'):
    # arrays whose shape identifies them in the file
    return np.arange(1000 + k, dtype='f8').astype(dt)


def applied_values():
    out = {}
    for i, dt in enumerate(['i1', 'u1', 'i2', '>i2', 'u4', 'i8', '>i8', 'u8', 'f2', 'f4', '>f4', 'f8', '>f8', 'c8', 'c16', '?']):
        out['dt' + dt] = lambda dt=dt, i=i: (uniq(i, dt), [(1000 + i,)])
    for shp in ((1,), (2,), (3,), (7,), (1, 1), (2, 3), (5, 1), (31, 33), (3, 2, 1), (2, 2, 2, 2), (1,) * 8):
        out['sh%s' % (shp,)] = lambda shp=shp: (np.ones(shp), [shp])
        out['shn%s' % (shp,)] = lambda shp=shp: (['s', {'k': (np.ones(shp), None)}], [shp])
    out['list'] = lambda: ([x for i in range(40) for x in (uniq(i), 's%d' % i)], [(1000 + i,) for i in range(40)])
    out['tuple'] = lambda: (tuple(uniq(i) for i in range(70)), [(1000 + i,) for i in range(70)])
    out['dict'] = lambda: ({k: uniq(i) for i, k in enumerate(['a', b'a', 1, 1.5, None, False, (1, 2), 'x/y', 'd'] + ['k%d' % j for j in range(30)])}, [(1000 + i,) for i in range(39)])
    out['deep'] = lambda: (__import__('functools').reduce(lambda x, i: [uniq(i), {'d': x}], range(12), 'end'), [(1000 + i,) for i in range(12)])
    out['masked'] = lambda: (['x', np.ma.array(uniq(0), mask=uniq(0) > 5)], [(1000,), (1000,)])
    out['matrix'] = lambda: ([np.matrix(np.ones((41, 43))), 's'], [(41, 43)])
    out['struct'] = lambda: (np.zeros(1001, dtype=[('a', 'i4'), ('b', 'f8')]), [(1001,)])
    out['forder'] = lambda: ([np.asfortranarray(np.arange(41 * 43.).reshape(41, 43)), np.arange(4000)[::4]], [(41, 43), (1000,)])
    out['objarr'] = lambda: (np.array([uniq(1), uniq(2), None], dtype=object), [(1001,), (1002,)])
    out['ints'] = lambda: ([list(range(1001)), tuple(range(1002)), set(range(1003)), [0.5] * 1004, 's'], [(1001,), (1002,), (1003,), (1004,)])
    for fmt in ('csr', 'csc'):
        out[fmt] = lambda fmt=fmt: ([getattr(sp, fmt + '_matrix')((np.ones(1001), (np.arange(1001), np.arange(1001))), shape=(1500, 1500)), 's'], [(1001,), (1001,), (1501,)])
    out['bsr'] = lambda: ([sp.bsr_matrix((np.ones((1001, 2, 3)), np.arange(1001), np.array([0] + [1001] * 1200)), shape=(2400, 3003)), 's'], [(1001, 2, 3), (1001,), (1201,)])
    return out


APPLIED = applied_values()


def applied(case):
    kw = dict(case[1])
    if case[2] in APPLIED:
        v, shapes = APPLIED[case[2]]()
        data = dump_bytes(v, **kw)
        with h5py.File(io.BytesIO(data), 'r') as f:
            ds = []
            f.visititems(lambda n, o: ds.append(o) if isinstance(o, h5py.Dataset) and o.dtype.kind in 'fibcuV' and h5py.check_ref_dtype(o.dtype) is None else None)
            for s in sorted(set(shapes)):
                m = [d for d in ds if d.shape == s]
                if len(m) < shapes.count(s):
                    return Result(1, 'layout', 'expected %d datasets of shape %s holding array data, found %d' % (shapes.count(s), s, len(m)))
                for d in m:
                    r = filter_diff(d, kw)
                    if r:
                        return Result(1, 'filter', r)
        d = gdiff(v, load_bytes(data))
        return Result(2, 'equal' if d is None else 'different', d)
    arrs = [np.arange(600, dtype='f8').reshape(20, 30), np.arange(500, dtype='i4'), np.arange(64).reshape(4, 4, 4) > 3, np.zeros(300, 'c16')]
    a = arrs[case[2]]
    v = {'deep': [a, 'x', {'again': a + 0}], 'nums': list(range(777))}
    data = dump_bytes(v, **kw)
    with h5py.File(io.BytesIO(data), 'r') as f:
        ds = []
        f.visititems(lambda n, o: ds.append(o) and None)
        ds = [d for d in ds if isinstance(d, h5py.Dataset) and (d.shape == a.shape or d.shape == (777,)) and d.dtype.kind in 'fibcu']
        if len(ds) != 3:
            return Result(1, 'layout', 'expected 3 datasets holding the array data, found %d' % len(ds))
        for d in ds:
            r = filter_diff(d, kw)
            if r:
                return Result(1, 'filter', r)
    d = diff(v, load_bytes(data))
    return Result(2, 'equal' if d is None else 'different', d)


CHECK = Check('C08', cases, run_case, level='exploration',
              rule='product of all storage keyword combinations and kinds of value in three positions: dump must succeed, the loaded value and its sharing must equal the original, and the filters must be set on the array datasets',
              bound='%d filter combinations x %d kinds of value x 3 positions (quick: all top-level, a fifth nested); pairs of kinds' % (len(list(filters())), len(ALL)),
              assumptions=['explicit chunk shapes are only meaningful for a single array and not part of the domain', 'scale-offset is lossy and rejected by HDF5 for most data, it is not part of the domain'])
if __name__ == '__main__':
    run(CHECK)
