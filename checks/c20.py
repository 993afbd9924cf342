"""C20: layout of the files, looked at with h5py only"""
import os, sys, io, itertools, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, Viol, scratch
from mc import zoo, values
import numpy as np
import h5py
import scipy.sparse as sp
import astropy.units as u
from astropy.coordinates import Angle
import hickle

# ------------------------------------------------------------------------------------------------------- oracle
NUM = (bool, int, float, complex)


def is_num(x):
    if type(x) in (bool, float, complex):
        return True
    if type(x) is int:
        return -2**63 < x < 2**63
    return isinstance(x, np.generic) and x.dtype.kind in 'biufc'


def same_number(a, b):
    a = a.item() if isinstance(a, np.generic) and not isinstance(a, (np.longdouble, np.clongdouble)) else a
    b = b.item() if isinstance(b, np.generic) and not isinstance(b, (np.longdouble, np.clongdouble)) else b
    if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
        parts = [(x.real, x.imag) if isinstance(x, (complex, np.complexfloating)) else (x, 0) for x in (a, b)]
        return same_number(parts[0][0], parts[1][0]) and same_number(parts[0][1], parts[1][1])
    return a == b or (a != a and b != b)


def native(node, where):
    """an ordinary dataset whose values are in this very file"""
    if not isinstance(node, h5py.Dataset):
        raise Viol('%s: is no dataset' % where)
    p = node.id.get_create_plist()
    if p.get_external_count() or node.is_virtual:
        raise Viol('%s: data is not in the file' % where)
    if node.dtype.hasobject or node.dtype.kind not in 'biufcSV':
        raise Viol('%s: no plain type: %s' % (where, node.dtype))


def check_array(a, node, where):
    native(node, where)
    if node.shape != a.shape:
        raise Viol('%s: shape %s of array stored as %s' % (where, a.shape, node.shape))
    if node.dtype != a.dtype:
        raise Viol('%s: type %s of array stored as %s' % (where, a.dtype, node.dtype))
    got = node[()]
    if not same_array(np.asarray(a), np.asarray(got)):
        raise Viol('%s: array stored as %r' % (where, got))


def same_array(a, b):
    if a.dtype.kind == 'b' or a.dtype.kind in 'iu':
        return np.array_equal(a, b)
    if a.dtype.names:
        return all(same_array(a[n], b[n]) for n in a.dtype.names)
    return np.array_equal(a, b, equal_nan=True) and np.array_equal(np.signbit(a.real), np.signbit(b.real))


def entries(node, names, where):
    if not isinstance(node, h5py.Group):
        raise Viol('%s: is no group' % where)
    have = set(node)
    if have != set(names):
        raise Viol('%s: entries %s instead of %s' % (where, sorted(have)[:20], sorted(names)[:20]))


class Walk(object):
    def __init__(self, f):
        self.f, self.n, self.seen = f, 0, {}

    def resolve(self, o, node, where):
        """objects occurring several times are stored once"""
        for _ in range(3):
            if isinstance(node, h5py.Dataset) and node.shape == () and node.dtype.kind == 'O' and h5py.check_ref_dtype(node.dtype) is not None:
                if id(o) not in self.seen:
                    raise Viol('%s: is a reference although the object occurs for the first time' % where)
                node = self.f[node[()]]
            else:
                return node
        raise Viol('%s: chain of references' % where)

    def at(self, o, g, name, where):
        if name not in g:
            raise Viol('%s: no entry %r' % (where, name))
        self.check(o, g[name], '%s/%s' % (where, name))

    def check(self, o, node, where):
        self.n += 1
        node = self.resolve(o, node, where)
        self.seen[id(o)] = o
        if isinstance(o, np.ma.MaskedArray):
            if not isinstance(node, h5py.Group):
                raise Viol('%s: masked array is no group' % where)
            for n, x in (('data', np.asarray(o.data)), ('mask', np.ma.getmaskarray(o) if o.mask.shape else None)):
                if x is not None:
                    if n not in node:
                        raise Viol('%s: no entry %s' % (where, n))
                    check_array(x, node[n], where + '/' + n)
        elif isinstance(o, u.Quantity):
            v = np.asarray(o.value)
            native(node, where)
            if node.shape != v.shape or not same_array(v, np.asarray(node[()])):
                raise Viol('%s: quantity %r stored as %r' % (where, o, node[()]))
        elif isinstance(o, np.ndarray) and (o.dtype.kind in 'biufc' or (o.dtype.names and not o.dtype.hasobject)):
            check_array(o, node, where)
        elif isinstance(o, np.ndarray):
            pass
        elif sp.issparse(o):
            parts = [x for n in ('data', 'indices', 'indptr') for x in [getattr(o, n)]]
            have = [np.asarray(d[()]) for d in node.values() if isinstance(d, h5py.Dataset) and d.dtype.kind in 'biufc']
            for x in parts:
                if not any(h.shape == x.shape and h.dtype == x.dtype and same_array(x, h) for h in have):
                    raise Viol('%s: %r of sparse matrix is not stored as dataset' % (where, x))
        elif is_num(o):
            native(node, where)
            dt = o.dtype if isinstance(o, np.generic) else np.dtype(type(o))
            if node.shape != () or node.dtype != dt or not same_number(o, node[()]):
                raise Viol('%s: number %r stored as %s %s %r' % (where, o, node.shape, node.dtype, node[()]))
        elif isinstance(o, (str, bytes)) and type(o).__module__ in ('builtins', 'mc.zoo'):
            native(node, where)
            raw = np.asarray(node[()]).tobytes() if node.shape is not None else b''
            want = o.encode('utf8') if isinstance(o, str) else bytes(o)
            if raw != want:
                raise Viol('%s: text %r stored as %r' % (where, o, raw))
        elif type(o) in (list, tuple, zoo.MyList, zoo.MyTuple, zoo.SubList):
            self.sequence(o, node, where)
        elif type(o) in (set, zoo.MySet):
            items = list(o)
            if items and all(is_num(i) for i in items):
                if isinstance(node, h5py.Dataset):
                    native(node, where)
                    got = list(node[()])
                    if len(got) != len(items) or not all(any(same_number(x, y) for y in got) for x in items):
                        raise Viol('%s: set %r stored as %r' % (where, o, got))
                elif self.exact(items):
                    raise Viol('%s: numeric set is no dataset' % where)
            elif items:
                entries(node, ['data%d' % i for i in range(len(items))], where)
        elif isinstance(o, dict) and type(o) in (dict, zoo.MyDict, zoo.SubDict):
            if not isinstance(node, h5py.Group):
                raise Viol('%s: dictionary is no group' % where)
            if len(node) != len(o):
                raise Viol('%s: %d entries for %d items' % (where, len(node), len(o)))
            used = set()
            for i, (k, v) in enumerate(o.items()):
                if type(k) is str and not set('/\\\0') & set(k):
                    name = '"%s"' % k
                elif type(k) is bytes and k.isalnum():
                    name = 'b"%s"' % k.decode()
                elif type(k) in (int, float, bool, type(None), complex):
                    name = repr(k)
                else:
                    name = 'data%d' % i
                    if name not in node:
                        raise Viol('%s: no entry %r for key %r' % (where, name, k))
                    sub = self.resolve((k, v), node[name], where)
                    if len(sub) != 2:
                        raise Viol('%s/%s: no key and value' % (where, name))
                    self.at(k, sub, 'data0', where + '/' + name)
                    self.at(v, sub, 'data1', where + '/' + name)
                    continue
                self.at(v, node, name, where)

    def exact(self, items):
        """all of them can be represented by the common type"""
        T = np.result_type(*[i.dtype if isinstance(i, np.generic) else np.dtype(type(i)) for i in items])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return T if all(same_number(i, T.type(i)) for i in items) else None
            except (OverflowError, TypeError, ValueError):
                return None

    def sequence(self, o, node, where):
        items = list(o)
        if not items:
            if isinstance(node, h5py.Group) and len(node):
                raise Viol('%s: entries %s for empty sequence' % (where, list(node)[:5]))
            return
        if all(is_num(i) for i in items) or (isinstance(node, h5py.Dataset) and all(is_num(i) or type(i) is int for i in items)):
            T = self.exact(items) if all(is_num(i) for i in items) else None
            if isinstance(node, h5py.Dataset):
                native(node, where)
                if node.shape != (len(items),):
                    raise Viol('%s: shape %s for %d numbers' % (where, node.shape, len(items)))
                got = node[()]
                for i, x in enumerate(items):
                    if not same_number(x, got[i]):
                        raise Viol('%s: item %d: %r stored as %r' % (where, i, x, got[i]))
                kinds = {type(i) for i in items}
                if len(kinds) == 1 and T is not None and node.dtype != T:
                    raise Viol('%s: type %s for numbers of type %s' % (where, node.dtype, T))
                if T is not None and node.dtype.kind != T.kind:
                    raise Viol('%s: type %s for numbers of common type %s' % (where, node.dtype, T))
                return
            if T is not None:
                raise Viol('%s: numeric sequence %r is not stored as dataset' % (where, items[:6]))
        entries(node, ['data%d' % i for i in range(len(items))], where)
        for i, x in enumerate(items):
            self.at(x, node, 'data%d' % i, where)


def check_value(v, target, f):
    """target: group the value has been dumped to"""
    w = Walk(f)
    ver = target.attrs.get('HICKLE_VERSION')
    if ver != hickle.__version__:
        raise Viol('version mark is %r' % (ver,))
    if 'data' not in target:
        raise Viol('no entry data in %s' % target.name)
    w.check(v, target['data'], 'data')
    return w.n


# ------------------------------------------------------------------------------------------------------- values
def ro(a):
    a.flags.writeable = False
    return a


DTYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16', '>i2', '>i4', '>i8', '>u8', '>f4', '>f8', '>c16', 'g']
SHAPES = [(), (0,), (1,), (2,), (5,), (0, 3), (2, 0), (1, 1), (2, 3), (3, 1), (2, 1, 2), (0, 0), (2, 2, 2), (1, 1, 1, 1), (300,), (40, 30)]


def array(dt, shape, how):
    n = int(np.prod(shape))
    base = np.arange(n * 4 if how == 'strided' else n)
    if dt == '?':
        a = (base % 3 == 1)
    else:
        a = (base % 100 - (3 if np.dtype(dt).kind in 'ifc' else 0)).astype(dt)
        if np.dtype(dt).kind == 'c':
            a = (a + 1j * (base % 7)).astype(dt)
        if np.dtype(dt).kind in 'fc' and n > 1:
            a[1] = np.nan
            a[0] = -0.
        if n and dt in ('u8', 'i8'):
            a[0] = np.iinfo(dt).max
    a = a.astype(np.dtype(dt))
    if how == 'strided':
        a = a[::4]
    a = a.reshape(shape)
    if how == 'f':
        a = np.asfortranarray(a)
    elif how == 'neg' and a.ndim:
        a = a[::-1]
    elif how == 'ro':
        a = ro(a)
    elif how == 'bc':
        a = np.broadcast_to(a.reshape(-1)[:1].reshape(()) if n else a, shape)
    elif how == 't':
        a = a.T
    return a


HOWS = ['c', 'f', 'strided', 'neg', 'ro', 'bc', 't']
NUMS = [True, False, 0, -1, 2**62 + 1, -2**63, 1.5, -0., float('nan'), float('inf'), 1e300, 1j, np.int8(1), np.uint8(200), np.float32(.5), np.bool_(True), np.uint64(2**64 - 1), np.float16(2), np.complex64(1 + 2j), np.int64(-5), 2**63]
OTHER = ['x', '', None, b'b', [1, 'y'], [1, 2], (3.5,), np.arange(3), {'k': 1}, 2**70, np.array(5.), np.array(['a']), set(), [], {1, 2}, u'\u20ac\U0001f600']
TEXTS = ['', 'a', 'abc', 'h\u00e9', '\u20ac', '\U0001f600x', 'a\0b', '\0', 'a\0', ' ', '\n', 'x' * 300, '\u00e9' * 200, b'', b'a', b'\0', b'a\0', b'\xff\xfe', b'x' * 300, bytes(range(256)), zoo.MyStr('sub'), zoo.MyBytes(b'sub')]
KEYS = ['a', 'b c', '', '.', '..', 'data', 'data0', 'k/l', 'k\\l', 'n\0l', '"', "'", '\u00e9', 'type', 0, 1, -1, 1.5, True, None, (1, 2), (1, 'x'), b'k', b'\xff', 1j, zoo.Key(1), '0', 'None', '1.5', 2**70]
LEAVES = dict(num=lambda: 5, arr=lambda: np.arange(6.).reshape(2, 3), nl=lambda: [1, 2], nt=lambda: (1.5, 2.5), txt=lambda: 'h\u00e9', mix=lambda: [1, 'a'], none=lambda: None, i8=lambda: np.arange(3, dtype='i1'), bl=lambda: [True, False], e=lambda: np.zeros((0, 2)))
# one way to wrap a value: each is given (value, other value)
WRAPS = [lambda v, o: [v, 'x'], lambda v, o: ['x', v], lambda v, o: (v, o), lambda v, o: [o, v, v], lambda v, o: {'k': v}, lambda v, o: {'a': o, 'b': v}, lambda v, o: {1: v, (1, 2): o}, lambda v, o: [{'d': [v]}, o], lambda v, o: zoo.MyList([v, 'm']), lambda v, o: zoo.MyDict(q=v), lambda v, o: [[v]],
         lambda v, o: ('t', (v,)), lambda v, o: {'k/l': v}, lambda v, o: {(1, 'z'): [v, 'z']}]
SPECIAL = dict(
    masked=lambda: np.ma.array(np.arange(4.), mask=[0, 1, 0, 1]), masked2=lambda: [np.ma.array(np.arange(4).reshape(2, 2), mask=[[0, 1], [0, 0]]), 'x'], csr=lambda: sp.csr_matrix(np.eye(3)), csc=lambda: [sp.csc_matrix(np.array([[0, 1.], [2, 0]])), 'n'], bsr=lambda: {'m': sp.bsr_matrix(np.eye(4), blocksize=(2, 2))},
    quant=lambda: np.arange(3.) * u.m, quant2=lambda: [np.arange(6.).reshape(2, 3).astype('f4') * u.km, 'q'], sq=lambda: {'k': 2.5 * u.s}, angle=lambda: Angle([1., 2.], 'deg'), rec=lambda: np.array([(1, 2.), (3, 4.)], dtype=[('a', 'i4'), ('b', 'f8')]),
    sets=lambda: [{1, 2, 3}, {1.5, 2}, {'a', 1}, set(), {True}], shared=values.shared, deep=lambda: {'a': [{'b': [[1, 2], {'c': ([1.5], 'x', np.arange(3))}]}]}, long=lambda: list(range(200)), longf=lambda: tuple(float(i) for i in range(130)), longm=lambda: list(range(150)) + ['x'], manyk=lambda: {'k%d' % i: [i, i + 1] for i in range(60)}, nest=lambda: [[1, 2], [3, 4], [[5, 6], [7]]])
PATHS = ['/', '/g', '/g/h', 'g', '/data', '/old/new', '/d\u00e9']


def long_list(n, pos, odd):
    l = [i for i in range(n)]
    l[pos] = odd
    return l


def cases(tier):
    T = tier == 'thorough'
    for dt in DTYPES:
        for sh in SHAPES:
            for how in HOWS:
                if T or how == 'c' or (len(sh) < 3 and dt in ('?', 'i4', 'f8', 'c8', '>i4')):
                    yield ('array', dt, sh, how, 0)
    for dt in DTYPES:
        for w in range(len(WRAPS)):
            yield ('array', dt, (2, 3), 'c', w + 1)
            yield ('array', dt, (), 'c', w + 1)
            if T:
                for how in HOWS[1:]:
                    yield ('array', dt, (2, 3), how, w + 1)
    for t in range(len(TEXTS)):
        for w in range(len(WRAPS) + 1):
            yield ('text', t, w)
    ids = range(len(NUMS))
    for n in (1, 2, 3):
        for c in itertools.product(ids, repeat=n):
            yield ('nums', 'list', c)
            if n < 3:
                yield ('nums', 'tuple', c)
                yield ('nums', 'mylist', c)
    if T:
        for c in itertools.product((0, 2, 4, 6, 8, 11, 12, 13, 14, 15, 16, 20), repeat=4):
            yield ('nums', 'list', c)
        for a, b in itertools.product(sorted(LEAVES), repeat=2):
            for w in itertools.product(range(len(WRAPS)), repeat=3):
                if a in ('arr', 'nl', 'txt', 'nt') and b in ('mix', 'num', 'i8'):
                    yield ('wrap3', a, b, w)
    for i in ids:
        yield ('scalar', i)
    for i in ids:
        for o in range(len(OTHER)):
            for pos in range(3):
                yield ('mixed', 'list', i, o, pos)
                if T or pos == 1:
                    yield ('mixed', 'tuple', i, o, pos)
    for a, b in itertools.product(range(len(OTHER)), repeat=2):
        yield ('others', a, b)
    for n in (10, 65, 100, 129, 257) + ((1001, 1025, 4097) if T else (1025,)):
        for pos in (0, 1, n // 2, n - 2, n - 1):
            for odd in (0.5, 'x', None, True, 2**63, 1j):
                yield ('long', n, pos, odd)
    for k in range(len(KEYS)):
        for l in sorted(LEAVES):
            yield ('key', (k,), l)
    for p in itertools.permutations(range(len(KEYS)), 2):
        yield ('key', p, 'nl')
    for a, b in itertools.product(sorted(LEAVES), repeat=2):
        for w in range(len(WRAPS)):
            if T:
                for w2 in range(len(WRAPS)):
                    yield ('wrap', a, b, w, w2)
            else:
                yield ('wrap', a, b, w, None)
                yield ('wrap', a, b, w, (w * 3 + 1) % len(WRAPS))
    for s in sorted(SPECIAL):
        for w in range(len(WRAPS) + 1):
            yield ('special', s, w)
    vs = sorted(LEAVES) + sorted(SPECIAL)
    for s in vs:
        for p in PATHS:
            for before in (0, 1, 2, 3):
                if not T and before == 3 and p != '/g':
                    continue
                yield ('target', s, p, before)


def build(case):
    kind = case[0]
    if kind == 'array':
        a = array(case[1], case[2], case[3])
        return WRAPS[case[4] - 1](a, 'o') if case[4] else a
    if kind == 'text':
        return WRAPS[case[2] - 1](TEXTS[case[1]], 7) if case[2] else TEXTS[case[1]]
    if kind == 'scalar':
        return NUMS[case[1]]
    if kind == 'nums':
        return dict(list=list, tuple=tuple, mylist=zoo.MyList)[case[1]](NUMS[i] for i in case[2])
    if kind == 'mixed':
        l = [NUMS[case[2]], NUMS[case[2]]]
        l.insert(case[4], OTHER[case[3]])
        return tuple(l) if case[1] == 'tuple' else l
    if kind == 'others':
        return [OTHER[case[1]], OTHER[case[2]]]
    if kind == 'long':
        return long_list(*case[1:])
    if kind == 'key':
        return {KEYS[k]: LEAVES[case[2]]() for k in case[1]}
    if kind == 'wrap':
        v = WRAPS[case[3]](LEAVES[case[1]](), LEAVES[case[2]]())
        return v if case[4] is None else WRAPS[case[4]](v, LEAVES[case[2]]())
    if kind == 'wrap3':
        v = LEAVES[case[1]]()
        for w in case[3]:
            v = WRAPS[w](v, LEAVES[case[2]]())
        return v
    if kind == 'special':
        v = SPECIAL[case[1]]()
        return WRAPS[case[2] - 1](v, 'o') if case[2] else v
    return (LEAVES.get(case[1]) or SPECIAL[case[1]])()


def outside(f, path):
    """everything which is not part of the target group"""
    p = '/' + path.strip('/')
    out = []

    def node(o, name):
        if name == p:
            return
        out.append((name, type(o).__name__, sorted((k, repr(v)) for k, v in o.attrs.items())))
        if isinstance(o, h5py.Group):
            for n in o:
                k = o.get(n, getlink=True)
                full = name.rstrip('/') + '/' + n
                if isinstance(k, h5py.HardLink):
                    node(o[n], full)
                else:
                    out.append((full, type(k).__name__, k.path))
        else:
            out.append((name, o.shape, o.dtype.str, repr(o[()]), o.compression))
    node(f['/'], '/')
    return out


def prefill(f, before, v):
    if before >= 1:
        f['old/x'] = np.arange(3.)
        f['old'].attrs['note'] = 'keep'
        f['old/x'].attrs['u'] = 5
        f['other'] = b'raw'
        f['soft'] = h5py.SoftLink('/old/x')
        f.attrs['title'] = 'mine'
    if before >= 2:
        hickle.dump({'earlier': [1, 'x', np.arange(2)]}, f, path='/e1')
    if before >= 3:
        hickle.dump(v, f, path='/e2/sub')


def run_target(case):
    _, s, path, before = case
    v = build(case)
    with h5py.File(io.BytesIO(), 'w') as f:
        prefill(f, before, v)
        if path == '/' and before:
            # attributes and entries of others stay
            names = set(f)
            attrs = {k: repr(x) for k, x in f.attrs.items()}
            keep = {n: values.content(f, n) for n in names if isinstance(f.get(n, getlink=True), h5py.HardLink) and isinstance(f[n], h5py.Group)}
        else:
            old = outside(f, path)
        try:
            hickle.dump(v, f, path=path)
        except ValueError:
            if path != '/' or not before:
                raise
            # group in use may be refused
            if set(f) != names or {k: repr(x) for k, x in f.attrs.items()} != attrs or {k: values.content(f, k) for k in keep} != keep:
                raise Viol('group has been changed though the dump was refused')
            return 1
        n = check_value(v, f[path], f)
        if path == '/' and before:
            for k, x in attrs.items():
                if repr(f.attrs.get(k)) != x:
                    raise Viol('attribute %s of the group has been changed' % k)
            for k, x in keep.items():
                if k not in f or values.content(f, k) != x:
                    raise Viol('group %s next to the value has been changed' % k)
            if names - set(f):
                raise Viol('%s is gone' % (names - set(f)))
        else:
            # groups on the way are created as needed
            new = outside(f, path)
            new = [x for x in new if x in old or not (x[1:] == ('Group', []) and ('/' + path.strip('/')).startswith(x[0] + '/'))]
            if sorted(old, key=repr) != sorted(new, key=repr):
                raise Viol('outside of %s: %s' % (path, [x for x in new if x not in old][:3] + ['gone:'] + [x for x in old if x not in new][:3]))
    return n


def run_case(case):
    warnings.simplefilter('ignore')
    try:
        if case[0] == 'target':
            return Result(run_target(case), 'layout', None)
        v = build(case)
        b = io.BytesIO()
        hickle.dump(v, b, mode='w', filename='mem.hkl')
        with h5py.File(b, 'r') as f:
            return Result(check_value(v, f, f), 'layout', None)
    except Viol as e:
        return Result(1, 'violation', '%s' % e)
    except Exception as e:
        return Result(1, 'violation', 'raised %s: %s' % (type(e).__name__, str(e)[:300]))


CHECK = Check('C20', cases, run_case, level='model_checking',
              rule='every value of the grammar is dumped by the real code and the file is walked with h5py in parallel to the value: shape, type and values of each dataset, names and number of the entries of each group, version mark, everything outside of the target group before and after',
              bound='22 types x 16 shapes x 7 memory layouts; all numeric sequences of up to 3 of 21 (4 of 12) numbers; one foreign item at each position; 30 dictionary keys and all pairs; 22 texts; 10 kinds of parts in 14 wrappers nested up to twice (three times); 7 target paths x 4 kinds of files',
              assumptions=['h5py reads HDF5 files properly'])
if __name__ == '__main__':
    run(CHECK)
