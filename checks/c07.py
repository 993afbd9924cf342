"""C07: subclasses, pickled objects and serialization warnings"""
import os, sys, itertools, warnings, io, collections, datetime, decimal, fractions, functools, operator, array, re, uuid, pathlib, types, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, Viol
from mc.rt import dump_bytes, load_bytes
from mc.eqv import diff
from mc import zoo
import numpy as np
import h5py

A = [1, 'a', 2.5, None, [1, 2], {'k': (1, 2)}]
H = [1, 'a', 2.5, None, (1, 'x')]


def dd(f, *a):
    d = collections.defaultdict(f)
    d.update(*a)
    return d


def fwd():
    """self describing recursive structure stored by pickle"""
    p = zoo.Plain(a=1)
    p.l = [1, {'x': (2, 3)}, 'q']
    return p


# (label, class of storage, constructor).  native: must never be announced; pickled: must be announced once per object
OBJ = []


def reg(kind, label, *mk):
    for i, m in enumerate(mk):
        OBJ.append((kind, '%s/%d' % (label, i), m))


reg('native', 'MyStr', lambda: zoo.MyStr(''), lambda: zoo.MyStr('h\u00e9llo'), lambda: zoo.SubStr('x/y\0'))
reg('native', 'MyBytes', lambda: zoo.MyBytes(b''), lambda: zoo.MyBytes(b'\0\xff'))
reg('native', 'MyInt', lambda: zoo.MyInt(0), lambda: zoo.MyInt(-7), lambda: zoo.MyInt(2**70))
reg('native', 'MyFloat', lambda: zoo.MyFloat(-0.5), lambda: zoo.MyFloat('inf'))
reg('native', 'MyComplex', lambda: zoo.MyComplex(1, 2))
reg('native', 'MyList', lambda: zoo.MyList(), lambda: zoo.MyList([1, 2]), lambda: zoo.MyList(A), lambda: zoo.SubList(['s']), lambda: zoo.MixList([[], 1]))
reg('native', 'MyTuple', lambda: zoo.MyTuple(), lambda: zoo.MyTuple((1, 2)), lambda: zoo.MyTuple(A))
reg('native', 'MySet', lambda: zoo.MySet(), lambda: zoo.MySet([1, 2]), lambda: zoo.MySet(H))
reg('native', 'MyDict', lambda: zoo.MyDict(), lambda: zoo.MyDict(a=1), lambda: zoo.SubDict({1: 'x', 'a/b': [1]}), lambda: zoo.MixDict(q=None))
reg('native', 'OrderedDict', lambda: collections.OrderedDict(), lambda: collections.OrderedDict([('b', 1), ('a', [2])]), lambda: zoo.MyOD(z=1, y=2))
reg('native', 'Counter', lambda: collections.Counter(), lambda: collections.Counter('abca'), lambda: collections.Counter({'x': -1, 2: 0}))
reg('native', 'namedtuple', lambda: zoo.Point(1, 2), lambda: zoo.Point('a', [1]), lambda: zoo.One(5), lambda: zoo.One('x'), lambda: zoo.TPoint(3), lambda: zoo.SubPoint(1, 'q'), lambda: zoo.Empty())
reg('native', 'Kw', lambda: zoo.KwDict({'data': 1, 'name': 'n'}), lambda: zoo.KwDict({'self': 1}), lambda: zoo.KwDict({'x': 'y', 1: 2}), lambda: zoo.KwDict(), lambda: zoo.KwList([1, 'x']), lambda: zoo.KwList(['x']), lambda: zoo.KwList([[1], [2]]),
    lambda: zoo.KwTuple((1, 'x')), lambda: zoo.KwTuple(([1, 2],)), lambda: zoo.KwSet(['a', 1]), lambda: zoo.KwSet([1, 2]))
reg('native', 'IntEnum', lambda: zoo.Num.A, lambda: zoo.Num.B)
reg('native', 'plain', lambda: list(A), lambda: tuple(A), lambda: {'a': 1}, lambda: {1, 'x'}, lambda: 'text', lambda: b'bytes', lambda: 5, lambda: 2**80, lambda: 1.5, lambda: 2j, lambda: True, lambda: None,
    lambda: np.arange(4.), lambda: np.float32(1.5), lambda: np.dtype('i4'), lambda: np.ma.array([1, 2], mask=[0, 1]), lambda: np.matrix([[1, 2]]), lambda: np.array(['a', 'b']), lambda: np.array([None, 1], object), lambda: [], lambda: (), lambda: {}, lambda: set())
reg('either', 'frozenset', lambda: frozenset(), lambda: frozenset([1, 'a']), lambda: zoo.MyFrozen([1]))
reg('either', 'bytearray', lambda: bytearray(b'ab'))
reg('pickled', 'defaultdict', lambda: dd(list), lambda: dd(int, {'a': 1}), lambda: dd(None, {1: [2]}))
reg('pickled', 'deque', lambda: collections.deque(), lambda: collections.deque([1, 'x'], maxlen=4))
reg('pickled', 'ChainMap', lambda: collections.ChainMap({'a': 1}, {'b': 2}))
reg('pickled', 'Enum', lambda: zoo.Color.RED, lambda: zoo.Color.BLUE, lambda: zoo.Flag.X | zoo.Flag.Y)
reg('pickled', 'Plain', lambda: zoo.Plain(), lambda: zoo.Plain(a=1, b=[1, 'x']), lambda: zoo.Plain(o=zoo.Plain(z=1)), lambda: zoo.Plain(arr=np.arange(3)), fwd)
reg('pickled', 'NeedArgs', lambda: zoo.NeedArgs(1, 'b'))
reg('pickled', 'Slots', lambda: zoo.Slots(1, [2]))
reg('pickled', 'State', lambda: zoo.State('v'))
reg('pickled', 'Reduce', lambda: zoo.Reduce((1, 2)))
reg('pickled', 'ReduceEx', lambda: zoo.ReduceEx({'a': 1}))
reg('pickled', 'NewArgs', lambda: zoo.NewArgs('n'))
reg('pickled', 'WithGetattr', lambda: zoo.WithGetattr())
reg('pickled', 'Callable', lambda: zoo.Callable_())
reg('pickled', 'WithLen', lambda: zoo.WithLen(0), lambda: zoo.WithLen(3))
reg('pickled', 'WithMeta', lambda: zoo.WithMeta(3))
reg('pickled', 'Inner', lambda: zoo.Outer.Inner(2))
reg('pickled', 'Data', lambda: zoo.Data(1, [2]), lambda: zoo.FrozenData(9))
reg('native', 'specless', lambda: zoo.specless.D(a=1), lambda: zoo.specless.L([1, 'x']))
reg('pickled', 'specless', lambda: zoo.specless.P(3), lambda: zoo.specless.P)
reg('pickled', 'Err', lambda: zoo.Err('m', 1))
reg('pickled', 'class', lambda: zoo.Plain, lambda: int, lambda: zoo.Meta, lambda: zoo.WithMeta, lambda: np.ndarray, lambda: zoo.MyList, lambda: type, lambda: zoo.Outer.Inner, lambda: zoo.Color, lambda: object)
reg('pickled', 'func', lambda: zoo.func, lambda: len, lambda: math.sin, lambda: np.add, lambda: functools.partial(zoo.func, 3), lambda: operator.itemgetter(1))
reg('pickled', 'stdlib', lambda: datetime.datetime(2020, 1, 2, 3, 4, 5, 6), lambda: datetime.timedelta(1, 2, 3), lambda: datetime.date(2000, 2, 29), lambda: decimal.Decimal('1.10'), lambda: fractions.Fraction(1, 3), lambda: range(2, 9, 3),
    lambda: slice(1, None, 2), lambda: Ellipsis, lambda: NotImplemented, lambda: array.array('d', [1, 2]), lambda: uuid.UUID(int=5), lambda: pathlib.PurePosixPath('/a/b'), lambda: types.SimpleNamespace(a=1), lambda: re.compile('a+'), lambda: ValueError('x').args.__class__)
NP_SUB = ()


def pdiff(a, b, path='value'):
    if isinstance(a, functools.partial):
        return None if isinstance(b, functools.partial) and (a.func, a.args, a.keywords) == (b.func, b.args, b.keywords) else '%s: %r became %r' % (path, a, b)
    if isinstance(a, operator.itemgetter):
        return None if repr(a) == repr(b) else '%s: %r became %r' % (path, a, b)
    if isinstance(a, array.array):
        return None if type(b) is array.array and a == b and a.typecode == b.typecode else '%s: %r became %r' % (path, a, b)
    if isinstance(a, collections.ChainMap):
        return None if type(b) is collections.ChainMap and a.maps == b.maps else '%s: %r became %r' % (path, a, b)
    if isinstance(a, collections.deque) and (type(b) is not collections.deque or a.maxlen != b.maxlen):
        return '%s: %r became %r' % (path, a, b)
    return diff(a, b, path)


NREP = [i for i, o in enumerate(OBJ) if o[1].endswith('/1') or o[1] in ('Plain/2', 'Slots/0', 'class/0', 'func/0', 'plain/12', 'plain/3', 'plain/0', 'Err/0', 'Data/0')]
POS = 9


def cases(tier):
    T = tier == 'thorough'
    for i in range(len(OBJ)):
        for p in range(POS):
            yield ('pos', i, p)
    n = range(len(OBJ))
    for i, j in (itertools.product(n, repeat=2) if T else itertools.product(NREP, repeat=2)):
        yield ('pair', i, j)
    if T:
        for t in itertools.product(NREP[::2], repeat=3):
            yield ('triple', t)
    for i in n:
        yield ('sib', i)
        yield ('nested', i)
        yield ('many', i)


PD = pdiff


def build(case):
    k = case[0]
    if k == 'pos':
        kind, _, mk = OBJ[case[1]]
        o = mk()
        v, parts = [lambda: (o, [o]), lambda: ([o], [o]), lambda: ((o, 1), [o]), lambda: ({'k': o}, [o]), lambda: (['s', o, None], [o]), lambda: ([o, o], [o]),
                    lambda: ({'a': [o], 'b': {'c': o}}, [o]), lambda: ([o, 'x', mk()], None), lambda: (zoo.MyList([o, 'x']), [o])][case[2]]()
        if parts is None:
            parts = [o, v[2]] if v[2] is not o else [o]
        return v, [(case[1], x) for x in parts]
    if k in ('pair', 'triple'):
        ix = case[1:] if k == 'pair' else case[1]
        os_ = [OBJ[i][2]() for i in ix]
        uniq = []
        for i, o in zip(ix, os_):
            if not any(o is q for _, q in uniq):
                uniq.append((i, o))
        return [{'z': os_[0]}] + os_[1:] + ['tail'] if k == 'pair' else tuple(os_) + ('tail',), uniq
    o = OBJ[case[1]][2]()
    if k == 'sib':
        return {'arr': np.arange(6).reshape(2, 3), 'o': o, 'nums': [1, 2, 3], 't': 'text'}, [(case[1], o)]
    if k == 'nested':
        x = o
        for d in range(5):
            x = [x, 's%d' % d] if d % 2 else {'k%d' % d: x}
        return x, [(case[1], o)]
    if k == 'many':
        os_ = [OBJ[case[1]][2]() for _ in range(4)]
        uniq = []
        for q in os_:
            if not any(q is r for r in uniq):
                uniq.append(q)
        return ['m'] + os_, [(case[1], q) for q in uniq]


def flat(v):
    """walk plain containers used by build"""
    yield v
    if type(v) in (list, tuple, zoo.MyList):
        for x in v:
            yield from flat(x)
    elif type(v) is dict:
        for x in v.values():
            yield from flat(x)


def top_diff(a, b, path='value'):
    if type(a) in (list, tuple, zoo.MyList):
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %r became %r' % (path, type(a), type(b))
        if all(isinstance(x, (int, float, complex, np.number)) for x in a):
            return diff(a, b, path)
        for i, (x, y) in enumerate(zip(a, b)):
            d = top_diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if type(a) is dict:
        if type(b) is not dict or list(a) != list(b):
            return '%s: keys changed' % path
        for k in a:
            d = top_diff(a[k], b[k], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    return pdiff(a, b, path)


def run_case(case):
    from hickle.lookup import SerializedWarning
    v, parts = build(case)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            data = dump_bytes(v)
        except Exception as e:
            return Result(1, 'raised', 'dump raised %s: %s' % (type(e).__name__, str(e)[:300]))
    got = [str(w.message) for w in ws if issubclass(w.category, SerializedWarning)]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            back = load_bytes(data)
    except Exception as e:
        return Result(2, 'raised', 'load raised %s: %s' % (type(e).__name__, str(e)[:300]))
    d = top_diff(v, back)
    if d:
        return Result(2, 'different', d)
    lo = sum(1 for i, o in parts if OBJ[i][0] == 'pickled')
    hi = sum(1 for i, o in parts if OBJ[i][0] != 'native')
    if not lo <= len(got) <= hi:
        return Result(2, 'warnings', '%d serialization warnings %r for %d..%d pickled objects' % (len(got), got, lo, hi))
    for i, o in parts:
        if OBJ[i][0] == 'pickled' and not any(type(o).__name__ in g for g in got):
            return Result(2, 'warnings', 'no serialization warning names %s: %r' % (type(o).__name__, got))
    if case[0] == 'sib':
        with h5py.File(io.BytesIO(data), 'r') as f:
            ds = [x for x in all_nodes(f) if isinstance(x, h5py.Dataset)]
            if not any(x.shape == (2, 3) and x.dtype == np.dtype(int) and np.array_equal(x[()], v['arr']) for x in ds):
                return Result(2, 'layout', 'array beside the object is not stored as plain dataset')
            if not any(x.shape == (3,) and x.dtype.kind == 'i' and x[()].tolist() == [1, 2, 3] for x in ds):
                return Result(2, 'layout', 'list beside the object is not stored as plain dataset')
    return Result(2, 'equal')


def all_nodes(f):
    out = []
    f.visititems(lambda n, o: out.append(o) and None)
    return out


CHECK = Check('C07', cases, run_case, level='exploration',
              rule='every object kind in every position, all ordered pairs (thorough: triples), repeated and nested objects; value, class and number/naming of serialization warnings are compared with the expectation',
              bound='%d objects of %d classes x %d positions; pairs of %d representatives (thorough: all pairs, triples)' % (len(OBJ), len(set(o[1].split('/')[0] for o in OBJ)), POS, len(NREP)),
              assumptions=['classes are importable and their instances picklable', 'constructors of subclasses of built-in types accept the content', 'instance attributes added to subclasses of built-in types are not part of the content'])
if __name__ == '__main__':
    run(CHECK)
