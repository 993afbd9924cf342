"""C02: NumPy arrays, scalars, dtypes, masked arrays, matrices round trip"""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result
from mc.rt import check_roundtrip
import numpy as np

BASE = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', 'g', 'c8', 'c16', 'G', 'S1', 'S3', 'S17', 'V1', 'V5']
SWAP = ['i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16']
TEXTD = ['U1', 'U3', 'U9']
STRUCT = [
    [('a', 'i4')], [('a', 'i4'), ('b', 'f8')], [('x', '>i2'), ('y', '<u8')], [('s', 'S3'), ('v', '?')], [('p', 'f4', (2,)), ('q', 'c16')],
    [('h\u00e9', 'i8')], [('o', [('i', 'u1'), ('j', 'f2')]), ('k', 'i1')],
    dict(names=['a', 'b'], formats=['i1', 'i4'], offsets=[0, 4], itemsize=12)]
SHAPES_Q = [(), (0,), (1,), (2,), (5,), (1, 1), (2, 3), (3, 2), (0, 3), (3, 0), (2, 1, 3), (0, 0), (1, 2, 2, 2)]
SHAPES_T = [s for n in range(0, 4) for s in itertools.product((0, 1, 2, 3), repeat=n)] + [(2, 2, 2, 2), (1, 0, 2, 3), (17,), (1, 300)]


def byteseq(n, seed):
    """deterministic varied bytes incl. 00 and ff"""
    out = bytearray(n)
    x = 12345 + 777 * seed
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out[i] = (0, 255, 128, 1)[x >> 8 & 3] if x >> 16 & 1 else x >> 20 & 255
    return bytes(out)


def fill(dt, shape, seed=1):
    dt = np.dtype(dt)
    n = int(np.prod(shape)) if shape else 1
    if dt.kind == 'U':
        alpha = ['a', '\u00e9', '\u20ac', '\U0001f600', 'Z', '/', ' ', '']
        k = dt.itemsize // 4
        vals = [''.join(alpha[(i * 3 + j * 5 + seed) % len(alpha)] for j in range((i + seed) % (k + 1)))[:k] for i in range(n)]
        return np.array(vals, dtype=dt).reshape(shape)
    if dt.names:
        a = np.zeros(n, dt)
        for nm in dt.names:
            sub = dt[nm]
            a[nm] = fill(sub.base, (n,) + sub.shape, seed + 1)
        return a.reshape(shape)
    if dt.kind == 'b':
        return np.array([(i * 7 + seed) % 3 == 0 for i in range(n)], dtype=dt).reshape(shape)
    if dt.char in 'gG':
        vals = [0.0, -0.0, 1.5, -2.25, np.inf, -np.inf, np.nan, 1e300, 3.14159]
        a = np.array([vals[(i + seed) % len(vals)] for i in range(n)], dtype='g') * np.longdouble('1.0000000000000000001')
        return (a.astype(dt) if dt.char == 'g' else (a + 1j * a[::-1]).astype(dt)).reshape(shape)
    return np.frombuffer(byteseq(n * dt.itemsize, seed), dtype=dt).reshape(shape).copy()


def layouts(mk, shape):
    """the same kind of content in different memory layouts"""
    a = mk(shape)
    yield 'C', a
    if len(shape) >= 2:
        yield 'F', np.asfortranarray(a)
        yield 'T', mk(shape[::-1]).T
        yield 'bcast0', np.broadcast_to(mk(shape[1:]), shape)
    if len(shape) >= 1:
        yield 'neg', mk(shape)[::-1]
        big = mk(tuple(2 * s + 1 for s in shape))
        yield 'strided', big[tuple(slice(1, 1 + 2 * s, 2) for s in shape)]
        yield 'bcast', np.broadcast_to(mk(()), shape)
    r = mk(shape)
    r.flags.writeable = False
    yield 'ro', r


CONTEXT = [('top', lambda x: x), ('list', lambda x: [x, 'z']), ('dict', lambda x: {'k': x}), ('tuple1', lambda x: (x,))]


def dtypes(T):
    for d in BASE:
        yield d
    for d in SWAP:
        yield '>' + d
    for d in TEXTD:
        yield '<' + d
        yield '>' + d


def oarr(shape, items):
    a = np.empty(int(np.prod(shape)) if shape else 1, object)
    for i in range(a.size):
        a[i] = items[i % len(items)]
    return a.reshape(shape)


OITEMS = [None, 1, 2.5, 'a', '', b'x', [], [1, 2], [[1], 'q'], (1, 2), (), {'k': 1}, {1, 2}, np.arange(2), np.float32(1.5), True, 2**70, 'h\u00e9']


def cases(tier):
    T = tier == 'thorough'
    shapes = SHAPES_T if T else SHAPES_Q
    # arrays: dtype x shape x layout
    for d in dtypes(T):
        for shape in shapes:
            yield ('arr', d, shape, None)
    for k, d in enumerate(STRUCT):
        for shape in shapes:
            yield ('arr', ('struct', k), shape, None)
    # contents: several fillings of one shape per dtype, single elements of every boundary pattern
    for d in dtypes(T):
        for seed in range(2, 12 if T else 5):
            yield ('fill', d, (7,), seed)
            yield ('fill', d, (), seed)
    # scalars
    for d in list(BASE) + ['>' + s for s in SWAP] + TEXTD:
        for seed in range(1, 60 if T else 20):
            yield ('scalar', d, seed)
    for k in range(len(STRUCT)):
        yield ('scalar', ('struct', k), 1)
    # dtype objects
    for c in '?bBhHiIlLqQefdgFDGSUVOmM':
        for bo in ('<', '>', '='):
            yield ('dtype', bo + c)
    for s in ('S5', '>U7', 'V3', 'M8[s]', 'm8[ns]', '>M8[D]'):
        yield ('dtype', s)
    for k in range(len(STRUCT)):
        yield ('dtype', ('struct', k))
    yield ('dtype', ('sub', 0))
    # exhaustive bit patterns of the 8 and 16 bit types
    for d in ('i1', 'u1', 'i2', 'u2', 'f2', '>i2', '>f2', 'S1', 'S2', 'V1', 'V2'):
        yield ('bits', d)
    # masked arrays: every mask of up to 4 (6) elements
    for d in ('f8', 'i4', '?', 'c8', 'S3', '>i2', 'U3', 'g'):
        for n in range(0, 7 if T else 5):
            for m in range(2**n):
                yield ('masked', d, (n,), m)
        for shape in ((), (2, 2), (1, 3), (0, 2), (2, 1, 2)):
            size = int(np.prod(shape)) if shape else 1
            for m in (range(2**size) if size < 5 else range(0, 2**size, 3)):
                yield ('masked', d, shape, m)
        for shape in ((), (3,), (2, 2), (0,)):
            yield ('masked', d, shape, 'nomask')
    for m in range(4):
        yield ('masked', ('struct', 1), (2,), m)
    # matrices
    for d in list(dtypes(T)) + [('struct', 1)]:
        for shape in ((1, 1), (2, 3), (3, 1), (0, 2), (1, 0)):
            yield ('matrix', d, shape)
    # object arrays: every item kind, all pairs, several shapes
    for i in range(len(OITEMS)):
        for shape in ((), (1,), (2,), (1, 1), (2, 2), (2, 1, 2)):
            yield ('obj', shape, (i,))
    for i, j in itertools.product(range(len(OITEMS)), repeat=2):
        yield ('obj', (2,), (i, j))
        if T or i < 10:
            yield ('obj', (2, 2), (i, j))
    for shape in ((0,), (0, 2), (2, 0), (0, 0), (3, 0, 2)):
        yield ('obj', shape, (0,))
    for d in ('f8', '<U3', 'S3', 'i4'):
        for n in (255, 256, 257, 1000) + ((5000, 65537) if T else ()):
            yield ('fill', d, (n,), 3)


def getdt(d):
    if isinstance(d, tuple):
        return np.dtype((np.int32, (2,))) if d[0] == 'sub' else np.dtype(STRUCT[d[1]])
    return np.dtype(d)


def many(objs):
    """check several values of one case"""
    ops = 0
    for label, o, refuse in objs:
        r = check_roundtrip(o, may_refuse=refuse)
        ops += r.ops
        if r.viol:
            return Result(ops, r.outcome, '[%s] %s' % (label, r.viol))
    return Result(ops, 'equal')


def run_case(case):
    k = case[0]
    if k == 'arr':
        dt = getdt(case[1])
        objs = []
        for lname, a in layouts(lambda s: fill(dt, s), case[2]):
            for cname, c in (CONTEXT if lname == 'C' else CONTEXT[:1]):
                objs.append((lname + '/' + cname, c(a), False))
        return many(objs)
    if k == 'fill':
        return many([('', fill(getdt(case[1]), case[2], case[3]), False)])
    if k == 'scalar':
        a = fill(getdt(case[1]), (3,), case[2])
        s = a[case[2] % 3]
        return many([('top', s, False), ('list', [s, 'z'], False), ('dict', {'k': s}, False), ('nlist', [s, s], False)])
    if k == 'dtype':
        d = getdt(case[1])
        return many([('top', d, False), ('list', [d, d.type, 1], False), ('same', {'a': d, 'b': [d]}, False)])
    if k == 'bits':
        dt = np.dtype(case[1])
        n = 256 ** dt.itemsize
        a = np.arange(n, dtype='>u2' if dt.itemsize == 2 else 'u1').view(dt)
        return many([('', a, False), ('2d', a.reshape(16, -1), False)])
    if k == 'masked':
        a = fill(getdt(case[1]), case[2])
        if case[3] == 'nomask':
            m = np.ma.array(a)
        else:
            size = a.size
            mask = np.array([bool(case[3] >> i & 1) for i in range(size)], bool).reshape(a.shape)
            if a.dtype.names:
                mm = np.zeros(a.shape, np.ma.make_mask_descr(a.dtype))
                for i, nm in enumerate(a.dtype.names):
                    mm[nm] = mask if i == 0 else ~mask
                mask = mm
            m = np.ma.array(a, mask=mask)
        return many([('top', m, False), ('two', [m, 'x', {'a': m.copy()}], False)])
    if k == 'matrix':
        m = np.matrix(fill(getdt(case[1]), case[2]))
        return many([('top', m, False), ('list', [m, 's'], False)])
    if k == 'obj':
        a = oarr(case[1], [OITEMS[i] for i in case[2]])
        return many([('top', a, False), ('list', ['s', a], False)])
    raise AssertionError(case)


CHECK = Check('C02', cases, run_case, level='exploration',
              rule='product of element type, shape, memory layout, content pattern, mask and nesting position; each value is dumped, loaded and compared bit for bit',
              bound='38 simple dtypes and 8 record dtypes x 13 (89) shapes x <= 8 layouts; all bit patterns of 8/16 bit types; all masks <= 4 (6) elements; all pairs of 18 object items',
              assumptions=['dtypes without HDF5 equivalent (datetime64, text fields of records) are refused by dump and not part of the domain',
                           'fill values of masked arrays and memory order are not part of the value'])
if __name__ == '__main__':
    run(CHECK)
