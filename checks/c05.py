"""C05: SciPy sparse matrices round trip"""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result
from mc.rt import check_roundtrip
from mc.eqv import diff, arr_equal
import numpy as np
import scipy.sparse as sp

DT = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'g', 'c8', 'c16', 'G']
MAT = ['csr_matrix', 'csc_matrix', 'bsr_matrix', 'coo_matrix', 'dia_matrix', 'lil_matrix', 'dok_matrix']
ARR = [m.replace('matrix', 'array') for m in MAT if hasattr(sp, m.replace('matrix', 'array'))]


def vals(d, n):
    d = np.dtype(d)
    base = np.arange(1, n + 1)
    if d.kind == 'b':
        return np.ones(n, d)
    if d.kind == 'c':
        return (base * 1.5 - 2j * base).astype(d)
    if d.kind == 'f':
        return (base * -0.75).astype(d)
    if d.kind == 'i':
        return (base * np.where(base % 2, 1, -1)).astype(d)
    return base.astype(d)


def dense(shape, mask, d):
    n = shape[0] * shape[1]
    a = np.zeros(n, d)
    v = vals(d, n)
    for i in range(n):
        if mask >> i & 1:
            a[i] = v[i]
    return a.reshape(shape)


def idx_equal(a, b, path):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        return '%s: %s became %s' % (path, a.tolist(), b.tolist())


def sdiff(a, b, path='value'):
    if type(a) is not type(b):
        return '%s: class %s became %s' % (path, type(a).__name__, type(b).__name__)
    if a.shape != b.shape:
        return '%s: shape %s became %s' % (path, a.shape, b.shape)
    if type(a.shape) is not type(b.shape):
        return '%s: shape is a %s' % (path, type(b.shape).__name__)
    if a.dtype != b.dtype:
        return '%s: dtype %s became %s' % (path, a.dtype, b.dtype)
    if a.format in ('csr', 'csc', 'bsr'):
        if a.format == 'bsr' and a.blocksize != b.blocksize:
            return '%s: block size %s became %s' % (path, a.blocksize, b.blocksize)
        return (idx_equal(a.indptr, b.indptr, path + '.indptr') or idx_equal(a.indices, b.indices, path + '.indices') or
                arr_equal(a.data, b.data, path + '.data'))
    if a.format == 'coo':
        for x, y in zip(a.coords, b.coords):
            d = idx_equal(x, y, path + '.coords')
            if d:
                return d
        return arr_equal(a.data, b.data, path + '.data')
    if a.format == 'dia':
        return idx_equal(a.offsets, b.offsets, path + '.offsets') or arr_equal(a.data, b.data, path + '.data')
    if a.format == 'lil':
        for r, (x, y) in enumerate(zip(a.rows, b.rows)):
            if list(x) != list(y):
                return '%s: row %d indices differ' % (path, r)
        for r, (x, y) in enumerate(zip(a.data, b.data)):
            if len(x) != len(y) or any(p != q for p, q in zip(x, y)):
                return '%s: row %d differs' % (path, r)
        return None
    if a.format == 'dok':
        da, db = dict(a.items()), dict(b.items())
        return None if da == db else '%s: %s became %s' % (path, da, db)
    raise AssertionError(a.format)


def gdiff(a, b, path='value'):
    """containers with sparse members"""
    if sp.issparse(a):
        return sdiff(a, b, path) if sp.issparse(b) else '%s: became %s' % (path, type(b).__name__)
    if type(a) is list:
        if type(b) is not list or len(a) != len(b):
            return '%s: %r became %r' % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = gdiff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        for i, j in itertools.combinations(range(len(a)), 2):
            if (a[i] is a[j]) != (b[i] is b[j]) and sp.issparse(a[i]):
                return '%s: identity of items %d and %d changed' % (path, i, j)
        return None
    if type(a) is dict:
        if type(b) is not dict or list(a) != list(b):
            return '%s: keys changed' % path
        return gdiff(list(a.values()), list(b.values()), path)
    return diff(a, b, path)


def cases(tier):
    T = tier == 'thorough'
    for m in MAT + ARR:
        for d in DT:
            for mask in (0, 1, 0b101101, 0b111111):
                yield ('dense', m, d, (2, 3), mask)
        for shape in [(1, 1), (1, 3), (3, 1), (4, 4), (2, 0), (0, 2), (0, 0), (5, 2), (1, 40)]:
            for mask in (0, 1, 6, 2**(shape[0] * shape[1]) - 1):
                for d in ('f8', 'i2'):
                    yield ('dense', m, d, shape, mask)
    for m in MAT[:3] + ARR[:3] + (MAT[3:] if T else []):
        for shape in [(2, 2), (2, 3), (3, 2)] + ([(3, 3)] if T else []):
            for mask in range(2**(shape[0] * shape[1])):
                yield ('dense', m, 'f8', shape, mask)
        for d in (DT if T else ('f8', 'c8', '?')):
            for k in range(9):
                yield ('odd', m, d, k)
    for m in MAT + ARR:
        for ctx in range(6):
            yield ('ctx', m, ctx)
    for a, b in itertools.product(MAT + ARR[:3], repeat=2):
        yield ('two', a, b)
    for bs in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (6, 6)]:
        for mask in range(16):
            for d in (DT if T else ('f8', 'i4', 'c16')):
                yield ('bsr', bs, mask, d)
    for m in MAT[:3] + MAT[3:4]:
        for it in ('i4', 'i8'):
            yield ('idx', m, it)
        for n in (0, 1, 255, 256, 1000):
            yield ('big', m, n)


def odd(m, d, k):
    """non canonical matrices built from raw parts (format csr/csc; others through coo)"""
    cls = getattr(sp, m)
    v = vals(d, 6)
    z = np.zeros(6, v.dtype)
    if 'bsr' in m:
        blk = np.stack([v.reshape(2, 3), z.reshape(2, 3), v[::-1].reshape(2, 3), v.reshape(2, 3)])
        ip = [np.array([0, 2, 4]), np.array([0, 0, 4]), np.array([0, 4, 4]), np.array([0, 1, 4])][k % 4]
        ind = [np.array([1, 0, 0, 1]), np.array([0, 0, 1, 1]), np.array([1, 1, 1, 1])][k % 3]
        return cls((blk, ind, ip), shape=(4, 6))
    if 'csr' in m or 'csc' in m:
        ind = [[0, 1, 2, 0, 1, 2], [2, 1, 0, 2, 1, 0], [1, 1, 1, 2, 2, 2], [0, 0, 0, 0, 0, 0], [2, 0, 1, 1, 1, 0]][k % 5]
        ip = [[0, 3, 6], [0, 0, 6], [0, 6, 6]][k % 3]
        data = z if k == 8 else (np.where(np.arange(6) % 2, v, z).astype(v.dtype) if k >= 5 else v)
        sh = (2, 3) if 'csr' in m else (3, 2)
        return cls((data, np.array(ind), np.array(ip)), shape=sh)
    if 'coo' in m:
        return cls((v if k < 5 else z, (np.array([0, 1, 0, 1, 1, 1]), np.array([2, 1, 2, 0, 0, k % 3]))), shape=(2, 3))
    return cls(dense((2, 3), k * 7, d))


def build(case):
    k = case[0]
    if k == 'dense':
        return getattr(sp, case[1])(dense(case[3], case[4], case[2]))
    if k == 'odd':
        return odd(*case[1:])
    if k == 'bsr':
        (r, c), mask, d = case[1:]
        return sp.bsr_matrix(np.kron(dense((2, 2), mask, d), np.ones((r, c), d)), blocksize=(r, c))
    if k == 'idx':
        m = getattr(sp, case[1])(dense((3, 3), 0b101011010, 'f8'))
        for n in ('indices', 'indptr'):
            if hasattr(m, n):
                setattr(m, n, getattr(m, n).astype(case[2]))
        return m
    if k == 'big':
        n = case[2]
        return getattr(sp, case[1])(sp.eye(n, n + 1, format='csr') * 2.5) if n else getattr(sp, case[1])((n, 5))
    if k == 'ctx':
        m = getattr(sp, case[1])(dense((2, 3), 0b101101, 'f8'))
        m2 = getattr(sp, case[1])(dense((2, 3), 0b101101, 'f8'))
        return [[m], [m, 's', m], [m, m2], {'a': m, 'b': m2, 'c': 1}, [m, [m2, 'x'], m.data if hasattr(m, 'data') and isinstance(m.data, np.ndarray) and m.data.dtype.kind == 'f' else 0],
                [m.shape, m, (2, 3)]][case[2]]
    if k == 'two':
        a, b = getattr(sp, case[1])(dense((2, 3), 0b1101, 'f8')), getattr(sp, case[2])(dense((3, 2), 0b1001, 'i4'))
        return [a, b, a, 'x']
    raise AssertionError(case)


def run_case(case):
    return check_roundtrip(build(case), differ=gdiff)


CHECK = Check('C05', cases, run_case, level='exploration',
              rule='product of sparse format, element type, shape, sparsity pattern (all patterns of the small shapes), block size, non-canonical storage and position; dumped, loaded and compared array by array',
              bound='14 classes x 15 dtypes; all sparsity patterns of 2x2, 2x3, 3x2 (3x3); 7 block sizes x 16 patterns; pairs of classes',
              assumptions=['integer width of the index arrays is not part of the value'])
if __name__ == '__main__':
    run(CHECK)
