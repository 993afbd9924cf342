"""C03: dictionary keys and insertion order survive"""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result
from mc.rt import check_roundtrip
from mc import zoo
import numpy as np, collections

nan = float('nan')
KEYS = ['', 'a', 'ab', '1', 'True', 'False', 'None', '1.0', '(1,)', "b'1'", 'b"1"', '"1"', "'a'", 'data0', 'data1', 'data', 'a/b', 'a\\b', '/', '\\', '.', '..', './a', '\0', 'a\0b',
        'h\u00e9', '\u20ac', '\U0001f600', 'A', ' a', 'a ', '\n', 'key_value', 'x' * 300, 'inf', 'nan', '1j', '0',
        b'', b'a', b'1', b'True', b'/', b'\\', b'\0', b'\xff', b'h\xc3\xa9', b'"', b'a"b', b"b'1'", b'data0', b'None',
        0, 1, -1, 10, 2**31, 2**63, -2**63 - 1, 2**64, 10**40, 10**4100, -10**4310,
        0.5, -0.5, 1e300, 1e-300, float('inf'), float('-inf'), nan, 2.5e-10, 1e22,
        1j, 1 + 2j, -1.5 - 0.0j, complex(nan, 1), complex(0, float('inf')),
        None, (), (1,), (1, 2), ('a',), ('1',), (1, 'a'), ((1,), 'x'), (None,), ('a/b', 1), (2.5, b'x'),
        frozenset(), frozenset([1]), frozenset(['a', 2]),
        np.int64(7), np.float64(7.5), np.float32(0.25), np.bool_(False), np.True_, np.str_('np'), np.bytes_(b'np'), np.int8(-3),
        zoo.MyStr('a!'), zoo.MyStr('sub/slash'), zoo.MyBytes(b'sub'), zoo.MyInt(77), zoo.MyFloat(77.25), zoo.Color.RED, zoo.Num.B, zoo.Key('a'), zoo.OtherKey('a'), zoo.KeyRepr('a'), zoo.KeyRepr(1), zoo.FakeInt(5), zoo.FakeFloat(5.5), zoo.FakeBool(1), zoo.FakeStr('fs'), zoo.FakeBytes(b'fb'), zoo.FakeTuple((4, 5)), zoo.FakeNone('fn'),
        zoo.FrozenData(3), zoo.Point(1, 2), zoo.MyTuple((1, 3)), zoo.MyFrozen([5]), int, zoo.Key, zoo.func, range(3), Ellipsis]
CONF = ['1', b'1', 1, '1.0', 1.5, 'True', b'True', 'None', None, (1,), ('1',), '(1,)', 'a/b', 'data0', 'data1', 'b"1"', '"1"', zoo.KeyRepr('1'), zoo.MyStr('1 '), frozenset([1]), False]
ALPHA = ['"', "'", '\\', '/', '.', '\0', 'a', 'b', ' ', '\u00e9', '0', ':']
VALUES = [None, True, 0, 1.5, 'v', '', b'', [], (), {}, set(), [1, 'a'], (1, 2), {'k': 1}, {1: {'2': 3}}, np.arange(3), zoo.Plain(a=1), [()], ((),), np.float32(1)]


def mk(keys, vals=None, cls=dict):
    d = cls()
    for i, k in enumerate(keys):
        d[k] = vals[i] if vals is not None else 'v%d' % i
    return d


def cases(tier):
    T = tier == 'thorough'
    n = len(KEYS)
    for i in range(n):
        for j in range(len(VALUES)):
            yield ('kv', i, j)
    for i, j in itertools.permutations(range(n), 2):
        if T or (i * 7 + j) % 2 == 0 or i < 30 or j < 30:
            yield ('pair', i, j)
    for t in itertools.permutations(range(len(CONF)), 3):
        if T or (t[0] < 15 and t[1] < 15):
            yield ('conf', t)
    for t in itertools.permutations(range(6 if not T else 7), 5 if not T else 6):
        yield ('conf', t)
    for ln in (1, 2, 3):
        for t in itertools.product(range(len(ALPHA)), repeat=ln):
            if T or ln < 3 or len(set(t)) > 1 and t[0] < 8:
                yield ('alpha', t)
    for i in range(n):
        yield ('rot', i)
    for r in range(len(CONF)):
        yield ('subset', r)
    if T:
        for m in range(1, 2**12):
            yield ('mask', m)
    else:
        for m in range(1, 2**9):
            yield ('mask', m)
    for c in range(5):
        for i in range(n):
            yield ('cls', c, i)
    for size in (9, 10, 11, 99, 100, 101, 102, 256, 257) + ((1000, 1001, 3000) if T else ()):
        for kind in range(4):
            for order in range(3):
                yield ('size', size, kind, order)


CLS = [collections.OrderedDict, zoo.MyDict, zoo.MyOD, zoo.SubDict, collections.Counter]


def build(case):
    k = case[0]
    if k == 'kv':
        return {KEYS[case[1]]: VALUES[case[2]], 'other': VALUES[-1 - case[2]]}
    if k == 'pair':
        return mk([KEYS[case[1]], KEYS[case[2]]])
    if k == 'conf':
        return mk([CONF[i] for i in case[1]])
    if k == 'alpha':
        s = ''.join(ALPHA[i] for i in case[1])
        return mk([s, s.encode('utf8'), 'z' + s, (s,)])
    if k == 'rot':
        ks = KEYS[case[1]:] + KEYS[:case[1]]
        return mk(ks if case[1] % 2 else ks[::-1])
    if k == 'subset':
        return [mk(CONF[case[1]:]), {'in': mk(CONF[:case[1] + 1][::-1])}, (mk(CONF[::2]),)]
    if k == 'mask':
        ks = [c for i, c in enumerate(CONF) if case[1] >> i & 1]
        return {'outer': mk(ks), 1: mk(ks[::-1])}
    if k == 'cls':
        c = CLS[case[1]]
        vals = [3, 1, 2]
        return mk([KEYS[case[2]], 'zz', KEYS[case[2] - 1]], vals, c)
    if k == 'size':
        n = case[1]
        idx = [range(n), range(n - 1, -1, -1), [(i * 7919) % n for i in range(n)]][case[3]]
        f = [lambda i: i, lambda i: 'k%d' % i, lambda i: (i, 'x'), lambda i: i + 0.5][case[2]]
        return mk([f(i) for i in idx], [i * 2 for i in idx])
    raise AssertionError(case)


def run_case(case):
    return check_roundtrip(build(case))


CHECK = Check('C03', cases, run_case, level='exploration',
              rule='all dictionaries of the bounded key grammar in all insertion orders are dumped and loaded by the real code; keys (type and value), values and order are compared; distinct by case label',
              bound='%d keys x %d values; all ordered pairs of keys (half of them in quick beyond the first 30); ordered triples of %d look-alike keys; all texts and bytes of <= 3 characters of a %d letter alphabet; subsets of look-alikes; sizes <= 257 (3000)' % (len(KEYS), len(VALUES), len(CONF), len(ALPHA)),
              assumptions=['keys which are NumPy numbers may come back as another NumPy number of equal value', 'key objects are picklable'])
if __name__ == '__main__':
    run(CHECK)
