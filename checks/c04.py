"""C04: the identity relation of the object graph survives"""
import os, sys, itertools, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result
from mc.rt import dump_bytes, load_bytes
from mc.eqv import diff, canon
from mc import zoo, eqv
import numpy as np
import scipy.sparse as sp

# -- building blocks ------------------------------------------------------------
LEAF = dict(
    arr=lambda k: np.arange(3) + k, arr2=lambda k: np.full((2, 2), k + .5), arrU=lambda k: np.array(['x%d' % k, 'y']), arrO=lambda k: np.array([k, None, 'q'], object), arrS=lambda k: np.array([b'a%d' % k]),
    arr0=lambda k: np.array(k), str=lambda k: ''.join(['te', 'xt', str(k)]), bytes=lambda k: b''.join([b'by', b'te', b'%d' % k]), plain=lambda k: zoo.Plain(a=k, b=[1]), elist=lambda k: [], edict=lambda k: {},
    nlist=lambda k: [1, 2, k], ntuple=lambda k: tuple([1.5, k]), eset=lambda k: set(), set=lambda k: {1, k + 5}, sset=lambda k: {'a', 'b%d' % k}, masked=lambda k: np.ma.array([1, 2, k], mask=[0, 1, 0]),
    csr=lambda k: sp.csr_matrix(np.eye(2) * (k + 1)), csc=lambda k: sp.csc_matrix([[0, k + 1]]), mylist=lambda k: zoo.MyList([1, 'x', k]), mydict=lambda k: zoo.MyDict(a=k), mystr=lambda k: zoo.MyStr('ab%d' % k),
    point=lambda k: zoo.Point(k, 'p'), dec=lambda k: __import__('decimal').Decimal(k), froz=lambda k: frozenset([k, 'f']), matrix=lambda k: np.matrix([[1, k]]), bytearray=lambda k: bytearray(b'q%d' % k), range=lambda k: range(k + 2),
    slash=lambda k: {'a/b': k, 'c/d': 'v%d' % k}, tkey=lambda k: {(1, 'k'): k}, deque=lambda k: __import__('collections').deque([k]), od=lambda k: __import__('collections').OrderedDict([('z', k), ('a', 1)]))
HASHABLE = {'str', 'bytes', 'ntuple', 'mystr', 'point', 'dec', 'froz', 'range'}


def objarr(ch):
    a = np.empty(len(ch), object)
    for i, c in enumerate(ch):
        a[i] = c
    return a


def objarr2(ch):
    a = np.empty((2, len(ch)), object)
    for i, c in enumerate(ch):
        a[0, i] = c
        a[1, -1 - i] = c
    return a


def cset(ch):
    return set(ch)


CONT = dict(
    list=lambda ch: list(ch), tuple=lambda ch: tuple(ch), dict=lambda ch: {'k%d' % (9 - i): c for i, c in enumerate(ch)}, sdict=lambda ch: {'k/%d' % i: c for i, c in enumerate(ch)},
    idict=lambda ch: {i: c for i, c in enumerate(ch)}, tdict=lambda ch: {(i, 't'): c for i, c in enumerate(ch)}, mylist=lambda ch: zoo.MyList(ch), mydict=lambda ch: zoo.MyDict(('q%d' % i, c) for i, c in enumerate(ch)), objarr=objarr, objarr2=objarr2,
    mixed=lambda ch: [1] + list(ch) + [None], nest=lambda ch: [[[c]] for c in ch], pair=lambda ch: zoo.Point(ch[0], list(ch[1:])))
C_ALL = sorted(CONT)
C_CORE = ['list', 'tuple', 'dict', 'sdict', 'objarr']
L_ALL = sorted(LEAF)
L_CORE = ['arr', 'str', 'bytes', 'plain', 'elist', 'ntuple', 'masked', 'csr', 'slash', 'arrO']
T_KINDS = ['masked', 'csr', 'slash', 'tkey', 'arrO', 'arrU', 'plain', 'point']


def cases(tier):
    T = tier == 'thorough'
    # words over two equal but distinct leaves
    for L in L_ALL:
        for C in C_ALL:
            for n in (2, 3):
                for w in itertools.product((0, 1), repeat=n):
                    if w[0] == 0:
                        yield ('eq', L, C, w)
    # all directed acyclic graphs: root, one or two inner containers, one or two leaves
    # node 0 root (3 slots), node 1 container (2 slots), node 2 leaf, node 3 scalar
    for C0 in (C_ALL if T else C_CORE + ['mydict', 'tdict']):
        for s0 in itertools.product((1, 2), repeat=3):
            if 1 not in s0:
                continue
            for C1 in (C_ALL if T else C_CORE + ['mylist']):
                for s1 in ((2, 2), (2, 3), (3, 2)):
                    for L in (L_ALL if T else L_CORE):
                        yield ('dag3', C0, s0, C1, s1, L)
    # two inner containers
    cc = C_CORE if T else ['list', 'dict', 'tuple', 'objarr']
    for C0, C1, C2 in itertools.product(cc, repeat=3):
        for s0 in itertools.product((1, 2, 3), repeat=3 if T else 2):
            for s1 in itertools.product((2, 3), repeat=2):
                for L in (['arr', 'str', 'elist', 'plain', 'masked'] if T else ['arr', 'elist']):
                    yield ('dag4', C0, C1, C2, s0, s1, L)
    # order of node names differs from order of items
    for n in ((12, 23) if T else (12,)):
        for i, j in itertools.combinations(range(n), 2):
            for L in ('arr', 'str', 'elist', 'plain', 'point'):
                for C in ('list', 'tuple', 'dict', 'objarr'):
                    if T or C == 'list' or L == 'elist':
                        yield ('order', n, i, j, L, C)
    # temporaries created while writing must not be confused
    for n in ((2, 3, 4) if T else (2, 3)):
        for w in itertools.product(T_KINDS, repeat=n):
            yield ('temp', w)
    for L in T_KINDS:
        for n in (5, 8, 13, 40):
            yield ('temp', (L,) * n)
    # hashable objects shared between set items, dictionary keys and values
    for L in sorted(HASHABLE):
        for k in range(8):
            yield ('key', L, k)
    # views on the same memory and arrays sharing memory are distinct objects
    for k in range(10):
        yield ('view', k)
    # cycles
    for n in (1, 2, 3):
        for kinds in itertools.product(['list', 'dict', 'objarr', 'sdict', 'mylist'] if (n < 3 or T) else ['list'], repeat=n):
            for edges in itertools.product(*[[e for e in itertools.product((0, 1), repeat=n)] for _ in range(n)]):
                yield ('cyc', kinds, edges)
    for k in range(4):
        yield ('paths', k)


def build(case):
    t = case[0]
    if t == 'eq':
        _, L, C, w = case
        o = [LEAF[L](1), LEAF[L](1)]
        return CONT[C]([o[i] for i in w])
    if t == 'dag3':
        _, C0, s0, C1, s1, L = case
        leaf = LEAF[L](1)
        n1 = CONT[C1]([leaf if i == 2 else 7 for i in s1])
        return CONT[C0]([n1 if i == 1 else leaf for i in s0])
    if t == 'dag4':
        _, C0, C1, C2, s0, s1, L = case
        leaf = LEAF[L](1)
        n2 = CONT[C2]([leaf, 's'])
        n1 = CONT[C1]([n2 if i == 2 else leaf for i in s1])
        m = {1: n1, 2: n2, 3: leaf}
        return CONT[C0]([m[i] for i in s0])
    if t == 'order':
        _, n, i, j, L, C = case
        o = LEAF[L](1)
        items = ['f%d' % k for k in range(n)]
        items[i] = items[j] = o
        return CONT[C](items)
    if t == 'temp':
        return [LEAF[L](k) for k, L in enumerate(case[1])]
    if t == 'key':
        o = LEAF[case[1]](3)
        p = LEAF[case[1]](3)
        return [lambda: [{o: 1}, o], lambda: [o, {o: 1}], lambda: {'a': {o, 'z'}, 'b': o}, lambda: [{o: o}], lambda: [{'x/y': o, 'y/x': o}, p], lambda: [{o: p}, o, p], lambda: [[o, 'q'], {(o, 1): p}, p], lambda: [{o, 5}, {p, 5}, o, p]][case[2]]()
    if t == 'view':
        a = np.arange(12.)
        m = np.ma.array(a, mask=a > 5)
        c = sp.csr_matrix(np.eye(3))
        return [lambda: [a, a[:], a[:6], a], lambda: [a.reshape(3, 4), a.reshape(3, 4), a.T], lambda: [m, m.data, m.mask, m], lambda: [m, a, m[:], a], lambda: [c, c.data, c.indices, c], lambda: [c, c.T, c, c.data],
                lambda: {'a': a, 'b': a[::-1], 'c': [a, a[::-1]]}, lambda: [a.copy(), a.copy(), a], lambda: [np.broadcast_to(a, (2, 12)), a], lambda: [m, np.ma.array(a, mask=m.mask), m]][case[1]]()
    if t == 'cyc':
        _, kinds, edges = case
        n = len(kinds)
        nodes = []
        for i, k in enumerate(kinds):
            nodes.append({'list': list, 'dict': dict, 'sdict': dict, 'mylist': zoo.MyList, 'objarr': lambda: np.empty(n + 1, object)}[k]())
        for i, k in enumerate(kinds):
            for j in range(n):
                if not edges[i][j]:
                    continue
                if k in ('list', 'mylist'):
                    nodes[i].append(nodes[j])
                elif k == 'dict':
                    nodes[i]['n%d' % j] = nodes[j]
                elif k == 'sdict':
                    nodes[i]['n/%d' % j] = nodes[j]
                else:
                    nodes[i][j] = nodes[j]
            if k in ('list', 'mylist'):
                nodes[i].append('end%d' % i)
            elif k == 'objarr':
                nodes[i][n] = 'end%d' % i
            else:
                nodes[i]['end'] = i
        return nodes[0]


# -- the identity oracle --------------------------------------------------------
def bearing(a):
    """does this object have an identity a user can rely on (both directions)"""
    if isinstance(a, (bool, int, float, complex, np.generic, np.dtype, type(None), type)) and not isinstance(a, np.void):
        return False
    if type(a) in (str, bytes) and len(a) < 2:
        return False
    if type(a) in (tuple, frozenset) and not a:
        return False
    return True


def walk(a, b, fwd, inv, seen, path='value'):
    if bearing(a):
        if fwd.setdefault(id(a), (id(b), path))[0] != id(b):
            return '%s: one object (first seen at %s) is loaded as two' % (path, fwd[id(a)][1])
        if inv.setdefault(id(b), (id(a), path))[0] != id(a):
            return '%s: distinct object became the same object as %s' % (path, inv[id(b)][1])
    if (id(a), id(b)) in seen:
        return None
    seen.add((id(a), id(b)))
    sub = []
    if isinstance(a, (list, tuple)):
        if not all(isinstance(x, (bool, int, float, complex, np.generic)) for x in a):
            sub = list(zip(a, b, range(len(a))))
    elif isinstance(a, dict) and type(a).__module__ not in ('scipy.sparse._dok',):
        for (ka, va), (kb, vb) in zip(a.items(), b.items()):
            if isinstance(ka, (tuple, zoo.Key)):
                sub.append((ka, kb, 'key %r' % (ka,)))
            sub.append((va, vb, ka))
    elif type(a) is np.ndarray and a.dtype == object:
        sub = list(zip(a.reshape(-1), b.reshape(-1), range(a.size)))
    elif isinstance(a, set):
        if not all(isinstance(x, (bool, int, float, complex, np.generic)) for x in a):
            for x in a:
                for y in b:
                    if type(x) is type(y) and canon(x) == canon(y):
                        sub.append((x, y, 'item'))
                        break
    for x, y, k in sub:
        d = walk(x, y, fwd, inv, seen, '%s[%r]' % (path, k))
        if d:
            return d


def isomorphic(a, b, m, path='value'):
    """possibly cyclic graphs of list, dict, object array and text"""
    if isinstance(a, (list, dict, np.ndarray)):
        if id(a) in m:
            return None if m[id(a)] == id(b) else '%s: reference differs' % path
        m[id(a)] = id(b)
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %s became %s' % (path, type(a), type(b))
        if isinstance(a, dict):
            if list(a) != list(b):
                return '%s: keys differ' % path
            it = [(a[k], b[k], k) for k in a]
        else:
            it = zip(list(a), list(b), range(len(a)))
        for x, y, k in it:
            d = isomorphic(x, y, m, '%s[%r]' % (path, k))
            if d:
                return d
        return None
    return None if type(a) is type(b) and a == b else '%s: %r became %r' % (path, a, b)


def cyclic(case):
    _, kinds, edges = case
    n = len(kinds)
    # cycle reachable from node 0 ?
    state = {}

    def dfs(i):
        state[i] = 1
        for j in range(n):
            if edges[i][j]:
                if state.get(j) == 1 or (j not in state and dfs(j)):
                    return True
        state[i] = 2
        return False
    return dfs(0)


def run_case(case):
    warnings.simplefilter('ignore')
    if case[0] == 'paths':
        return paths(case)
    v = build(case)
    cyc = case[0] == 'cyc' and cyclic(case)
    lim = sys.getrecursionlimit()
    try:
        if cyc:
            # endless recursion is detected earlier, 150 frames suffice for the acyclic part
            sys.setrecursionlimit(len(__import__('inspect').stack(0)) + 150)
        try:
            data = dump_bytes(v)
            back = load_bytes(data)
        finally:
            sys.setrecursionlimit(lim)
    except Exception as e:
        if cyc:
            w = [[1], 'still works']
            d = diff(w, load_bytes(dump_bytes(w)))
            return Result(3, 'cycle refused', d)
        return Result(2, 'raised', '%s: %s' % (type(e).__name__, str(e)[:300]))
    if case[0] == 'cyc':
        d = isomorphic(v, back, {})
        inv = None
        return Result(2, 'cycle restored' if cyc else 'equal', d)
    d = diff(v, back)
    d = d or walk(v, back, {}, {}, set())
    return Result(2, 'equal' if d is None else 'different', d)


def paths(case):
    """the same object dumped to several paths of one file"""
    import io, h5py, hickle
    o = [np.arange(3), 'text']
    v = {'a': o, 'b': [o, o[0]]}
    b = io.BytesIO()
    with h5py.File(b, 'w') as f:
        for i in range(3):
            hickle.dump(v, f, mode='r+', path='/p%d' % i)
        back = [hickle.load(f, path='/p%d' % i) for i in ((0, 1, 2), (2, 1, 0), (0, 0, 0), (1, 2, 1))[case[1]]]
    for x in back:
        d = diff(v, x) or walk(v, x, {}, {}, set())
        if d:
            return Result(6, 'different', d)
    if len({id(x['a']) for x in back}) != 3 or len({id(x['a'][0]) for x in back}) != 3:
        return Result(6, 'different', 'objects loaded by different calls are shared')
    return Result(6)


def _load(n):
    import importlib.util
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


eqv.EXTRA.append((sp.issparse, _load('c05').sdiff))
CHECK = Check('C04', cases, run_case, level='model_checking',
              rule='every object graph of the bound is dumped and loaded; a simultaneous walk of both graphs builds the identity relation, which has to be a bijection on all objects with identity; cyclic graphs must raise or be isomorphic',
              bound='all words of length 2,3 over two equal objects of %d kinds in %d containers; all 3-node DAGs (root 3 slots, inner 2 slots); 4-node DAGs over 4 containers; all index pairs of 12 item sequences; all words over 8 kinds creating temporaries; all cyclic graphs up to 3 nodes' % (len(LEAF), len(CONT)),
              assumptions=['text and bytes shorter than two characters and empty tuples have no identity in CPython', 'numbers have no identity', 'objects inside a serialized object are not linked with objects outside of it'])
if __name__ == '__main__':
    run(CHECK)
