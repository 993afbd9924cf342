"""C16: data of missing classes and loaders is recovered"""
import os, sys, io, itertools, warnings, pickle, shutil, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch, Viol
from mc.eqv import diff
from mc import eqv, values, c15cls as K
import numpy as np
import h5py
c15 = values.load_mod('c15')

# kinds of objects: source of the class, loader (name, kind, option) or None
SRC = dict(
    gl='class gl(list):\n    pass\n', gd='class gd(dict):\n    pass\n', gs='class gs(str):\n    pass\n', gt='class gt(tuple):\n    pass\n', ge='class ge(set):\n    pass\n', gb='class gb(bytes):\n    pass\n',
    gp='class gp(object):\n    def __init__(self, v):\n        self.v = v\n    def __eq__(self, o):\n        return type(o) is gp and o.v == self.v\n    __hash__ = None\n',
    ca='class ca(object):\n    hkl_diff = staticmethod(lambda a, b, path: None)\n    def __init__(self, v):\n        self.v = v\n', cb='class cb(object):\n    hkl_diff = staticmethod(lambda a, b, path: None)\n    def __init__(self, v):\n        self.v = v\n',
    cd='class cd(object):\n    def __init__(self, v):\n        self.v = v\n', cg='class cg(object):\n    def __init__(self, v):\n        self.v = v\n', cl='class cl(list):\n    pass\n', ck='class ck(object):\n    def __init__(self, v):\n        self.v = v\n')
LOADERS = dict(cd=('ds', 'custom'), cg=('gr', 'custom'), cl=('gr', 'custom'), ck=('ds', None), ca=('ar', 'custom'), cb=('ag', None))
KINDS = sorted(SRC)
BASES = dict(gl=b'list', gd=b'dict', gs=b'str', gt=b'tuple', ge=b'set', gb=b'bytes')


ARRS = [np.arange(6, dtype='i4').reshape(2, 3), np.arange(4, dtype='>f8'), np.array([True, False]), np.array(5, 'u1'), np.zeros((0, 2), 'f4'), np.array([1 + 2j], 'c8'), np.array([b'ab', b'c'], 'S3'), np.array([(1, 2.5)], [('a', '>i2'), ('b', 'f8')]),
        np.asfortranarray(np.arange(6.).reshape(2, 3)), np.array([[2**63]], 'u8'), np.array([np.nan, -0.0, np.inf], 'f2'), np.arange(24, dtype='i1').reshape(2, 3, 4)]
ATTRS = dict(num=7, flt=2.5, txt='h\u00e9', byt=np.bytes_(b'x'), yes=True, arr=np.arange(3, dtype='>i2'), strs=['a', 'bc'], none='', mark='q', item='i', shape=np.array([2, 3]), type_='t', base='b', zero=0, num_items_=3, comp=1j)


def attr_diff(want, got, path):
    for n, v in want.items():
        if n not in got:
            return '%s: attribute %s lost' % (path, n)
        w = got[n]
        w = w.decode() if isinstance(w, bytes) and isinstance(v, str) else w
        v = np.bytes_(v) if isinstance(v, bytes) else v
        if not np.array_equal(np.asarray(v), np.asarray(w)) or isinstance(v, np.ndarray) and w.dtype != v.dtype or isinstance(v, str) != isinstance(w, str):
            return '%s: attribute %s: %r became %r' % (path, n, v, w)


class Spec(object):
    """stands for an instance of a missing class"""

    def __init__(self, kind, pay):
        self.kind, self.pay = kind, pay


def payloads(kind, mk):
    """contents an object of the kind is tried with; mk builds nested objects"""
    if kind == 'gl' or kind == 'cl':
        return [lambda: [1, 'x', None], lambda: ['a', 'b'], lambda: [np.arange(3), {'k': 1}, [2, 'y']], lambda: [1, 2, 3] if kind == 'gl' else [4, 'z'], lambda: [mk('gd', {'q': 1}), mk('gp', 5), 'z'], lambda: [] if kind == 'gl' else ['w']]
    if kind == 'gt':
        return [lambda: (1, 'x'), lambda: (1.5, 2.5), lambda: ('a', mk('gl', [1, 'x']))]
    if kind == 'ge':
        return [lambda: {1, 'x'}, lambda: {1, 2}]
    if kind == 'gd':
        return [lambda: {'a': 1, 'b': 'x'}, lambda: {'k': [1, 'y'], 'n': None}, lambda: {'a': mk('gl', [3, 'u']), 'c': mk('cd', 8)}, lambda: {}]
    if kind == 'gs':
        return [lambda: 'text', lambda: 'h\u00e9']
    if kind in ('ca', 'cb'):
        return [(lambda i=i: (ARRS[i].copy(), {n: ATTRS[n] for n in list(ATTRS)[:i % 4] + list(ATTRS)[i:i + 4]})) for i in range(len(ARRS))]
    if kind == 'gb':
        return [lambda: b'byt']
    if kind == 'cg':
        return [lambda: [1, 'x'], lambda: {'a': mk('gl', [1, 'q'])}, lambda: mk('cd', 3), lambda: np.arange(4.).reshape(2, 2)]
    return [lambda: 7, lambda: [1, 'x'], lambda: {'k': (1, 2)}]


SHAPES = [lambda o, p: o, lambda o, p: [o, 'x'], lambda o, p: ['x', p, o, [1, 2]], lambda o, p: (1, o, 'y', p), lambda o, p: {'k': o, 'l': np.arange(3), 'm': p}, lambda o, p: {'a/b': o, 3: 'z', (1, 'k'): p}, lambda o, p: [o, p, o], lambda o, p: {'a': [o], 'b': [o, 'x'], 'c': {'d': p, 'e': p}},
          lambda o, p: np.array([o if False else 1, None, 'x'], object) if False else oarr(o, p), lambda o, p: [[['deep', [o]]], 'end', p], lambda o, p: [np.ma.array([1, 2], mask=[0, 1]), {'z': (o, p)}, 'after']]


def oarr(o, p):
    a = np.empty(3, object)
    a[0], a[1], a[2] = 'x', o, p
    return a


def cases(tier):
    T = tier == 'thorough'
    # each kind alone, all contents, positions, ways to be missing
    for k in KINDS:
        for n in range(len(payloads(k, None))):
            for s in range(len(SHAPES)):
                for how in (('module', 'attr', 'broken') + (('loader', 'both') if k in LOADERS else ())):
                    for acc in (('bio', 'h5_r', 'h5_rp', 'grp', 'str') if T else ('bio', 'h5_rp') if s in (1, 6) else ('bio',)):
                        yield ('one', k, n, s, how, acc)
    # all subsets of classes missing in one value
    sub = ['gl', 'gd', 'gp', 'cd', 'cg', 'gs'] if not T else KINDS
    for r in range(len(sub) + 1):
        for miss in itertools.combinations(sub, r):
            for how in ('module', 'attr') if T or r < 3 else ('module',):
                for acc in ('bio', 'h5_rp'):
                    yield ('subset', miss, how, acc)


# -- the two processes ------------------------------------------------------------
def moddir(n):
    return os.path.join(scratch(), n)


def make_mods(d, missing, how):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k in KINDS:
        text = SRC[k]
        if k in missing and how in ('module', 'both'):
            continue
        if k in missing and how == 'attr':
            text = 'other = 1\n'
        if k in missing and how == 'broken':
            text = 'from os import there_is_no_such_name\n' + text
        with open(os.path.join(d, 'hklgone_%s.py' % k), 'w') as o:
            o.write(text)


def setup(d, missing=(), how=None):
    """import what is there and register the loaders; returns the constructor of objects"""
    from hickle.lookup import LoaderManager
    sys.path.insert(0, d)
    importlib.invalidate_caches()
    cls = {}
    for k in KINDS:
        if k in missing and how in ('module', 'attr', 'broken', 'both'):
            continue
        cls[k] = getattr(importlib.import_module('hklgone_' + k), k)
    for k, (kind, opt) in LOADERS.items():
        if k in missing and how in ('loader', 'both'):
            continue
        c = cls.get(k)
        if c is None:
            # the loader is there though its class is gone
            c = type(k, (), {})
        LoaderManager.register_class(c, k.encode(), *K.make('t' + k, kind), True, opt)

    def mk(kind, pay):
        if kind in missing:
            return Spec(kind, pay)
        o = cls[kind](pay)
        return o
    return mk


def build(case, mk):
    if case[0] == 'one':
        _, k, n, s, how, acc = case
        o = mk(k, payloads(k, mk)[n]())
        p = mk('gl', ['keep', 1])
        return SHAPES[s](o, p)
    g = [mk(k, payloads(k, mk)[i % len(payloads(k, mk))]()) for i, k in enumerate(KINDS)]
    return {'all': g, 'first': g[0], 'mix': (g[1], 'x', g[2], g[2]), 'plain': [1, 'y', np.arange(3)], 'last': [g[-1], g[-2]]}


def child_dump(case):
    import hickle
    d = moddir('c16_all')
    if not os.path.exists(d):
        make_mods(d, (), None)
    mk = setup(d)
    b = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        hickle.dump(build(case, mk), b, mode='w', path='/p', filename='x', options={'custom': True})
    return b.getvalue()


# -- comparison -------------------------------------------------------------------
def rec_diff(a, b, path):
    import hickle.lookup as L
    k, pay = a.kind, a.pay
    FOUND.append(b)
    if k in LOADERS:
        group = LOADERS[k][0] in ('gr', 'ag')
    elif k == 'gp':
        group = False
    else:
        group = isinstance(b, L.RecoveredGroup)
    if type(b) is not (L.RecoveredGroup if group else L.RecoveredDataset):
        return '%s: instance of a missing class became %s' % (path, type(b).__name__)
    at = dict(b.attrs)
    if 'type' in at:
        return '%s: type reference among the attributes' % path
    if k != 'gp':
        bt = at.get('base_type')
        bt = bt.encode() if isinstance(bt, str) else bt
        want = BASES[k] if k in BASES else k.encode()
        if bt != want:
            return '%s: base type of the recovered data is %r instead of %r' % (path, at.get('base_type'), want)
    if k in LOADERS:
        if at.get('dtag') != 't' + k:
            return '%s: attribute of the recovered data lost: %r' % (path, at)
    if k in ('ca', 'cb'):
        d = attr_diff(pay[1], at, path)
        if d:
            return d
    if group:
        items = {}
        for n, v in b.items():
            if isinstance(v, L.AttemptRecoverCustom):
                items[n] = (v, dict(v.attrs))
            elif type(v) is tuple and len(v) == 2:
                items[n] = v
            else:
                return '%s: entry %s is not an item with its attributes: %r' % (path, n, v)
        if k == 'cb':
            if set(items) != {'payload', 'text', 'list'}:
                return '%s: entries %s' % (path, sorted(items))
            for n in items:
                d = attr_diff({q: v for q, v in pay[1].items() if q != 'np_dtype'}, items[n][1], '%s.%s' % (path, n))
                if d:
                    return d
            return diff(pay[0], items['payload'][0], path + '.payload') or diff('text', items['text'][0], path) or diff([1, 'x'], items['list'][0], path)
        if k in ('cg', 'cl'):
            if set(items) != {'payload', 'extra'}:
                return '%s: entries %s' % (path, sorted(items))
            if any(items[n][1].get('role') != n for n in items):
                return '%s: attributes of the entries lost: %r' % (path, items)
            return diff('text', items['extra'][0], path + '.extra') or diff(tuple(pay) if k == 'cl' else pay, items['payload'][0], path + '.payload')
        got = [v for _, (v, _) in sorted(items.items(), key=lambda i: (len(i[0]), i[0]))] if not isinstance(pay, dict) else [v for v, _ in items.values()]
        exp = list(pay.values()) if isinstance(pay, dict) else list(pay)
        if len(got) != len(exp):
            return '%s: %d stored items, %d recovered' % (path, len(exp), len(got))
        if isinstance(pay, dict):
            names = {n.strip('"\''): v for n, (v, _) in items.items()}
            for q, v in pay.items():
                if q not in names:
                    return '%s: entry %r lost' % (path, q)
                d = diff(v, names[q], '%s[%r]' % (path, q))
                if d:
                    return d
            return None
        if isinstance(pay, set):
            return None if set(got) == set(pay) else '%s: %r became %r' % (path, pay, got)
        return eqv.seq_items(exp, got, path)
    # arrays
    raw = np.asarray(b)
    if k == 'ca':
        return eqv.arr_equal(pay[0], raw, path) or (None if raw.dtype == pay[0].dtype else '%s: type %s became %s' % (path, pay[0].dtype, raw.dtype))
    if k == 'gp':
        return None if pickled(raw.tobytes(), pay) else '%s: stored pickle string lost' % path
    if k in ('cd', 'ck'):
        try:
            same = pickle.loads(raw.tobytes()) == pay
        except Exception as e:
            return '%s: recovered data %r: %r' % (path, raw, e)
        return None if same else '%s: %r became %r' % (path, pay, raw)
    if isinstance(pay, (str, bytes)):
        want = pay.encode('utf8') if isinstance(pay, str) else pay
        got = raw.tobytes() if raw.dtype.kind != 'O' else raw.item()
        got = got.encode('utf8') if isinstance(got, str) else got
        return None if got == want else '%s: %r became %r' % (path, want, got)
    want = sorted(pay) if isinstance(pay, set) else list(pay)
    got = raw.tolist()
    got = sorted(got) if isinstance(pay, set) else got
    if not want:
        return None if raw.size == 0 else '%s: empty value became %r' % (path, raw)
    if isinstance(got, list) and all(isinstance(i, (int, float)) for i in want):
        return None if got == want else '%s: %r became %r' % (path, want, got)
    return '%s: %r became %r' % (path, want, got)


class Rest(pickle.Unpickler):
    def find_class(self, mod, name):
        if mod.startswith('hklgone_'):
            return Stub
        return super().find_class(mod, name)


class Stub(object):
    def __init__(self, *a):
        pass


def pickled(data, pay):
    o = Rest(io.BytesIO(data)).load()
    return isinstance(o, Stub) and eqv.diff(pay, o.v) is None


FOUND = []
eqv.EXTRA.append((lambda a: isinstance(a, Spec), rec_diff))
# sets and pickled objects of classes which still exist hold their content as it was
eqv.EXTRA.append((lambda a: type(a).__module__.startswith('hklgone_') and hasattr(a, 'v'), lambda a, b, path: (None if type(a) is type(b) else '%s: %s became %s' % (path, type(a).__name__, type(b).__name__)) or (None if type(a).__name__ in ('ca', 'cb') else diff(a.v, b.v, path + '.v'))))


def sharing(a, b, fwd, inv, path='value'):
    """objects which occur several times in a are one object in b"""
    if isinstance(a, (Spec, list, dict)) or type(a).__module__.startswith('hklgone_') and not isinstance(a, (str, bytes)):
        if id(a) in fwd:
            return None if fwd[id(a)] is b else '%s: shared object was restored twice' % path
        if id(b) in inv:
            return '%s: distinct objects were restored as one' % path
        fwd[id(a)] = b
        inv[id(b)] = a
    if isinstance(a, dict):
        for k in a:
            d = sharing(a[k], b[k], fwd, inv, '%s[%r]' % (path, k))
            if d:
                return d
    elif isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = sharing(x, y, fwd, inv, '%s[%d]' % (path, i))
            if d:
                return d


def count_specs(a, seen=None):
    """distinct missing objects reachable through containers which are restored item by item"""
    seen = {} if seen is None else seen
    if isinstance(a, Spec):
        if id(a) in seen:
            return seen
        seen[id(a)] = a
        if a.kind not in ('gp', 'cd', 'ck'):
            count_specs(a.pay, seen)
    elif isinstance(a, dict):
        for v in a.values():
            count_specs(v, seen)
    elif isinstance(a, (list, tuple)):
        for v in a:
            count_specs(v, seen)
    elif isinstance(a, np.ndarray) and a.dtype.hasobject:
        count_specs(list(a.reshape(-1)), seen)
    elif type(a).__name__ in ('cg',):
        count_specs(a.v, seen)
    return seen


def raw_diff(b, node, path='value'):
    """whatever is stored as attribute of recovered data and of its entries is recovered"""
    import hickle.lookup as L

    def attrs(at):
        for k in node.attrs:
            if k in ('type', 'base_type'):
                continue
            if k not in at:
                return '%s: stored attribute %s lost' % (path, k)
            if not np.array_equal(np.asarray(node.attrs[k]), np.asarray(at[k])):
                return '%s: attribute %s %r became %r' % (path, k, node.attrs[k], at[k])
    if isinstance(node, h5py.Dataset) and h5py.check_ref_dtype(node.dtype):
        return None
    if isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], dict):
        d = attrs(b[1])
        if d:
            return d
        b = b[0]
    if not isinstance(b, (L.RecoveredGroup, L.RecoveredDataset)):
        return None
    d = attrs(b.attrs)
    if d:
        return d
    if isinstance(b, L.RecoveredGroup) and isinstance(node, h5py.Group):
        if set(b) != set(node):
            return '%s: entries %s became %s' % (path, sorted(node), sorted(b))
        for n in b:
            d = raw_diff(b[n], node[n], '%s[%r]' % (path, n))
            if d:
                return d


def child_load(case, data, missing, how, acc):
    import hickle
    from hickle.lookup import DataRecoveredWarning
    mk = setup(moddir('c16_%s_%s_%d' % ('.'.join(missing), how, os.getpid()) if False else 'c16_cur'), missing, how)
    want = build(case, mk)
    name = os.path.join(scratch(), 'c16.h5')
    h = None
    if acc == 'bio':
        t, path = io.BytesIO(data), '/p'
    else:
        with open(name, 'wb') as o:
            o.write(data)
        path = '/p'
        if acc == 'str':
            t = name
        else:
            t = h = h5py.File(name, 'r+' if acc == 'h5_rp' else 'r')
            if acc == 'grp':
                t, path = h['p'], '/'
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            got = hickle.load(t, path=path, **({'filename': 'x'} if acc == 'bio' else {}))
        except Exception as e:
            raise Viol('load raised %s: %s' % (type(e).__name__, str(e)[:300]))
    n = sum(issubclass(w.category, DataRecoveredWarning) for w in ws)
    d = diff(want, got) or sharing(want, got, {}, {})
    if not d and isinstance(want, Spec):
        with h5py.File(io.BytesIO(data), 'r') as f:
            if 'p/data' in f:
                d = raw_diff(got, f['p/data'])
    if d:
        raise Viol(d)
    specs = count_specs(want)
    if n < len(specs):
        raise Viol('%d recovery warnings for %d objects which could not be restored' % (n, len(specs)))
    if n and not specs:
        raise Viol('%d recovery warnings though nothing is missing' % n)
    if h is not None:
        h.close()
    return len(specs)


def run_case(case):
    missing, how = ((case[1],), case[4]) if case[0] == 'one' else (case[1], case[2])
    st, data = c15.in_child(lambda: child_dump(case))
    if st != 'ok':
        return Result(1, 'violation', 'dump: ' + data)
    make_mods(moddir('c16_cur'), missing, how)
    st, r = c15.in_child(lambda: child_load(case, data, missing, how, case[-1]))
    if st != 'ok':
        return Result(2, 'violation', r)
    return Result(2, '%d recovered' % r)


CHECK = Check('C16', cases, run_case, level='model_checking',
              rule='explicit exploration of two-process histories: one process dumps a value with the classes and loaders present, another one in which a subset of them is missing (module gone, name gone, module broken, loader not registered) loads it; the rest has to be equal, each missing object has to be replaced by one recovered dictionary or array holding its data, attributes and base type, shared ones once, with a warning for each',
              bound='%d kinds of objects (subclasses of built-in types, pickled, custom dataset and group loaders, optional and global) x 1..6 contents x %d positions x 3..5 ways to be missing x access kinds; all subsets of 6 (thorough: %d) classes missing in one value' % (len(KINDS), len(SHAPES), len(KINDS)),
              assumptions=['missing objects used as dictionary keys or set items can not be placed and raise (recovered data is not hashable)'])
if __name__ == '__main__':
    run(CHECK)
