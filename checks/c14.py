"""C14: load leaves the file, dump leaves the object alone; results are independent"""
import os, sys, io, itertools, warnings, copy
from pathlib import Path
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch
from mc.eqv import diff
from mc import zoo, values
from mc.values import content, first_diff, snap, independent, scramble, load_mod
import numpy as np
import h5py

values.use_scipy()
values.use_astropy()
warnings.simplefilter('ignore')
VAL = dict(values.BUILTIN, **values.NUMPY)
VAL.update(values.SCIPY)
VAL.update(values.OBJECTS)
ASTRO = values.astro_values()
VAL.update(ASTRO)


# inputs in unusual states
class Lazy(zoo.Eq):
    """caches while it is serialized unless it is left alone"""

    def __init__(self, v):
        self.v = v


def sharedmask():
    a = np.ma.array(np.arange(6), mask=[0, 1, 0, 0, 1, 0], fill_value=7)
    b = a[1:5]
    return [a, b]


def hardmask():
    a = np.ma.array(np.arange(3), mask=[0, 1, 0], hard_mask=True)
    return {'m': a}


def view():
    base = np.arange(20)
    return [base, base[::2], base[5:].reshape(3, 5)]


def bytesview():
    b = np.frombuffer(b'abcdefgh', dtype='i2')
    return [b, 'x']


def npstr():
    return [np.array(['x', 'yy']), np.array('zero'), np.array([[b'q', b'w']]), np.str_('s'), np.bytes_(b't')]


def csr_dup(k):
    """sparse matrices which are not in canonical format"""
    import scipy.sparse as sp
    if k == 'unsorted':
        return sp.csr_matrix((np.array([1., 2., 3.]), np.array([2, 0, 1]), np.array([0, 2, 3])), shape=(2, 3))
    if k == 'zeros':
        return sp.csr_matrix((np.array([0., 2., 0.]), np.array([0, 2, 1]), np.array([0, 2, 3])), shape=(2, 3))
    if k == 'bsr':
        return sp.bsr_matrix((np.arange(4.).reshape(4, 1, 1), np.array([1, 1, 0, 0]), np.array([0, 2, 4])), shape=(2, 2))
    return getattr(sp, k + '_matrix')((np.array([1., 2., 3.]), np.array([1, 1, 0]), np.array([0, 2, 3])), shape=(2, 2))


def items_of(d):
    return [d, d['a'], [d['a'], d]]


INPUT = dict(
    dupcsr=lambda: [csr_dup('csr'), 1], dupcsc=lambda: csr_dup('csc'), unsorted=lambda: csr_dup('unsorted'), zeros=lambda: csr_dup('zeros'), dupbsr=lambda: csr_dup('bsr'),
    sharedmask=sharedmask, hardmask=hardmask, view=view, bytesview=bytesview, npstr=npstr, roobj=lambda: values.ro(np.array([1, 'x'], object)), romask=lambda: np.ma.array(values.ro(np.arange(3)), mask=[0, 1, 0]), order=lambda: {'z': 1, 'a': {'q': 1, 'b': [3, 'x']}, 5: 6, (2, 'k'): [1, 'y']},
    ba=lambda: [bytearray(b'abc'), 'x'], memarr=lambda: [np.zeros((2, 2), order='F'), np.zeros(3, '>f4')], dic2=lambda: items_of({'a': [1, 'x']}), nested=lambda: [[1, 2], [3, 4], ([5, 6], {'k': [7, 8]})], ints=lambda: {'l': [0, 1, 255, 256], 't': (1, 2), 's': {1, 2, 3}}, bigl=lambda: [1, 2**63, -1], strl=lambda: ['a', 'b', b'c'],
    od=lambda: zoo.MyOD([('b', 1), ('a', 2)]), sub=lambda: zoo.SubList([zoo.SubDict(a=1), zoo.SubStr('x')]), structs=lambda: [np.zeros(2, [('a', 'i4', (2,)), ('b', 'S3')]), np.zeros((), [('x', 'f4')])], attrarr=lambda: np.arange(3).view(zoo_arr()), objmask=lambda: np.ma.array([1, 'x', None], mask=[0, 1, 0], dtype=object))
VAL2 = dict(VAL, **INPUT)


def zoo_arr():
    return np.ndarray


ACC = ['str', 'path', 'h5_r', 'h5_rp', 'grp_r', 'grp_rp', 'rb', 'rpb', 'bio', 'minimal', 'tuple', 'dict', 'raw']
MUT = sorted(set(VAL) - {'none', 'true', 'int', 'flt', 'cplx', 'text', 'byts', 'const', 'func'})


def cases(tier):
    T = tier == 'thorough'
    # two loads through all pairs of access kinds, with the first result changed in between
    for v in VAL:
        for a in ACC:
            for b in (ACC if T or v in ('dic', 'plain', 'mixed') else [a, ACC[(ACC.index(a) + 4) % len(ACC)]]):
                yield ('two', v, a, b)
    # several loads through one open handle
    for v in VAL:
        for h in ('h5_r', 'h5_rp', 'grp_r', 'grp_rp', 'rb', 'rpb', 'bio'):
            for n in ((2, 3, 4) if T else (3,)):
                yield ('same', v, h, n)
    # words of load, mutate, dump on the same value
    for v in (sorted(VAL2) if T else ['dic', 'mixed', 'arr', 'plain', 'masked', 'shared', 'csr', 'objarr', 'quant', 'sharedmask', 'order', 'view']):
        for w in itertools.product('LMDR', repeat=5 if T else 4):
            if w[0] in 'LR' and ('L' in w[1:] or 'R' in w[1:]):
                yield ('word', v, ''.join(w))
    # input of dump
    for v in VAL2:
        for t in ('bio', 'str', 'h5', 'group', 'file'):
            for kw in (0, 1, 2, 3):
                if T or t in ('bio', 'h5') or kw == 0:
                    yield ('input', v, t, kw)
    # same content
    for v in VAL2:
        for how in range(len(HOW)):
            yield ('again', v, how)
    for v in VAL:
        yield ('readonly', v)


KW = [{}, dict(compression='gzip'), dict(compression='lzf', shuffle=True, fletcher32=True), dict(chunks=True)]


def fname(n='c14.h5'):
    return os.path.join(scratch(), n)


class Minimal(object):
    """smallest file-like object accepted"""

    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, *a):
        return self.b.read(*a)

    def readinto(self, x):
        return self.b.readinto(x)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


class Handle(object):
    """a way to get at the stored bytes; now() returns the current bytes"""

    def __init__(self, kind, data, where, name):
        self.kind, self.where = kind, where
        self.close = lambda: None
        self.path = where
        self.kw = {}
        if kind in ('bio', 'minimal'):
            self.t = io.BytesIO(data) if kind == 'bio' else Minimal(data)
            b = self.t if kind == 'bio' else self.t.b
            self.now = b.getvalue
            self.kw = dict(filename='x.h5')
            self.before = data
            return
        with open(name, 'wb') as o:
            o.write(data)

        def now():
            with open(name, 'rb') as i:
                return i.read()
        self.now = now
        if kind == 'str':
            self.t = name
        elif kind == 'path':
            self.t = Path(name)
        elif kind in ('rb', 'rpb'):
            self.t = open(name, 'rb' if kind == 'rb' else 'r+b')
            self.close = self.t.close
        elif kind == 'raw':
            self.t = open(name, 'rb', buffering=0)
            self.close = self.t.close
        elif kind in ('tuple', 'dict'):
            o = open(name, 'rb')
            self.close = o.close
            self.t = (o, 'other.h5') if kind == 'tuple' else dict(file=o, name='other.h5')
        else:
            h = h5py.File(name, 'r' if kind.endswith('_r') else 'r+')
            self.close = h.close
            h.flush()

            def now2():
                h.flush()
                return now()
            self.now = now2
            if kind.startswith('h5'):
                self.t = h
            else:
                self.t = h[where]
                self.path = '/'
        self.before = self.now()

    def load(self):
        import hickle
        return hickle.load(self.t, path=self.path, **self.kw)


def dump_at(v, where, **kw):
    import hickle
    b = io.BytesIO()
    hickle.dump(v, b, mode='w', path=where, filename='x', **kw)
    return b.getvalue()


def do_two(v, a, b):
    where = '/' if (len(v) + len(a)) % 2 else '/sub/g'
    mk = VAL[v]
    data = dump_at(mk(), where)
    res = []
    for i, k in enumerate((a, b)):
        h = Handle(k, data, where, fname('c14_%d.h5' % i))
        try:
            r = h.load()
            d = diff(mk(), r)
            if d:
                return Result(i + 1, 'violation', 'load %d through %s: %s' % (i + 1, k, d))
            if h.now() != h.before:
                return Result(i + 1, 'violation', 'load %d through %s changed the file' % (i + 1, k))
            for q in res:
                d = independent(q, r)
                if d:
                    return Result(i + 1, 'violation', 'loads through %s and %s: %s' % (a, b, d))
            if i == 0 and v in MUT and v not in ASTRO:
                scramble(r)
                if h.now() != h.before:
                    return Result(i + 1, 'violation', 'changing the loaded value changed the file')
            res.append(r)
        finally:
            h.close()
        if k not in ('bio', 'minimal') and open(fname('c14_%d.h5' % i), 'rb').read() != h.before and not k.endswith('_rp'):
            return Result(i + 1, 'violation', 'file changed when it was closed after loading through %s' % k)
    return Result(2, 'ok', None, [(v, a, b)])


def do_same(v, k, n):
    mk = VAL[v]
    data = dump_at(mk(), '/x')
    h = Handle(k, data, '/x', fname())
    res = []
    try:
        for i in range(n):
            r = h.load()
            d = diff(mk(), r)
            if d:
                return Result(i + 1, 'violation', 'load %d: %s' % (i + 1, d))
            if h.now() != h.before:
                return Result(i + 1, 'violation', 'load %d changed the file' % (i + 1))
            for j, q in enumerate(res):
                d = independent(q, r)
                if d:
                    return Result(i + 1, 'violation', 'loads %d and %d: %s' % (j + 1, i + 1, d))
            res.append(r)
        if v in MUT and v not in ASTRO:
            scramble(res[0])
            for i in range(1, n):
                d = diff(mk(), res[i])
                if d:
                    return Result(n, 'violation', 'changing the first result changed result %d: %s' % (i + 1, d))
            if h.now() != h.before:
                return Result(n, 'violation', 'changing the loaded value changed the file')
    finally:
        h.close()
    return Result(n)


def do_word(v, w):
    """L load through name, R load through an open r+ handle, M change all loaded values, D dump the original again to another path of the file"""
    import hickle
    mk = VAL2[v]
    obj = mk()
    astro = v in ASTRO
    s0 = None if astro else snap(obj)
    name = fname()
    hickle.dump(obj, name, mode='w', path='/v0')
    npath, res, ops, dirty = 1, [], 1, False
    for k, c in enumerate(w):
        ops += 1
        if c in 'LR':
            before = open(name, 'rb').read()
            for p in range(npath):
                if c == 'L':
                    r = hickle.load(name, path='/v%d' % p)
                else:
                    with h5py.File(name, 'r+') as h:
                        r = hickle.load(h, path='/v%d' % p)
                        cont = None
                d = diff(mk(), r)
                if d:
                    return Result(ops, 'violation', 'step %d: %s' % (k, d))
                for q in res + [obj]:
                    d = independent(q, r)
                    if d:
                        return Result(ops, 'violation', 'step %d: %s' % (k, d))
                res.append(r)
            if c == 'L' and open(name, 'rb').read() != before:
                return Result(ops, 'violation', 'step %d: load changed the file' % k)
        elif c == 'M':
            if not astro:
                for r in res:
                    scramble(r)
                if s0 != snap(obj):
                    return Result(ops, 'violation', 'step %d: changing a loaded value changed the dumped one' % k)
        else:
            hickle.dump(obj, name, mode='r+', path='/v%d' % npath)
            with h5py.File(name, 'r') as f:
                d = first_diff(content(f, '/v0'), content(f, '/v%d' % npath))
            if d:
                return Result(ops, 'violation', 'step %d: second dump of the same value stores different content: %s' % (k, d))
            npath += 1
            if not astro and snap(obj) != s0:
                return Result(ops, 'violation', 'step %d: dump changed the object' % k)
    return Result(ops)


def do_input(v, t, kw):
    import hickle
    obj = VAL2[v]()
    s0 = snap(obj) if v not in ASTRO else None
    name = fname()
    if os.path.exists(name):
        os.remove(name)
    h = None
    try:
        if t == 'bio':
            h, tgt = None, io.BytesIO()
        elif t == 'str':
            tgt = name
        elif t == 'file':
            tgt = h = open(name, 'w+b')
        else:
            h = h5py.File(name, 'w')
            tgt = h if t == 'h5' else h.create_group('g')
        for i in range(2):
            hickle.dump(obj, tgt, mode='w', path='/p%d' % i, **dict(KW[kw], **({'filename': 'q'} if t == 'bio' else {})))
            if s0 is not None:
                if snap(obj) != s0:
                    return Result(i + 1, 'violation', 'dump changed the object: %s' % first_diff(s0, snap(obj)))
            d = diff(VAL2[v](), obj)
            if d:
                return Result(i + 1, 'violation', 'dump changed the object: %s' % d)
    finally:
        if h is not None:
            h.close()
    return Result(2)


def h_fresh(obj, kw):
    return [dump_at(obj, '/', **kw), '/'], [dump_at(obj, '/', **kw), '/']


def h_path(obj, kw):
    return [dump_at(obj, '/', **kw), '/'], [dump_at(obj, '/a/b', **kw), '/a/b']


def h_trunc(obj, kw):
    import hickle
    name = fname()
    out = []
    for i in range(2):
        hickle.dump(obj, name, mode='w', **kw)
        out.append([open(name, 'rb').read(), '/'])
    return out


def h_after(obj, kw):
    """after dumping and loading something else"""
    import hickle
    a = [dump_at(obj, '/', **kw), '/']
    for n in ('dic', 'plain', 'masked'):
        hickle.load(io.BytesIO(dump_at(VAL[n](), '/')), filename='x')
    hickle.load(io.BytesIO(a[0]), filename='x')
    return a, [dump_at(obj, '/', **kw), '/']


def h_second(obj, kw):
    """second value of the same file"""
    import hickle
    b = io.BytesIO()
    with h5py.File(b, 'w') as f:
        hickle.dump(VAL['dic'](), f, path='/first')
        hickle.dump(obj, f, path='/second', **kw)
    return [dump_at(obj, '/second', **kw), '/second'], [b.getvalue(), '/second']


HOW = [h_fresh, h_path, h_trunc, h_after, h_second]


def do_again(v, how):
    obj = VAL2[v]()
    for kw in KW[:2]:
        try:
            a, b = HOW[how](obj, kw)
        except Exception as e:
            return Result(2, 'violation', '%s raised %s: %s' % (HOW[how].__name__, type(e).__name__, e))
        with h5py.File(io.BytesIO(a[0]), 'r') as f, h5py.File(io.BytesIO(b[0]), 'r') as g:
            d = first_diff(content(f, a[1]), content(g, b[1]))
        if d:
            return Result(2, 'violation', '%s: content differs %s' % (HOW[how].__name__, d))
    return Result(4)


def do_readonly(v):
    """a file the user may only read"""
    import hickle
    d = os.path.join(scratch(), 'ro')
    os.makedirs(d, exist_ok=True)
    os.chmod(scratch(), 0o755)
    name = os.path.join(d, v + '.h5')
    data = dump_at(VAL[v](), '/')
    with open(name, 'wb') as o:
        o.write(data)
    os.chmod(name, 0o444)
    os.chmod(d, 0o555)
    uid = os.geteuid()
    if uid == 0:
        os.seteuid(65534)
    try:
        try:
            r = hickle.load(name)
        except Exception as e:
            return Result(1, 'violation', 'loading from a read-only file raised %r' % (e,))
    finally:
        if uid == 0:
            os.seteuid(0)
        os.chmod(d, 0o755)
    x = diff(VAL[v](), r)
    if x is None and open(name, 'rb').read() != data:
        x = 'file changed'
    if x is None and sorted(os.listdir(d)) != [v + '.h5']:
        x = 'files created: %s' % os.listdir(d)
    os.remove(name)
    return Result(1, 'ok' if x is None else 'violation', x)


def run_case(case):
    warnings.simplefilter('ignore')
    return globals()['do_' + case[0]](*case[1:])


CHECK = Check('C14', cases, run_case, level='model_checking',
              rule='explicit-state exploration of load/change/dump histories on the real code: every pair of access kinds, repeated loads through one handle, every word over {load, load through a writable handle, change all loaded values, dump again}; after each step the file bytes, the exact state (identities, memory, flags) of the dumped object, equality and independence (no common mutable object or memory) of all results and the logical content of the file are compared',
              bound='%d values x %d access kinds (pairs), 3 (thorough: 4) loads per handle, words of length 4 (thorough: 5), %d inputs x 5 targets x 4 filter settings' % (len(VAL), len(ACC), len(VAL2)),
              assumptions=['h5py and HDF5 as installed'])
if __name__ == '__main__':
    run(CHECK)
