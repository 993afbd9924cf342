"""C11: systematic fault enumeration in dump and load"""
import os, sys, io, itertools, warnings, gc, pickle
from pathlib import Path
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch
from mc.eqv import diff
from mc import zoo, eqv
import numpy as np
import h5py
import scipy.sparse as sp
import importlib.util


def load_mod(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


eqv.EXTRA.append((sp.issparse, load_mod('c05').sdiff))


# -- injector: the n-th storage or serialization call fails ------------------------
class Injector(object):
    POINTS = [(h5py.Group, 'create_dataset'), (h5py.Group, 'create_group'), (h5py.Group, '__getitem__'), (h5py.Group, 'get'), (h5py.Group, 'items'), (h5py.Dataset, '__getitem__'), (h5py.Dataset, '__setitem__'),
              (h5py.AttributeManager, '__setitem__'), (h5py.AttributeManager, '__getitem__'), (h5py.AttributeManager, 'get'), (h5py.AttributeManager, 'items'), (h5py.AttributeManager, 'create'),
              (h5py.File, 'flush'), (pickle, 'dumps'), (pickle, 'loads')]

    def __init__(self):
        self.n = self.count = None
        self.depth = 0
        self.fired = None
        self.exc = None

    def __enter__(self):
        self.saved = []
        for obj, name in self.POINTS:
            had = name in vars(obj)
            orig = getattr(obj, name)
            self.saved.append((obj, name, had, orig))
            setattr(obj, name, self.wrap(orig, '%s.%s' % (obj.__name__, name)))
        self.count = 0
        return self

    def wrap(self, orig, label):
        inj = self

        def call(*a, **k):
            if inj.depth == 0 and inj.n is not None:
                inj.count += 1
                if inj.count == inj.n:
                    inj.fired = '%s (call %d)' % (label, inj.count)
                    raise inj.exc('injected fault')
            inj.depth += 1
            try:
                return orig(*a, **k)
            finally:
                inj.depth -= 1
        return call

    def __exit__(self, *a):
        for obj, name, had, orig in self.saved:
            if had:
                setattr(obj, name, orig)
            else:
                delattr(obj, name)


class Injected(OSError):
    pass


EXC = {'os': Injected, 'mem': MemoryError, 'kbd': KeyboardInterrupt, 'rt': RuntimeError, 'value': ValueError, 'notimpl': NotImplementedError}


def A():
    return np.arange(6.).reshape(2, 3)


def shared():
    a = A()
    l = [a, 'x']
    return {'p': l, 'q': [l, a]}


VAL = dict(
    scalar=lambda: 5, text=lambda: 'h\u00e9', none=lambda: None, arr=A, nlist=lambda: [1, 2, 3], mixed=lambda: [1, 'a', None, [2.5, b'z']], tup=lambda: (1, 'q', (2, 'r')), dic=lambda: {'a': 1, 'b': [A(), 'y'], 3: None, 'k/l': 4, (1, 'k'): 'v'},
    sets=lambda: [{1, 2}, {'a', 3}, set()], shared=shared, masked=lambda: np.ma.array(A(), mask=A() > 2), strarr=lambda: np.array(['a', 'bc']), objarr=lambda: np.array([1, 'x', None], object), csr=lambda: [sp.csr_matrix(np.eye(2)), 'n'],
    plain=lambda: [zoo.Plain(a=1), 'x', zoo.Plain(a=1)], cls=lambda: [zoo.MyList([1, 'x']), zoo.Point(1, 'y'), zoo.MyDict(a='b')], npsc=lambda: [np.float32(1), 'x', np.dtype('i4')], big=lambda: [2**80, 'x'], sub=lambda: {'x': {'y': {'z': [[['d']]]}}})


class BadReduce(object):
    """fails while being stored"""

    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise EXC[self.exc]('injected fault')


def explode(exc):
    raise EXC[exc]('injected fault')


class BadLoad(object):
    """fails while being loaded"""

    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        return (explode, (self.exc,))


class BadState(object):
    def __init__(self, exc):
        self.exc = exc

    def __setstate__(self, s):
        raise EXC[s['exc']]('injected fault')


SHAPES = [lambda b: b, lambda b: [b], lambda b: ['x', b], lambda b: [b, 'x'], lambda b: (1, b, 'y'), lambda b: {'k': b}, lambda b: {'a': 'q', 'z': b, 'b': 3}, lambda b: {'a/b': b}, lambda b: {1: [2, {'u': (b, 'w')}], 'v': 's'},
          lambda b: np.array([1, b, 'x'], object), lambda b: [[['x', [b]]], 'end'], lambda b: [A(), A(), b, A()], lambda b: [b, b], lambda b: {'k': [A(), b], 'l': A()}, lambda b: zoo.MyList(['x', b]), lambda b: [np.ma.array(A()), {'z': b}], lambda b: zoo.Point('x', b)]
TARGETS = ['str', 'path', 'h5', 'group', 'bio', 'file', 'tuple', 'h5_root']


def cases(tier):
    T = tier == 'thorough'
    for v in VAL:
        for t in (TARGETS if T or v == 'mixed' else ['str', 'h5', 'bio'] if v in ('dic', 'shared', 'plain') else ['h5', 'bio']):
            for e in (EXC if T else ['os', 'mem', 'kbd'] if t == 'h5' and v in ('dic', 'plain', 'mixed') else ['os']):
                for g in (True, False):
                    for keep in (True, False):
                        if T or e == 'os' and g == keep or (g and not keep and e != 'os'):
                            for op in ('dump', 'load'):
                                yield (op, v, t, e, g, keep)
    for s in range(len(SHAPES)):
        for t in TARGETS:
            for e in (EXC if T else ['os', 'kbd', 'value']):
                for g in (True, False):
                    if not T and (s + TARGETS.index(t) + (e == 'os')) % 2 != g:
                        continue
                    yield ('bad', s, t, e, g)
                    for k in ('load', 'state'):
                        yield ('badload', s, t, e, g, k)
    for k in range(len(NEST)):
        for t in ('str', 'h5', 'bio'):
            if t == 'h5' or k in (0, 3):
                yield ('nest', k, t)
    for t in TARGETS:
        for v in ('dic', 'plain'):
            for o in OPT:
                yield ('option', t, v, o)


OPT = ['bogus', 'custom,bogus', 'bogus,custom', 'Custom', '']


class Bio(io.BytesIO):
    """in memory file which, as any file of the operating system does, extends on truncate"""

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        n = len(self.getbuffer())
        if size > n:
            pos = self.tell()
            self.seek(n)
            self.write(bytes(size - n))
            self.seek(pos)
            return size
        return super().truncate(size)


class Env(object):
    """a target with values stored before at other places"""

    image = None

    def __init__(self, t):
        import hickle
        self.t = t
        self.fname = os.path.join(scratch(), 'c11.h5')
        for n in os.listdir(scratch()):
            if n.startswith('c11'):
                os.unlink(os.path.join(scratch(), n))
        self.old = {'/old': [1, 'old', np.arange(3)], '/deep/er': {'o': (None, 'p')}}
        self.h = self.f = None
        if Env.image is None:
            for p, v in self.old.items():
                hickle.dump(v, self.fname, mode='a', path=p)
            Env.image = open(self.fname, 'rb').read()
        with open(self.fname, 'wb') as f:
            f.write(Env.image)
        if t in ('h5', 'h5_root'):
            self.h = self.tgt = h5py.File(self.fname, 'r+')
        elif t == 'group':
            self.h = h5py.File(self.fname, 'r+')
            self.tgt = self.h.create_group('grp')
        elif t == 'bio':
            self.tgt = Bio(Env.image)
        elif t == 'file':
            self.f = self.tgt = open(self.fname, 'r+b')
        elif t == 'tuple':
            self.f = open(self.fname, 'r+b')
            self.tgt = (self.f, 'n')
        elif t == 'path':
            self.tgt = Path(self.fname)
        else:
            self.tgt = self.fname
        self.pre = '/grp' if t == 'group' else ''
        self.n0 = nfiles()
        self.fd0 = nfds()

    def dump(self, v, path='new', **kw):
        import hickle
        hickle.dump(v, self.tgt, mode='a', path=path, **kw)

    def load(self, path='new', abs=False):
        import hickle
        if abs and self.t == 'group':
            return hickle.load(self.h, path=path)
        return hickle.load(self.tgt, path=path)

    def leaks(self):
        if nfiles() != self.n0:
            return '%d HDF5 files are open instead of %d' % (nfiles(), self.n0)
        if nfds() != self.fd0:
            return 'number of open file descriptors changed from %d to %d' % (self.fd0, nfds())
        if self.h is not None and not self.h:
            return "the caller's file was closed"
        f = self.tgt if self.t == 'bio' else self.f
        if f is not None and f.closed:
            return "the caller's file object was closed"

    def intact(self):
        for p, v in self.old.items():
            try:
                d = diff(v, self.load(p, True), 'value stored before at %s' % p)
            except Exception as e:
                d = 'value stored before at %s: load raised %s: %s' % (p, type(e).__name__, str(e)[:200])
            if d:
                return d

    def usable(self, tag):
        v = ['later %s' % tag, np.arange(2), {'k': zoo.Point(1, 'z')}]
        try:
            self.dump(v, 'later%s' % tag)
            return diff(v, self.load('later%s' % tag), 'value dumped later')
        except Exception as e:
            return 'later operation raised %s: %s' % (type(e).__name__, str(e)[:200])

    def content(self):
        if self.h is not None:
            self.h.flush()
        if self.t == 'bio':
            return self.tgt.getvalue()
        return open(self.fname, 'rb').read()

    def close(self):
        for x in (self.h, self.f):
            if x is not None:
                try:
                    x.close()
                except Exception:
                    pass


def nfiles():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def nfds():
    return len(os.listdir('/proc/self/fd'))


def set_gc(on):
    (gc.enable if on else gc.disable)()


def run_case(case):
    warnings.simplefilter('ignore')
    try:
        return globals()['do_' + case[0]](*case[1:])
    finally:
        gc.enable()


def aftermath(e, v, build, g, tag, loaded_ok=True):
    """everything that has to hold after a failed dump"""
    if gc.isenabled() != g:
        return 'garbage collection is %s afterwards' % ('enabled' if gc.isenabled() else 'disabled')
    gc.enable()
    d = e.leaks()
    if d:
        return d
    if build is not None:
        d = diff(build(), v, 'the dumped object')
        if d:
            return d
    d = e.intact() or e.usable(tag)
    if d:
        return d
    try:
        back = e.load()
    except Exception:
        return None
    if build is None:
        return 'the remains of the failed dump are loaded as %r' % (back,)
    d = diff(build(), back, 'the remains of the failed dump are loadable')
    return d


def do_dump(vn, t, exc, g, keep):
    ops, kept, n, labels = 0, [], 0, []
    build = VAL[vn]
    while True:
        n += 1
        if n > 3000:
            return Result(ops, 'violation', 'no end of storage calls')
        e = Env(t)
        v = build()
        try:
            inj = Injector()
            inj.exc = EXC[exc]
            err = None
            with inj:
                set_gc(g)
                inj.n = n
                try:
                    e.dump(v, '/' if False else 'new')
                except BaseException as x:
                    if not isinstance(x, (Exception, KeyboardInterrupt)):
                        raise
                    err = x
                inj.n = None
            ops += 1
            if keep and err is not None:
                kept.append(err)
            elif err is not None:
                err = err.with_traceback(None)
                err.__context__ = err.__cause__ = None
            if inj.fired is None:
                gc.enable()
                if err is not None:
                    return Result(ops, 'violation', 'dump without fault raised %s: %s' % (type(err).__name__, err))
                d = diff(build(), e.load()) or e.intact()
                return Result(ops, 'ok' if d is None else 'violation', d, [(vn, t, l) for l in labels])
            labels.append(inj.fired)
            where = '%s in %s: ' % (exc, inj.fired)
            if err is None:
                # tolerated: the dump has to be complete then
                gc.enable()
                try:
                    d = diff(build(), e.load())
                except Exception as x:
                    d = 'load raised %s: %s' % (type(x).__name__, str(x)[:200])
                if d:
                    return Result(ops, 'violation', where + 'dump did not raise but ' + d)
                continue
            if not keep:
                del err
            d = aftermath(e, v, build, g, n)
            ops += 4
            if d:
                return Result(ops, 'violation', where + d)
        finally:
            e.close()


def do_load(vn, t, exc, g, keep):
    ops, kept, n, labels = 0, [], 0, []
    build = VAL[vn]
    e = Env(t)
    try:
        e.dump(build())
        before = e.content()
        while True:
            n += 1
            if n > 3000:
                return Result(ops, 'violation', 'no end of storage calls')
            inj = Injector()
            inj.exc = EXC[exc]
            err = back = None
            with inj:
                set_gc(g)
                inj.n = n
                try:
                    back = e.load()
                except BaseException as x:
                    if not isinstance(x, (Exception, KeyboardInterrupt)):
                        raise
                    err = x
                inj.n = None
            ops += 1
            on = gc.isenabled()
            gc.enable()
            if keep and err is not None:
                kept.append(err)
            if inj.fired is None:
                d = 'load without fault raised %r' % (err,) if err is not None else diff(build(), back)
                return Result(ops, 'ok' if d is None else 'violation', d, [(vn, t, l) for l in labels])
            labels.append(inj.fired)
            where = '%s in %s: ' % (exc, inj.fired)
            raised = err is not None
            if not keep:
                err = None
                x = None
            if on != g:
                return Result(ops, 'violation', where + 'garbage collection is %s afterwards' % on)
            if not raised:
                d = diff(build(), back, 'load did not raise and')
                if d:
                    return Result(ops, 'violation', where + d)
            d = e.leaks() or e.intact()
            if d is None:
                try:
                    d = diff(build(), e.load(), 'next load')
                except Exception as x:
                    d = 'next load raised %s: %s' % (type(x).__name__, str(x)[:200])
            ops += 3
            if d is None and e.content() != before:
                d = 'failed load modified the file'
            if d:
                return Result(ops, 'violation', where + d)
    finally:
        e.close()


def do_bad(s, t, exc, g):
    """an object inside the value refuses to be stored"""
    e = Env(t)
    try:
        v = SHAPES[s](BadReduce(exc))
        set_gc(g)
        try:
            e.dump(v)
        except BaseException as x:
            if not isinstance(x, (Exception, KeyboardInterrupt)):
                raise
            err = x
        else:
            return Result(1, 'violation', 'dump of an object which fails to be stored did not raise')
        d = aftermath(e, v, None, g, 0)
        return Result(5, 'ok' if d is None else 'violation', d)
    finally:
        e.close()


def do_badload(s, t, exc, g, k):
    """an object inside the value refuses to be loaded"""
    e = Env(t)
    try:
        v = SHAPES[s]((BadLoad if k == 'load' else BadState)(exc))
        e.dump(v)
        before = e.content()
        set_gc(g)
        try:
            back = e.load()
        except BaseException as x:
            if not isinstance(x, (Exception, KeyboardInterrupt)):
                raise
            err = x
        else:
            return Result(2, 'violation', 'load returned %r though an item fails to be loaded' % (back,))
        if gc.isenabled() != g:
            return Result(2, 'violation', 'garbage collection is %s afterwards' % gc.isenabled())
        gc.enable()
        d = e.leaks() or ('failed load modified the file' if e.content() != before else None) or e.intact() or e.usable('x')
        return Result(6, 'ok' if d is None else 'violation', d)
    finally:
        e.close()


class Nested(object):
    """uses the library on its own while it is stored"""
    action = None

    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        if Nested.action is not None:
            Nested.action()
        return (Nested, (self.v,))

    def __eq__(self, o):
        return type(o) is Nested and o.v == self.v

    __hash__ = None


def _swallow(f):
    def g():
        try:
            f()
        except Exception:
            pass
    return g


def nest_other(e):
    import hickle
    b = io.BytesIO()
    hickle.dump([1, 'inner'], b, filename='i')
    assert hickle.load(b, filename='i') == [1, 'inner']


def nest_same_dump(e):
    e.dump(['inner'], 'inner')


def nest_same_load(e):
    e.load('/old', True)


def nest_fail_other(e):
    import hickle
    hickle.dump([BadReduce('os')], io.BytesIO(), filename='i')


NEST = [nest_other, nest_same_dump, nest_same_load, nest_fail_other]


def do_nest(k, t):
    """operations triggered from within a dump: the outer one completes correctly or raises"""
    e = Env(t)
    build = lambda: [A(), Nested(1), {'k': Nested(2)}, 'end']
    try:
        for swallow in (True, False):
            v = build()
            f = lambda: NEST[k](e)
            Nested.action = staticmethod(_swallow(f) if swallow else f)
            err = None
            try:
                e.dump(v, 'new%d' % swallow)
            except Exception as x:
                err = x
            finally:
                Nested.action = None
            if err is not None and k == 0:
                return Result(1, 'violation', 'operation on another file disturbed the dump: %r' % (err,))
            if err is None:
                d = diff(build(), e.load('new%d' % swallow))
            else:
                d = None
                try:
                    back = e.load('new%d' % swallow)
                except Exception:
                    pass
                else:
                    d = diff(build(), back, 'remains of the failed dump')
            # (intact only if the inner operation does not work on a file which is being written by name)
            if d is None and not (t in ('str', 'bio') and k in (1, 2)):
                d = e.intact() or e.usable('n%d' % swallow)
            if d is None:
                del err
                d = e.leaks()
            if d:
                return Result(4, 'violation', d)
        return Result(8)
    finally:
        e.close()


def do_option(t, vn, o):
    """an unknown option is refused and has no effect on later dumps to the same place"""
    e = Env(t)
    try:
        opts = {k: True for k in o.split(',')}
        v = VAL[vn]()
        try:
            e.dump(v, options=opts)
        except Exception as x:
            err = x
        else:
            return Result(1, 'violation', 'options %r accepted' % opts)
        d = e.leaks() or e.intact() or e.usable('o')
        if d is None:
            try:
                e.dump(v)
            except Exception:
                return Result(4, 'ok')
            try:
                d = diff(VAL[vn](), e.load(), 'value dumped again to the same path')
            except Exception as x:
                d = 'value dumped again to the same path: load raised %s: %s' % (type(x).__name__, str(x)[:200])
        return Result(6, 'ok' if d is None else 'violation', d)
    finally:
        e.close()


CHECK = Check('C11', cases, run_case, level='fault_enumeration',
              rule='for every value, target and kind of error: the n-th storage/serialization call of the dump (load) fails, for all n until none is left; objects failing to be stored or loaded at every position; nested use; afterwards open files, garbage collector, dumped object, values stored before, later operations and remains are checked',
              bound='%d values x 3..8 targets x 1..6 kinds of error x every call; %d shapes with a failing object x 8 targets x 3 (6) kinds of error' % (len(VAL), len(SHAPES)),
              assumptions=['faults are raised by the h5py and pickle calls made by the library (data set, group and attribute access, flush, dumps, loads)', 'in-memory file objects grow on truncate like operating system files do (io.BytesIO does not, h5py relies on it)', 'AttributeError and ImportError raised while loading denote missing classes and belong to C16'])
if __name__ == '__main__':
    run(CHECK)
