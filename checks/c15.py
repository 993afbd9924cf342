"""C15: custom loaders against a reference model of the registration tables"""
import os, sys, io, itertools, warnings, pickle, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch, Viol
from mc import c15cls as K
import numpy as np
import h5py

# -- alphabet -------------------------------------------------------------------
# registration: class, option, name, kind, memoise
REG = [('R', 'Base', None, 'base', 'ds', True), ('R', 'Base', 'custom', 'base', 'ds', True), ('R', 'Base', 'custom', 'cbase', 'gr', False), ('R', 'Mid', 'custom', 'mid', 'ds', True), ('R', 'Mid', None, 'mid', 'gr', True),
       ('R', 'Leaf', 'custom', 'leaf', 'gr', True), ('R', 'Leaf', None, 'leaf', 'dual', False), ('R', 'Other', None, 'base', 'gr', True), ('R', 'Other', 'custom', 'other', 'dual', True), ('R', 'LSub', 'custom', 'lsub', 'gr', False),
       ('R', 'LSub', None, 'lsub', 'gr', True), ('R', 'list', 'custom', 'mylist', 'gr', True), ('R', 'Both', 'custom', 'both', 'ds', True)]
DUMP = [('D', 0), ('D', 1), ('D', 2), ('D', 3)]
OPT = [{}, {'custom': True}, {'custom': False}, {'bogus': True}, {'custom': True, 'bogus': True}, {'custom': 1, 'bogus': False}, {'bogus': True, 'custom': True}]
BAD = [('B', k) for k in range(15)]


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alpha, repeat=n)


def cases(tier):
    T = tier == 'thorough'
    for w in words(REG + DUMP[:2], 0, 3 if T else 2):
        yield ('word', w)
    small = [REG[i] for i in (0, 1, 3, 5, 7, 10, 11)] + DUMP[:2]
    if not T:
        for w in itertools.product(small, repeat=3):
            yield ('word', w)
    else:
        for w in itertools.product(small, repeat=4):
            yield ('word', w)
    # refused registrations and options in between
    for b in BAD:
        for w in words([REG[i] for i in (0, 1, 3, 5)] + DUMP[:2], 0, 2 if T else 1):
            for i in range(len(w) + 1):
                yield ('word', w[:i] + (b,) + w[i:])
    for o in range(len(OPT)):
        for w in words([REG[i] for i in (1, 3, 5, 9)], 0, 2):
            for i in range(len(w) + 1):
                yield ('word', w[:i] + (('D', o),) + w[i:])
    # all dumps into one file: options of one path do not leak into the other
    for w in words([REG[i] for i in (1, 4, 9)], 0, 2 if not T else 3):
        for ds in itertools.product(range(3), repeat=3):
            yield ('onefile', w, ds)
    # loaders found in hickle_loaders folders, file written and read by different processes
    for layout in ('package', 'subpackage', 'module', 'main'):
        for opt in (None, 'custom'):
            for memo in (True, False):
                for kind in ('ds', 'gr'):
                    for ds in ((0,), (1,), (0, 1), (1, 0), (0, 1, 0)):
                        yield ('pkg', layout, opt, memo, kind, ds)


# -- model ------------------------------------------------------------------------
class Model(object):
    def __init__(self):
        self.types = {None: {}, 'custom': {}}
        self.fn = {None: {}, 'custom': {}}
        self.cont = {None: {}, 'custom': {}}

    def register(self, cls, option, name, kind, memo, tag):
        self.types[option][cls] = (name, kind, memo, tag)
        if kind in ('ds', 'dual'):
            self.fn[option][name] = tag
        if kind in ('gr', 'dual'):
            self.cont[option][name] = tag

    def loader(self, cls, on):
        for c in cls.__mro__:
            for o in (('custom', None) if on else (None,)):
                if c in self.types[o]:
                    return self.types[o][c]
            if c in (list, tuple, dict, str, int):
                return 'native'
        return 'pickle'

    def find(self, table, name, on):
        for o in (('custom', None) if on else (None,)):
            if name in table[o]:
                return table[o][name]
        return None


class Dumped(object):
    """what the model expects in a file"""

    def __init__(self, model, value, on):
        self.on, self.memo, self.log, self.pickled, self.names = on, {}, [], 0, set()
        self.root = self.node(model, value)

    def node(self, m, x):
        if id(x) in self.memo:
            return ('same', self.memo[id(x)])
        num = len(self.memo)
        ld = m.loader(type(x), self.on)
        if ld == 'native':
            if isinstance(x, (int, str)):
                return ('leaf', x)
            self.memo[id(x)] = num
            if isinstance(x, dict):
                return ('dict', num, type(x), [(k, self.node(m, v)) for k, v in x.items()])
            return ('seq', num, type(x), [self.node(m, i) for i in x])
        if ld == 'pickle':
            self.pickled += 1
            self.memo[id(x)] = num
            return ('pickle', num, x)
        name, kind, memo, tag = ld
        self.log.append(tag)
        self.names.add(name)
        if memo:
            self.memo[id(x)] = num
        else:
            # counted, but not found again
            self.memo[('fresh', num)] = num
        if kind == 'dual':
            kind = 'ds' if K.simple(x) else 'gr'
        if kind == 'ds':
            v = plainv(list(x) if isinstance(x, list) else x.v)
        else:
            pay = tuple(x) if isinstance(x, list) else x.v
            v = self.node(m, pay)
            self.keep = getattr(self, 'keep', []) + [pay]
        return ('custom', num, type(x), name, kind, tag, v)


def compare(m, d, node, y, objs, path, llog):
    """raises Viol unless y is what the model expects when loading the file now"""
    k = node[0]
    if k == 'leaf':
        if type(y) is not type(node[1]) or y != node[1]:
            raise Viol('%s: expected %r, got %r' % (path, node[1], y))
        return
    if k == 'same':
        if objs.get(node[1]) is not y:
            # a loader registered later which does not keep references may also apply to files written before
            ld = m.loader(type(y), d.on)
            if not isinstance(ld, str) and not ld[2] and type(y) is type(objs.get(node[1])):
                return
            raise Viol('%s: shared object was not restored as the same object' % path)
        return
    num = node[1]
    if any(o is y for o in objs.values()):
        raise Viol('%s: object is not a distinct one' % path)
    objs[num] = y
    if k == 'pickle':
        x = node[2]
        if type(y) is not type(x) or plainv(y) != plainv(x):
            raise Viol('%s: pickled %s became %r' % (path, type(x).__name__, y))
        return
    if k == 'seq':
        if type(y) is not node[2] or len(y) != len(node[3]):
            raise Viol('%s: %s became %r' % (path, node[2].__name__, y))
        for i, (n, v) in enumerate(zip(node[3], y)):
            compare(m, d, n, v, objs, '%s[%d]' % (path, i), llog)
        return
    if k == 'dict':
        if type(y) is not node[2] or list(y) != [i for i, _ in node[3]]:
            raise Viol('%s: %s became %r' % (path, node[2].__name__, y))
        for i, n in node[3]:
            compare(m, d, n, y[i], objs, '%s[%r]' % (path, i), llog)
        return
    _, _, cls, name, kind, tag, v = node
    lt = m.find(m.fn if kind == 'ds' else m.cont, name, d.on)
    if type(y) is not cls:
        raise Viol('%s: %s stored by loader %s became %s' % (path, cls.__name__, tag, type(y).__name__))
    if cls is not list and y.by != (tag, lt):
        raise Viol('%s: dumped and loaded by %s instead of %s' % (path, y.by, (tag, lt)))
    pay = list(y) if isinstance(y, list) else y.v
    if kind == 'ds':
        if plainv(pay) != v:
            raise Viol('%s: content %r became %r' % (path, v, pay))
        llog.append(lt)
        return
    if isinstance(y, list):
        # the payload itself is a temporary tuple: only its items can be compared
        if len(v[3]) != len(pay):
            raise Viol('%s: %d items became %d' % (path, len(v[3]), len(pay)))
        for i, (n, q) in enumerate(zip(v[3], pay)):
            compare(m, d, n, q, objs, '%s[%d]' % (path, i), llog)
    else:
        compare(m, d, v, pay, objs, path + '.v', llog)
    llog.append(lt)


def plainv(x):
    if isinstance(x, list):
        return [plainv(i) for i in x]
    return (type(x).__name__, plainv(x.v)) if hasattr(x, 'v') else x


def resolvable(m, d):
    """every loader used in the file is still complete"""
    ok = []

    def walk(n):
        if n[0] == 'custom':
            ok.append(m.find(m.fn if n[4] == 'ds' else m.cont, n[3], d.on) is not None)
            if n[4] == 'gr':
                walk(n[6])
        elif n[0] == 'seq':
            for i in n[3]:
                walk(i)
        elif n[0] == 'dict':
            for _, i in n[3]:
                walk(i)
    walk(d.root)
    return all(ok)


def value():
    b, l, o, s, bo = K.Base(1), K.Leaf(5), K.Other(4), K.LSub(['s', 7]), K.Both(11)
    l2 = K.Leaf([b, 'q'])
    return (b, K.Mid(2), l, l2, b, o, {'k': l, 'o': K.Other([o, 'z'])}, s, K.LSub2([s, 'y']), s, l2, [3, 'plain', o], bo, bo, 'end')


# -- execution ---------------------------------------------------------------------
def dump(b, val, options, m, path='/'):
    """dump, compare the calls with the model, return the expectation (None if refused)"""
    import hickle
    from hickle.lookup import SerializedWarning
    del K.DLOG[:]
    unknown = any(on and k != 'custom' for k, on in options.items())
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            hickle.dump(val, b, mode='r+' if isinstance(b, h5py.File) else 'w', path=path, options=options, **({} if isinstance(b, h5py.File) else {'filename': 'x'}))
        except Exception as e:
            if unknown and type(e).__name__ == 'LookupError':
                if K.DLOG:
                    raise Viol('objects dumped before the unknown option was refused')
                return None
            raise
    if unknown:
        raise Viol('unknown option accepted: %r' % (options,))
    d = Dumped(m, val, bool(options.get('custom')))
    if d.log != K.DLOG:
        raise Viol('dump with options %r called the loaders %s, expected %s' % (options, K.DLOG, d.log))
    n = sum(issubclass(w.category, SerializedWarning) for w in ws)
    if n != d.pickled:
        raise Viol('dump with options %r: %d serialization warnings, expected %d' % (options, n, d.pickled))
    return d


def load(b, d, m, path='/'):
    import hickle
    if not resolvable(m, d):
        return 0
    del K.LLOG[:]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        y = hickle.load(b, path=path, **({} if isinstance(b, h5py.File) else {'filename': 'x'}))
    llog = []
    compare(m, d, d.root, y, {}, 'value', llog)
    if len(llog) <= len(K.LLOG) and set(map(str, llog)) != set(K.LLOG) or len(llog) > len(K.LLOG):
        raise Viol('load called the loaders %s, expected %s' % (sorted(K.LLOG), sorted(map(str, llog))))
    return 1


def attr_on(f, path='/'):
    return sorted(k for k, v in f[path].attrs.items() if k.upper().startswith('OPTION_') and v)


def check_attr(b, d, path='/'):
    f = b if isinstance(b, h5py.File) else h5py.File(io.BytesIO(b.getvalue()), 'r')
    got = attr_on(f, path)
    if f is not b:
        f.close()
    if got != (['OPTION_CUSTOM'] if d.on else []):
        raise Viol('options recorded in the file: %s, custom loaders were %s' % (got, 'on' if d.on else 'off'))


def bad(k):
    """registrations which have to be refused: (function, accepted exception names)"""
    from hickle.lookup import LoaderManager, _DictItem
    L = LoaderManager.register_class
    X = LoaderManager.register_class_exclude
    f, l, _ = K.make('bad', 'ds')
    return [
        (lambda: L(object, b'obj', f, l), 'TypeError'), (lambda: L(type, b'typ', f, l), 'TypeError'), (lambda: L(K.make, b'fun', f, l), 'TypeError'), (lambda: L(len, b'fun', f, l, None, True, 'custom'), 'TypeError'),
        (lambda: L(K.Base, b'pickle', f, l), 'ValueError'), (lambda: L(K.Base, b'pickle', f, l, None, True, 'custom'), 'ValueError'), (lambda: L(K.Mid, b'!node-reference!', f, l, None, True, 'custom'), 'ValueError'), (lambda: L(K.Leaf, b'!recover!', f, l), 'ValueError'),
        (lambda: L(K.Base, b'base', f, l, None, True, 'nonsense'), 'LookupError'), (lambda: L(K.Leaf, b'leaf', f, None, None, True, 'CUSTOM'), 'LookupError'), (lambda: X(b'pickle'), 'ValueError'), (lambda: X(b'base', 'nonsense'), 'LookupError'), (lambda: X(b'!node-reference!'), 'ValueError'), (lambda: X(b'!recover!', 'custom'), 'ValueError'), (lambda: X(b'dict_item'), 'ValueError')][k]


def attempt_bad(k):
    fn, want = bad(k)
    try:
        fn()
    except Exception as e:
        if type(e).__name__ != want:
            raise Viol('invalid registration %d refused with %s: %s instead of %s' % (k, type(e).__name__, e, want))
    else:
        raise Viol('invalid registration %d accepted' % k)


def do_reg(op, m, i):
    from hickle.lookup import LoaderManager
    _, cn, option, name, kind, memo = op
    tag = '%d:%s:%s' % (i, cn, option)
    LoaderManager.register_class(K.CLS[cn], name.encode(), *K.make(tag, kind), memo, option)
    m.register(K.CLS[cn], option, name, kind, memo, tag)


def child_word(w):
    m, files, ops = Model(), [], 0
    for i, op in enumerate(w + (('D', 0), ('D', 1), ('D', 2))):
        ops += 1
        if op[0] == 'R':
            do_reg(op, m, i)
        elif op[0] == 'B':
            attempt_bad(op[1])
        else:
            b = io.BytesIO()
            d = dump(b, value(), OPT[op[1]], m)
            if d is not None:
                files.append((b, d))
                check_attr(b, d)
                if i < len(w):
                    load(b, d, m)
    # everything dumped before can still be loaded
    for b, d in files:
        ops += load(b, d, m)
    return ops


def child_onefile(w, ds):
    m = Model()
    for i, op in enumerate(w):
        do_reg(op, m, i)
    b = io.BytesIO()
    todo = []
    with h5py.File(b, 'w') as f:
        for i, o in enumerate(ds):
            p = '/p%d' % i if i else '/p'
            d = dump(f, value(), OPT[o], m, p)
            todo.append((p, d))
        for p, d in todo + todo[::-1]:
            check_attr(f, d, p)
            load(f, d, m, p)
    for p, d in todo:
        load(io.BytesIO(b.getvalue()), d, m, p)
    return 4 * len(ds)


LOADER = '''
import sys
sys.path.insert(0, %(verif)r)
from mc import c15cls as K
from %(mod)s import Thing
f = K.make('pkg', %(kind)r)
class_register = [[Thing, b'thing', f[0], f[1], f[2], %(memo)r, %(opt)r]]
exclude_register = []
'''
CLASS = '''
class Thing(object):
    def __init__(self, v):
        self.v = v
class SubThing(Thing):
    pass
'''


def in_child(fn):
    """result of fn in a forked process: ('ok', value) or ('viol'|'error', text)"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except Viol as v:
                out = ('viol', str(v))
            except BaseException:
                out = ('viol', traceback.format_exc()[-1500:])
            with os.fdopen(wr, 'wb') as o:
                pickle.dump(out, o)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('viol', 'process died')


def do_pkg(layout, opt, memo, kind, ds):
    import shutil, importlib
    root = os.path.join(scratch(), 'pk')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    name = 'hklpk'

    def write(p, t):
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as o:
            o.write(t)
    mod = {'package': name, 'subpackage': name + '.deep.inner', 'module': name, 'main': '__main__'}[layout]
    text = LOADER % dict(verif=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), mod=mod, kind=kind, memo=memo, opt=opt)
    if layout == 'package':
        write(name + '/__init__.py', CLASS)
        write(name + '/hickle_loaders/load_%s.py' % name, text)
    elif layout == 'subpackage':
        write(name + '/__init__.py', '')
        write(name + '/deep/__init__.py', '')
        write(name + '/deep/inner.py', CLASS)
        write(name + '/hickle_loaders/load_%s.py' % name, text)
    elif layout == 'module':
        write(name + '.py', CLASS)
        write('hickle_loaders/load_%s.py' % name, text)
    else:
        write('application.py', CLASS)
        write('hickle_loaders/load_application.py', text)

    def setup():
        import importlib, types
        sys.path.insert(0, root)
        importlib.invalidate_caches()
        if layout == 'main':
            spec = importlib.util.spec_from_file_location('__main__', os.path.join(root, 'application.py'))
            M = importlib.util.module_from_spec(spec)
            sys.modules['__main__'] = M
            spec.loader.exec_module(M)
        else:
            M = importlib.import_module(mod)
        m = Model()
        m.register(M.Thing, opt, 'thing', kind, memo, 'pkg')
        return M, m

    def val(M):
        t, s = M.Thing(1), M.SubThing(2)
        return (t, 'x', [s, t, {'k': s}], K.Base(3))

    def write_files():
        M, m = setup()
        out = []
        for o in ds:
            b = io.BytesIO()
            d = dump(b, val(M), OPT[o], m)
            check_attr(b, d)
            load(b, d, m)
            out.append(b.getvalue())
        return out
    st, files = in_child(write_files)
    if st != 'ok':
        return Result(1, 'violation', files)

    def read_files():
        M, m = setup()
        for o, data in reversed(list(zip(ds, files))):
            load(io.BytesIO(data), Dumped(m, val(M), bool(OPT[o].get('custom'))), m)
        return 0
    st, txt = in_child(read_files)
    shutil.rmtree(root, ignore_errors=True)
    if st != 'ok':
        return Result(1, 'violation', 'in another process: ' + txt)
    return Result(3 * len(ds))


def run_case(case):
    if case[0] == 'pkg':
        return do_pkg(*case[1:])
    st, r = in_child(lambda: globals()['child_' + case[0]](*case[1:]))
    if st != 'ok':
        return Result(1, 'violation', r)
    return Result(r)


CHECK = Check('C15', cases, run_case, level='model_checking',
              rule='explicit-state exploration: every word over registrations (class x option x name x kind x memoise), refused registrations and dumps with options is executed in a process of its own and compared step by step with a reference model of the registration tables: which loader function ran for which object on dump and load, serialization warnings, sharing, option recorded in the file, reloading of all earlier files after later registrations; loaders found in hickle_loaders folders with file written and read by different processes',
              bound='words over %d registrations and 2 dumps of length 2 (thorough: 3), over 9 letters of length 3 (thorough: 4), plus 3 dumps; %d refused registrations at each position; %d option settings; 3 dumps per file; 4 module layouts' % (len(REG), len(BAD), len(OPT)),
              assumptions=['loader functions keep to the documented interface'])
if __name__ == '__main__':
    run(CHECK)
