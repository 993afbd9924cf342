"""C10: all ways to name the file are equivalent, handles are respected"""
import os, sys, io, itertools, warnings, tempfile
from pathlib import Path
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch
from mc.eqv import diff
import numpy as np
import h5py


class Min(object):
    """the documented minimum of a file-like object"""

    def __init__(self, data=b''):
        self._b = io.BytesIO(data)
        for n in ('read', 'seek', 'tell', 'write', 'truncate', 'flush', 'readinto'):
            setattr(self, n, getattr(self._b, n))


class MinRead(object):
    def __init__(self, data):
        self._b = io.BytesIO(data)
        for n in ('read', 'seek', 'tell', 'readinto'):
            setattr(self, n, getattr(self._b, n))


class NoSeek(io.RawIOBase):
    def __init__(self, data=b''):
        self.b = io.BytesIO(data)
        self.touched = False

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return False

    def read(self, n=-1):
        return self.b.read(n)

    def write(self, d):
        if len(d):
            self.touched = True
        return len(d)


class NoRead(object):
    touched = False

    def seek(self, *a):
        return 0

    def tell(self):
        return 0

    def write(self, d):
        self.touched = True
        return len(d)


class NoWrite(MinRead):
    pass


VALUES = [lambda: {'a': [1, 'x', np.arange(3)], 2: (None, b'b')}, lambda: np.arange(6.).reshape(2, 3), lambda: ['p', ['q', {'r': 's'}], 2.5]]
# kinds of dump target: (name, set of modes)
W_NAME = ['w', 'wb', 'w+', 'w+b', 'a', 'ab', 'x', 'xb', 'x+', 'w-']
W_OBJ = ['w', 'wb', 'w+', 'w+b', 'a', 'ab', 'r+', 'r+b', 'rb+']
DK = {
    'str': W_NAME, 'path': W_NAME, 'str_rplus': ['r+', 'r+b', 'rb+'], 'relstr': ['w', 'a'], 'unicode': ['w'],
    'h5_w': ['w', 'a', 'r+', 'x'], 'h5_a': ['w', 'a'], 'h5_rplus': ['w', 'r+'], 'h5_x': ['w'], 'h5_core': ['w'], 'h5_latest': ['w'], 'h5_track': ['w'], 'h5_user': ['w'], 'h5_fileobj': ['w'],
    'group': ['w', 'a', 'r+'], 'group_track': ['w'], 'subgroup': ['w', 'r+'],
    'group:data': ['w'], 'group:run/data': ['w', 'a'], 'group:data/run': ['w'], 'group:data0': ['w'], 'group:a b/\u00e9': ['w'], 'group:d.t/data_0': ['w'], 'group:hickle_types_table': ['w'],
    'bio': W_OBJ[:6], 'bio_r+': W_OBJ[6:], 'bio_dirty': ['w', 'wb', 'w+'], 'bio_pos': ['a'], 'file_w+b': ['w', 'wb', 'a'], 'file_r+b': ['w', 'r+', 'a'], 'file_raw': ['w', 'a'], 'file_a+b': [], 'min': ['w', 'a'], 'tmp': ['w'], 'spool': ['w'],
    'tuple': ['w', 'a'], 'tuple_b': ['w'], 'list': ['w'], 'dict': ['w', 'a'], 'tuple_file': ['w'], 'dict_file': ['w'], 'fn_str': ['w'], 'fn_bytes': ['w'], 'tuple3': ['w']}
LK = ['str', 'path', 'relstr', 'h5_r', 'h5_rplus', 'h5_a', 'h5_core', 'h5_fileobj', 'group_root', 'group', 'bio', 'bio_end', 'file_rb', 'file_r+b', 'file_raw', 'file_mid', 'min', 'minread', 'tuple', 'list', 'dict', 'tuple_file', 'fn_str', 'fn_bytes', 'fn_pos']
PATHS = ['/', '', 'a', '/a', 'a/', '/a/', '/a/b', 'a/b', '/a/b/c', 'with space', 'd.t', '\u00e9', 'data', '/x/data', '/data/x', 'data0', '/data/data']


def spell(p):
    """other spellings of the same path"""
    c = p.strip('/')
    if not c:
        return ['/', '']
    return [c, '/' + c, c + '/', '/' + c + '/']


def cases(tier):
    T = tier == 'thorough'
    for dk, modes in DK.items():
        for m in modes:
            for pi, p in enumerate(PATHS if T else ['/', '/a/b']):
                for li, lk in enumerate(LK):
                    if T or m == modes[0] or li % 5 == (len(m) + pi) % 5:
                        yield ('rt', dk, m, p, lk, (li + pi) % 3)
    for p in PATHS:
        for q in spell(p):
            for dk in ('str', 'h5_w', 'group', 'bio', 'subgroup', 'tuple', 'group:run/data'):
                for lk in ('str', 'h5_r', 'bio', 'group', 'dict', 'group_root'):
                    yield ('spell', dk, p, lk, q)
    for k in REJ_DUMP:
        for m in ('w', 'wb', 'a', 'x', 'r+', 'w+', 'r', 'rb'):
            for p in ('/', '/n', 'a'):
                yield ('rejd', k, m, p)
    for k in REJ_LOAD:
        for p in ('/', '/n', 'a'):
            yield ('rejl', k, p)
    for m in ['', 'q', 'z+', 'ww', 'wr', 'wt', 't', 'U', 'R', 'W', 'b', '+', 'aw', 1, None, 'r-', 'x-', 'a-']:
        for k in ('str', 'path', 'bio', 'file', 'tuple'):
            yield ('badmode', k, m)
    for fn in [1, 2.5, ['x'], ('x',), object, True]:
        for k in ('bio', 'file', 'min', 'tuple', 'dict'):
            for op in ('dump', 'load'):
                yield ('badname', op, k, fn)
    for dk in ('str', 'path', 'h5_w', 'group', 'bio', 'file_w+b', 'min', 'tuple', 'dict'):
        for fail in ('value', 'occupied', 'option', 'keyword'):
            yield ('failclose', dk, fail)


REJ_DUMP = ['h5_closed', 'group_closed', 'h5_ro', 'group_ro', 'file_closed', 'bio_closed', 'file_rb', 'file_wb', 'noseek', 'noread', 'nowrite', 'text', 'stringio', 'none', 'int', 'bytes', 'dir', 'missing_dir', 'file_is_text', 'tuple_closed', 'dict_closed', 'tuple_nowrite', 'dict_none', 'tuple_none', 'object', 'gzip_r', 'list_empty']
REJ_LOAD = ['h5_closed', 'group_closed', 'file_closed', 'bio_closed', 'file_wb', 'noseek', 'noread', 'text', 'stringio', 'none', 'int', 'bytes', 'dir', 'missing', 'missing_dir', 'file_is_text', 'empty_file', 'bio_empty', 'tuple_closed', 'dict_closed', 'tuple_none', 'dict_none', 'object', 'list_empty']


class Env(object):
    """scratch directory, every file of one case"""

    def __init__(self):
        self.d = tempfile.mkdtemp(dir=scratch())
        self.close = []
        self.cwd = os.getcwd()
        os.chdir(self.d)
        self.f = os.path.join(self.d, 'f.hkl')
        self.nonroot = False

    def done(self):
        for c in self.close[::-1]:
            try:
                c.close()
            except Exception:
                pass
        os.chdir(self.cwd)
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)

    def keep(self, x):
        self.close.append(x)
        return x


def open_files():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def open_fds(name):
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.path.realpath(os.readlink('/proc/self/fd/' + fd)) == os.path.realpath(name):
                n += 1
        except OSError:
            pass
    return n


def seed_file(name):
    with h5py.File(name, 'w') as f:
        f['zz/other'] = np.arange(3)


def dump_target(e, dk):
    """(target, kwargs, prefix of the path, live) : live() tells whether the caller's handle is usable"""
    kw = {}
    if dk == 'str':
        return e.f, kw, '', None
    if dk == 'path':
        return Path(e.f), kw, '', None
    if dk == 'str_rplus':
        h5py.File(e.f, 'w').close()
        return e.f, kw, '', None
    if dk == 'relstr':
        return 'f.hkl', kw, '', None
    if dk == 'unicode':
        n = os.path.join(e.d, 'f \u00e9 x.hkl')
        os.symlink(e.f, n)
        return n, kw, '', None
    if dk.startswith('h5_') or dk.startswith('group') or dk == 'subgroup':
        if dk in ('h5_a', 'h5_rplus') and e.nonroot:
            seed_file(e.f)
        h = {'h5_w': lambda: h5py.File(e.f, 'w'), 'h5_a': lambda: h5py.File(e.f, 'a'), 'h5_rplus': lambda: h5py.File(e.f, 'r+'), 'h5_x': lambda: h5py.File(e.f, 'x'), 'h5_core': lambda: h5py.File(e.f, 'w', driver='core'),
             'h5_latest': lambda: h5py.File(e.f, 'w', libver='latest'), 'h5_track': lambda: h5py.File(e.f, 'w', track_order=True), 'h5_user': lambda: h5py.File(e.f, 'w', userblock_size=512),
             'h5_fileobj': lambda: h5py.File(e.keep(open(e.f, 'w+b')), 'w')}.get(dk, lambda: h5py.File(e.f, 'w'))()
        e.keep(h)
        if dk == 'group':
            g = h.create_group('/gg')
        elif dk == 'group_track':
            g = h.create_group('/gg', track_order=True)
        elif dk.startswith('group:'):
            g = h.create_group(dk[6:])
        elif dk == 'subgroup':
            g = h.create_group('/gg/hh')
            h['/gg/other'] = 5
        else:
            g = h
        pre = '' if g is h else g.name

        def live():
            if not h or not g:
                return 'the handle passed by the caller was closed'
            n = 'probe%d' % len(h)
            h[n] = 1
            if h[n][()] != 1:
                return 'the handle is not usable any more'
            del h[n]
            h.flush()
        return g, kw, pre, live
    if dk == 'file_w+b':
        f = e.keep(open(e.f, 'w+b'))
    elif dk == 'file_r+b':
        h5py.File(e.f, 'w').close()
        f = e.keep(open(e.f, 'r+b'))
    elif dk == 'file_raw':
        f = e.keep(open(e.f, 'w+b', buffering=0))
    elif dk in ('bio_r+', 'bio_pos'):
        f = io.BytesIO()
        h5py.File(f, 'w').close()
        f.seek(5)
    elif dk == 'bio_dirty':
        f = io.BytesIO()
        import hickle
        hickle.dump({'old': np.arange(5000)}, f, mode='w', filename='x')
    elif dk == 'min':
        f = Min()
    elif dk == 'tmp':
        f = e.keep(tempfile.TemporaryFile(dir=e.d))
    elif dk == 'spool':
        f = e.keep(tempfile.SpooledTemporaryFile(max_size=10**7, dir=e.d))
    elif dk in ('tuple_file', 'dict_file'):
        f = e.keep(open(e.f, 'w+b'))
    else:
        f = io.BytesIO()
    e.obj = f

    def live():
        if getattr(f, 'closed', False):
            return 'the file object passed by the caller was closed'
        f.seek(0)
        f.read(1)
    t = {'tuple': (f, 'some name'), 'tuple_b': (f, b'some name'), 'tuple3': (f, 'n', 1), 'list': [f, 'n'], 'dict': {'file': f, 'name': 'n'}, 'tuple_file': (f, 'n'), 'dict_file': {'file': f, 'name': b'n'}}.get(dk, f)
    if dk == 'fn_str':
        kw = dict(filename='a name')
    if dk == 'fn_bytes':
        kw = dict(filename=b'a name')
    return t, kw, '', live


def settle(e):
    """make sure that the bytes are in the file e.f, as the caller would do"""
    obj = getattr(e, 'obj', None)
    for c in e.close[::-1]:
        if isinstance(c, h5py.File) and c:
            c.close()
    if obj is not None and not os.path.exists(e.f):
        obj.seek(0)
        with open(e.f, 'wb') as f:
            f.write(obj.read())
    for c in e.close[::-1]:
        c.close()
    e.close = []


def load_target(e, lk, path):
    """(target, path, kwargs, live)"""
    kw = {}
    if lk in ('str', 'path', 'relstr'):
        return {'str': e.f, 'path': Path(e.f), 'relstr': 'f.hkl'}[lk], path, kw, None
    if lk.startswith('h5_') or lk.startswith('group'):
        h = {'h5_r': lambda: h5py.File(e.f, 'r'), 'h5_rplus': lambda: h5py.File(e.f, 'r+'), 'h5_a': lambda: h5py.File(e.f, 'a'), 'h5_core': lambda: h5py.File(e.f, 'r', driver='core'), 'h5_fileobj': lambda: h5py.File(e.keep(open(e.f, 'rb')), 'r')}.get(lk, lambda: h5py.File(e.f, 'r'))()
        e.keep(h)
        g = h
        if lk == 'group_root':
            g = h['/']
        elif lk == 'group':
            p = path.strip('/')
            if p:
                head, _, tail = p.rpartition('/')
                g, path = h['/' + head], tail
            else:
                g = h['/']

        def live():
            if not h or not g:
                return 'the handle passed by the caller was closed'
            list(h), list(g)
        return g, path, kw, live
    data = open(e.f, 'rb').read()
    if lk == 'file_rb':
        f = e.keep(open(e.f, 'rb'))
    elif lk == 'file_r+b':
        f = e.keep(open(e.f, 'r+b'))
    elif lk in ('file_raw', 'tuple_file'):
        f = e.keep(open(e.f, 'rb', buffering=0))
    elif lk == 'file_mid':
        f = e.keep(open(e.f, 'rb'))
        f.seek(len(data) // 2)
    elif lk == 'min':
        f = Min(data)
    elif lk == 'minread':
        f = MinRead(data)
    else:
        f = io.BytesIO(data)
        if lk == 'bio_end':
            f.seek(0, 2)

    def live():
        if getattr(f, 'closed', False):
            return 'the file object passed by the caller was closed'
        f.seek(0)
        if f.read(len(data)) != data:
            return 'load modified the file'
    t = {'tuple': (f, 'n'), 'list': [f, 'n'], 'dict': {'file': f, 'name': 'n'}, 'tuple_file': (f, b'n')}.get(lk, f)
    if lk == 'fn_str':
        kw = dict(filename='nm')
    if lk == 'fn_bytes':
        kw = dict(filename=b'nm')
    return t, path, kw, live


def run_case(case):
    warnings.simplefilter('ignore')
    e = Env()
    try:
        n0 = open_files()
        d = globals()['do_' + case[0]](e, *case[1:])
        if d is None:
            e.done()
            if open_files() > n0:
                d = '%d file(s) left open' % (open_files() - n0)
        return Result(2, 'ok' if d is None else 'violation', d)
    finally:
        e.done()


def do_rt(e, dk, mode, path, lk, vi, lpath=None):
    import hickle
    v = VALUES[vi]()
    e.nonroot = bool(path.strip('/'))
    if not e.nonroot:
        h5py.File(e.f, 'w').close() if dk == 'h5_rplus' else None
    t, kw, pre, live = dump_target(e, dk)
    n0 = open_files()
    hickle.dump(v, t, mode=mode, path=path, **kw)
    d = live() if live else None
    if d:
        return 'dump: ' + d
    if open_files() != n0:
        return 'dump: number of open HDF5 files changed from %d to %d' % (n0, open_files())
    if live is None and open_fds(e.f):
        return 'dump: the file is still open'
    # the value is complete as soon as dump returns
    if pre == '' and live:
        d = diff(v, hickle.load(t, path=path, **kw), 'load through the same target')
        if d:
            return d
    settle(e)
    p = lpath if lpath is not None else path
    if pre:
        p = pre + ('/' + p.lstrip('/') if p.strip('/') else '')
    t, p, kw, live = load_target(e, lk, p)
    n0 = open_files()
    back = hickle.load(t, path=p, **kw)
    d = live() if live else None
    if d:
        return 'load: ' + d
    if open_files() != n0:
        return 'load: number of open HDF5 files changed from %d to %d' % (n0, open_files())
    if live is None and open_fds(e.f):
        return 'load: the file is still open'
    return diff(v, back)


def do_spell(e, dk, p, lk, q):
    return do_rt(e, dk, 'w', p, lk, 0, q)


def reject_target(e, k):
    """(target, function returning the bytes which must not change or None, kwargs)"""
    import hickle
    data = None
    hickle.dump([1, 'x'], e.f, path='/')
    hickle.dump([2, 'y'], e.f, path='/a', mode='a')
    whole = lambda: open(e.f, 'rb').read()
    if k in ('h5_closed', 'group_closed'):
        h = h5py.File(e.f, 'r+')
        g = h['/a']
        h.close()
        return (h if k == 'h5_closed' else g), whole
    if k in ('h5_ro', 'group_ro'):
        h = e.keep(h5py.File(e.f, 'r'))
        return (h if k == 'h5_ro' else h['/a']), whole
    if k in ('file_closed', 'tuple_closed', 'dict_closed'):
        f = open(e.f, 'r+b')
        f.close()
        return {'file_closed': f, 'tuple_closed': (f, 'n'), 'dict_closed': {'file': f, 'name': 'n'}}[k], whole
    if k == 'bio_closed':
        f = io.BytesIO(whole())
        f.close()
        return f, whole
    if k == 'file_rb':
        return e.keep(open(e.f, 'rb')), whole
    if k == 'file_wb':
        n = os.path.join(e.d, 'w')
        return e.keep(open(n, 'wb')), lambda: open(n, 'rb').read()
    if k == 'noseek':
        f = NoSeek(whole())
        return f, lambda: f.touched
    if k == 'noread':
        f = NoRead()
        return f, lambda: f.touched
    if k in ('nowrite', 'tuple_nowrite'):
        f = NoWrite(whole())
        return (f if k == 'nowrite' else (f, 'n')), lambda: f._b.getvalue()
    if k == 'text':
        return e.keep(open(e.f, 'r', encoding='latin1')), whole
    if k == 'stringio':
        f = io.StringIO('abc')
        return f, f.getvalue
    if k == 'gzip_r':
        import gzip
        n = os.path.join(e.d, 'z.gz')
        with gzip.open(n, 'wb') as z:
            z.write(b'x')
        return e.keep(gzip.open(n, 'rb')), lambda: open(n, 'rb').read()
    if k == 'bytes':
        return e.f.encode(), whole
    if k == 'dir':
        return e.d, lambda: sorted(os.listdir(e.d))
    if k == 'missing':
        return os.path.join(e.d, 'nope.hkl'), lambda: sorted(os.listdir(e.d))
    if k == 'missing_dir':
        return os.path.join(e.d, 'nope', 'f.hkl'), lambda: sorted(os.listdir(e.d))
    if k in ('file_is_text', 'empty_file'):
        n = os.path.join(e.d, 'text')
        with open(n, 'w') as f:
            f.write('this is no HDF5 file\n' * 60 if k == 'file_is_text' else '')
        return n, lambda: open(n, 'rb').read()
    if k == 'bio_empty':
        f = io.BytesIO()
        return f, f.getvalue
    return {'none': None, 'int': 5, 'dict_none': {'file': None, 'name': 'n'}, 'tuple_none': (None, 'n'), 'object': object(), 'list_empty': []}[k], whole


def do_rejd(e, k, mode, path):
    import hickle
    t, content = reject_target(e, k)
    if k == 'file_is_text' and mode in ('w', 'wb', 'w+'):
        return None        # replacing the file is what has been asked for
    before, n0 = content(), open_files()
    try:
        hickle.dump([3, 'z'], t, mode=mode, path=path)
    except Exception as ex:
        pass
    else:
        return 'dump to %s with mode %s accepted' % (k, mode)
    if content() != before:
        return 'refused dump to %s with mode %s modified the target' % (k, mode)
    if open_files() != n0:
        return 'refused dump left a file open'
    d = diff([1, 'x'], hickle.load(e.f)) or diff([2, 'y'], hickle.load(e.f, path='/a'))
    return d and 'after the refused dump: ' + d


def do_rejl(e, k, path):
    import hickle
    t, content = reject_target(e, k)
    before, n0 = content(), open_files()
    try:
        hickle.load(t, path=path)
    except Exception as ex:
        pass
    else:
        return 'load from %s accepted' % k
    if content() != before:
        return 'refused load from %s modified the target' % k
    if open_files() != n0:
        return 'refused load left a file open'
    return diff([1, 'x'], hickle.load(e.f)) or diff([2, 'y'], hickle.load(e.f, path='/a'))


def do_badmode(e, k, mode):
    import hickle
    hickle.dump([1, 'x'], e.f)
    data = open(e.f, 'rb').read()
    t = {'str': e.f, 'path': Path(e.f), 'file': None, 'bio': io.BytesIO(data), 'tuple': None}[k]
    if k == 'file':
        t = e.keep(open(e.f, 'r+b'))
    if k == 'tuple':
        t = (io.BytesIO(data), 'n')
    n0 = open_files()
    try:
        hickle.dump([2, 'y'], t, mode=mode)
    except Exception:
        pass
    else:
        if isinstance(mode, str) and k not in ('str', 'path') and mode[:1] in ('w', 'x', 'a', 'r'):
            return None    # documented: only the first letter counts for file objects
        return 'mode %r accepted' % (mode,)
    if open_files() != n0:
        return 'file left open'
    now = open(e.f, 'rb').read() if k in ('str', 'path', 'file') else (t if k == 'bio' else t[0]).getvalue()
    if now != data:
        return 'refused mode %r but modified the file' % (mode,)


def do_badname(e, op, k, fn):
    import hickle
    hickle.dump([1, 'x'], e.f)
    data = open(e.f, 'rb').read()
    f = {'bio': lambda: io.BytesIO(data), 'file': lambda: e.keep(open(e.f, 'r+b')), 'min': lambda: Min(data), 'tuple': lambda: (io.BytesIO(data), 'n'), 'dict': lambda: {'file': io.BytesIO(data), 'name': 'n'}}[k]()
    try:
        if op == 'dump':
            hickle.dump([2, 'y'], f, filename=fn)
        else:
            hickle.load(f, filename=fn)
    except Exception:
        pass
    else:
        return 'filename %r accepted' % (fn,)
    raw = f[0] if k == 'tuple' else f['file'] if k == 'dict' else f
    raw.seek(0)
    if raw.read(len(data) + 1) != data:
        return 'refused but modified'
    return diff([1, 'x'], hickle.load(e.f))


class Bad(object):
    def __reduce__(self):
        raise ValueError('no')


def do_failclose(e, dk, fail):
    import hickle
    t, kw, pre, live = dump_target(e, dk)
    n0 = open_files()
    mode = 'w'
    if fail == 'occupied':
        hickle.dump([1, 'x'], t, mode='w', **kw)
        mode = 'a'
    try:
        if fail == 'value':
            hickle.dump([1, Bad(), 2], t, mode=mode, **kw)
        elif fail == 'occupied':
            hickle.dump([2], t, mode=mode, **kw)
        elif fail == 'option':
            hickle.dump([2], t, mode=mode, options={'bogus': True}, **kw)
        else:
            hickle.dump([np.arange(3), 'x'], t, mode=mode, no_such_keyword=1, **kw)
    except Exception as ex:
        err = ex
    else:
        return 'expected an error'
    if live:
        d = live()
        if d:
            return d
    elif open_fds(e.f):
        return 'file still open after the error'
    if open_files() != n0:
        return 'HDF5 file left open after the error'
    del err
    v = {'again': [1, 'z']}
    if pre == '' and not isinstance(t, (h5py.Group,)):
        hickle.dump(v, t, mode='w', **kw)
        return diff(v, hickle.load(t, **kw))
    hickle.dump(v, t, mode='w', path='elsewhere', **kw)
    return diff(v, hickle.load(t, path='elsewhere', **kw))


CHECK = Check('C10', cases, run_case, level='model_checking',
              rule='product of all kinds of dump target, modes, path spellings and kinds of load target; product of unusable targets, modes and paths; after each operation state of handles, number of open files, bytes of refused targets',
              bound='%d dump targets with their modes x %d load targets x 2 paths (thorough: 14 paths); %d+%d unusable targets x 8 modes x 3 paths; 18 bad modes; 6 bad file names; 4 kinds of failure' % (len(DK), len(LK), len(REJ_DUMP), len(REJ_LOAD)),
              assumptions=['for file objects only the first letter of the mode counts, as documented in the code'])
if __name__ == '__main__':
    run(CHECK)
