"""C13: unusable files are refused"""
import os, sys, io, itertools, warnings, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch
from mc.eqv import diff
from mc import zoo, eqv
from mc.rt import dump_bytes
import numpy as np
import h5py
import scipy.sparse as sp
import importlib.util


def load_mod(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


c11 = load_mod('c11')
VAL = dict(c11.VAL)
VAL['deep'] = lambda: [['a', [np.arange(3), {'k': (1, 'x')}]], zoo.Plain(a=[1]), {5: np.float32(2)}]
VAL['refs'] = lambda: (lambda a, b: [a, b, a, [b, a], {'k': a, 'l': b}])(['shared'], 'shared text')
VAL['astro'] = None
del VAL['astro']
NAMES = sorted(VAL)
TRUNC = ['scalar', 'text', 'arr', 'mixed', 'dic', 'plain', 'refs', 'masked']
ACCESS = ['bio', 'str', 'h5_r', 'h5_rplus', 'file']


def cases(tier):
    T = tier == 'thorough'
    # every length of the file
    for n in (NAMES if T else TRUNC):
        for k in range(0, 64):
            yield ('trunc', n, k, 64, 'bio')
        for k in range(8):
            yield ('trunc', n, k, 8 if T else 160, 'str')
    # removal of each piece of type information, reference and mark
    for n in NAMES:
        for where in ('/', '/sub/path'):
            for acc in (ACCESS if T or n in ('dic', 'refs', 'deep', 'plain') else ['bio', 'h5_rplus']):
                yield ('strip', n, where, acc)
    # files made by others
    for k in range(len(FOREIGN)):
        for p in ('/', '/a', '/data', '/x/y'):
            for acc in ACCESS:
                yield ('foreign', k, p, acc)
    # damaged version marks
    for n in ('dic', 'arr'):
        for k in range(len(MARKS)):
            for where in ('/', '/sub/path'):
                for acc in ACCESS:
                    yield ('mark', n, k, where, acc)


def f_empty(f):
    pass


def f_plain(f):
    f['a'] = np.arange(5)
    f['data'] = np.arange(3)
    f['x/y'] = 1


def f_groups(f):
    for n in ('a', 'data', 'x/y'):
        g = f.create_group(n)
        g['data'] = [1, 2]
        g.attrs['type'] = 'list'


def f_attrs(f):
    f['data'] = [1, 2]
    f.attrs['VERSION'] = '1'
    f.attrs['HICKLE'] = 'x'
    f.attrs['HICKLE_PYTHON_VERSION'] = '3.8'
    f.create_group('hickle_types_table')


def f_keras(f):
    f.attrs['backend'] = 'tensorflow'
    f.create_group('a')['kernel:0'] = np.zeros((2, 2))
    f['data'] = h5py.Empty('f8')
    f['x/y'] = 'text'


def f_softlink(f):
    f['a'] = h5py.SoftLink('/nowhere')
    f['data'] = h5py.ExternalLink('missing.h5', '/x')
    f['x/y'] = h5py.SoftLink('/a')


def f_class(f):
    f.attrs['CLASS'] = 'other'
    f.attrs['VERSION'] = '3.0'
    f.attrs['PYTHON_VERSION'] = '3.6'
    f['data'] = [1]
    f['a'] = 1


def f_class4(f):
    f.attrs['CLASS'] = 'hickle'
    f.attrs['VERSION'] = '9.0'
    f.attrs['PYTHON_VERSION'] = '3.6'
    f['data'] = [1]
    f['a'] = 1


def f_versiononly(f):
    f.attrs['HICKLE_VERSION'] = '5.0.0'
    f['data'] = [1]


def f_nodata(f):
    for n in ('/', 'a', 'x/y'):
        g = f.require_group(n)
        g.attrs['HICKLE_VERSION'] = '5.0.0'
        g.attrs['HICKLE_PYTHON_VERSION'] = '3.8'
        g.create_group('hickle_types_table')


FOREIGN = [f_empty, f_plain, f_groups, f_attrs, f_keras, f_softlink, f_class, f_class4, f_versiononly, f_nodata]
MARKS = [lambda a: a.pop('HICKLE_VERSION'), lambda a: a.pop('HICKLE_PYTHON_VERSION'), lambda a: (a.pop('HICKLE_VERSION'), a.pop('HICKLE_PYTHON_VERSION')), lambda a: a.__setitem__('HICKLE_VERSION', ''), lambda a: a.__setitem__('HICKLE_VERSION', 'abc'),
         lambda a: a.__setitem__('HICKLE_VERSION', 0), lambda a: a.__setitem__('HICKLE_VERSION', 'x.5'), lambda a: a.__setitem__('HICKLE_PYTHON_VERSION', ''), lambda a: (a.pop('HICKLE_VERSION'), a.__setitem__('VERSION', '5.0.0'))]


def nfiles():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def attempt(data, path, acc):
    """(value or None, error or None, complaint or None)"""
    import hickle
    fname = os.path.join(scratch(), 'c13.h5')
    h = f = None
    n0 = nfiles()
    if acc != 'bio':
        with open(fname, 'wb') as o:
            o.write(data)
    try:
        if acc == 'bio':
            t = io.BytesIO(data)
        elif acc == 'str':
            t = fname
        elif acc == 'file':
            t = f = open(fname, 'r+b')
        else:
            try:
                t = h = h5py.File(fname, 'r' if acc == 'h5_r' else 'r+')
                h.flush()
            except OSError as e:
                return None, e, None
            data = open(fname, 'rb').read()
        n1 = nfiles()
        val = err = None
        try:
            val = hickle.load(t, path=path)
        except Exception as e:
            err = e
        keep = err
        bad = None
        if nfiles() != n1:
            bad = 'file kept open'
        if h is not None and not h:
            bad = "the caller's handle was closed"
        if h is not None:
            h.flush()
        now = t.getvalue() if acc == 'bio' else open(fname, 'rb').read()
        if now != data and bad is None:
            bad = 'load modified the file'
        return val, err, bad
    finally:
        for x in (h, f):
            if x is not None:
                x.close()


def do_trunc(n, k, step, acc):
    data = dump_bytes(VAL[n]())
    cnt = 0
    for size in range(k, len(data), step):
        val, err, bad = attempt(data[:size], '/', acc)
        cnt += 1
        if bad:
            return Result(cnt, 'violation', 'truncated to %d of %d bytes: %s' % (size, len(data), bad))
        if err is None:
            return Result(cnt, 'violation', 'file truncated to %d of %d bytes loads as %r' % (size, len(data), val))
    return Result(cnt, 'ok', None, [(n, s) for s in range(k, len(data), step)])


def dump_at(v, where):
    import hickle
    b = io.BytesIO()
    hickle.dump(v, b, mode='w', path=where, filename='x')
    return b.getvalue()


def removals(f, where):
    """all single removals of type information, references and marks: (description, function(file))"""
    out = []
    root = f[where]
    nodes = []
    root.visititems(lambda name, o: nodes.append((name, o)) and None)
    table = where.rstrip('/') + '/hickle_types_table'
    ref_targets = set()
    for name, o in nodes:
        p = o.name
        for a in list(o.attrs):
            if a in ('type', 'base_type'):
                out.append(('remove attribute %s of %s' % (a, p), lambda g, p=p, a=a: g[p].attrs.__delitem__(a)))
                out.append(('null reference in attribute %s of %s' % (a, p), lambda g, p=p, a=a: null(g[p].attrs, a)))
        if isinstance(o, h5py.Dataset) and o.dtype.metadata and issubclass(o.dtype.metadata.get('ref', object), h5py.Reference):
            out.append(('null reference in %s' % p, lambda g, p=p: g[p].__setitem__((), h5py.Reference())))
            ref_targets.add(f[o[()]].name)
        if p.startswith(table + '/'):
            out.append(('remove table entry %s' % p, lambda g, p=p: g.__delitem__(p)))
    for p in ref_targets:
        out.append(('remove %s which is referred to' % p, lambda g, p=p: g.__delitem__(p)))
    out.append(('remove types table', lambda g: g.__delitem__(table)))
    out.append(('replace types table', lambda g: (g.__delitem__(table), g.__setitem__(table, np.arange(3)))))
    out.append(('empty types table', lambda g: (g.__delitem__(table), g.create_group(table))))
    out.append(('remove data', lambda g: g.__delitem__(where.rstrip('/') + '/data')))
    for a in ('HICKLE_VERSION', 'HICKLE_PYTHON_VERSION'):
        out.append(('remove %s' % a, lambda g, a=a: g[where].attrs.__delitem__(a)))
    return out


def null(attrs, a):
    del attrs[a]
    attrs.create(a, h5py.Reference(), dtype=h5py.ref_dtype)


def do_strip(n, where, acc):
    v = VAL[n]
    data = dump_at(v(), where)
    with h5py.File(io.BytesIO(data), 'r') as f:
        todo = [d for d, _ in removals(f, where)]
    cnt, states = 0, []
    for i, what in enumerate(todo):
        b = io.BytesIO(data)
        with h5py.File(b, 'r+') as f:
            removals(f, where)[i][1](f)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            val, err, bad = attempt(b.getvalue(), where, acc)
        announced = any('DataRecovered' in w.category.__name__ for w in ws)
        cnt += 1
        states.append((n, where, what))
        if bad:
            return Result(cnt, 'violation', '%s: %s' % (what, bad))
        if err is None:
            d = diff(v(), val)
            # an announced recovery (see C16) does not pass for the stored value
            if d and not (announced and 'base_type' in what):
                return Result(cnt, 'violation', '%s: no error but %s' % (what, d))
    return Result(cnt, 'ok', None, states)


def do_foreign(k, p, acc):
    b = io.BytesIO()
    with h5py.File(b, 'w') as f:
        FOREIGN[k](f)
    val, err, bad = attempt(b.getvalue(), p, acc)
    if bad:
        return Result(1, 'violation', '%s: %s' % (FOREIGN[k].__name__, bad))
    if err is None:
        return Result(1, 'violation', '%s loads as %r' % (FOREIGN[k].__name__, val))
    return Result(1)


def do_mark(n, k, where, acc):
    b = io.BytesIO(dump_at(VAL[n](), where))
    with h5py.File(b, 'r+') as f:
        MARKS[k](f[where].attrs)
    val, err, bad = attempt(b.getvalue(), where, acc)
    if bad:
        return Result(1, 'violation', bad)
    if err is None:
        return Result(1, 'violation', 'file with damaged version mark loads as %r' % (val,))
    return Result(1)


def run_case(case):
    warnings.simplefilter('ignore')
    return globals()['do_' + case[0]](*case[1:])


CHECK = Check('C13', cases, run_case, level='fault_enumeration',
              rule='every truncation length of the files of several values; every single removal (or null) of a type attribute, type table entry, object reference, referred object, version mark; HDF5 files of others; the call has to raise (removals: or return the stored value), leave the bytes unchanged and nothing open',
              bound='%d (thorough: %d) values x every length; %d values x 2 locations x all removals x 2..5 kinds of access; %d foreign files x 4 paths x 5 kinds of access; %d damaged marks' % (len(TRUNC), len(NAMES), len(NAMES), len(FOREIGN), len(MARKS)),
              assumptions=['damage to the stored data itself is not detectable without checksums and not part of the property'])
if __name__ == '__main__':
    run(CHECK)
