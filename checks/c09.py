"""C09: a file is a dictionary from paths to values"""
import os, sys, io, itertools, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, scratch
from mc.eqv import diff
from mc import zoo
import numpy as np
import h5py


class Bad(object):
    """can not be serialized"""

    def __reduce__(self):
        raise ValueError('refuses to be stored')


def value(step, salt=0):
    """distinct values using overlapping sets of types"""
    a = np.arange(4) + 10 * step + salt
    return [
        lambda: {'s': step, 'a': a, 'l': [a, 'text%d' % step]},
        lambda: [np.float32(step), (1, 'x%d' % step), {step: None}, zoo.Point(step, salt)],
        lambda: 'value %d' % step,
        lambda: [a, {'k/%d' % step: a}, zoo.Plain(v=step)],
        lambda: {1: {2: [3, {'t': 'u%d' % step}]}, 'm': np.ma.array(a, mask=a > 12)},
        lambda: step + 7][(step + salt) % 6]()


P4 = ['/', '/a', '/b/c', '/b']
P3 = ['/a', '/b', '/a/d']


NAMES = ['/', '/a', '/A', '/a/b', '/a/b/c', '/a/b/c/d/e', '/a/B', '/ab', 'rel', 'rel/x', '/trail/', '/trail/er/', '/a b', ' /a', '/a ', '/\u00e9', '/e\u0301', '/1', '/01', '/data1', '/.a', '/a.b', '/"a"', "/b'a'",
         '/a\\b', '/%s', '/{}', '/*', '/a,b', '/' + 'long' * 70, '/x/' * 12 + 'y', '/HICKLE_VERSION', '/types', '/\U0001f600', '/a:b', '/~', '/-']


def canon(p):
    return '/' + '/'.join(q for q in p.split('/') if q)


def names(case):
    _, kind, a, b = case
    f = File(kind)
    try:
        n, model, spell = 0, {}, {}
        ps = [NAMES[a]] + ([NAMES[b]] if b is not None else [])
        for i, p in enumerate(ps):
            c = canon(p)
            n += 1
            inner = [q for q in model if below(q, c)]
            try:
                f.dump(value(i), p, 'a')
            except Exception as e:
                if not inner:
                    return Result(n, 'violation', 'dump to %r after %r raised %s: %s' % (p, ps[:i], type(e).__name__, str(e)[:200]))
                continue
            if c in model:
                return Result(n, 'violation', 'dump to %r after %r should have been refused' % (p, ps[:i]))
            model[c] = value(i)
            spell[c] = p
        for again in (False, True):
            for c in model:
                # with slashes at either end or not
                for q in {c, spell[c], c.lstrip('/'), c + '/', '/' + c.strip('/')} - {''}:
                    n += 1
                    try:
                        d = diff(model[c], f.load(q), 'path %r after %r' % (q, ps))
                    except Exception as e:
                        d = 'path %r after %r: load raised %s: %s' % (q, ps, type(e).__name__, str(e)[:200])
                    if d:
                        return Result(n, 'violation', d)
                if not again:
                    n += 1
                    try:
                        f.dump(value(5), spell[c], 'a')
                    except Exception:
                        continue
                    return Result(n, 'violation', 'second dump to %r after %r should have been refused' % (c, ps))
        # nothing anywhere else
        for q in NAMES:
            if canon(q) not in model:
                n += 1
                try:
                    back = f.load(q)
                except Exception:
                    continue
                return Result(n, 'violation', 'path %r after %r: nothing was dumped there, load returned %r' % (q, ps, back))
        return Result(n, 'ok', None, [(kind, a, b)])
    finally:
        f.close()


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alpha, repeat=n)


def cases(tier):
    T = tier == 'thorough'
    # every operation through the file name
    alpha = [('D', p, m) for p in P4 for m in 'war'] + [('D', '/', 'x'), ('D', '/a', 'x')] + [('F', p, 'a') for p in ('/', '/a', '/b')]
    for w in words(alpha, 1, 3):
        yield ('name', w)
    if T:
        for w in words([o for o in alpha if o[2] == 'a' or o[1] == '/a'], 4, 4):
            yield ('name', w)
    # through one open file
    beta = [('D', p, 'w') for p in P3 + ['/']] + [('F', p, 'w') for p in ('/a', '/b')] + [('X', p) for p in ('/a', '/b')] + [('Z',)]
    for w in words(beta, 1, 5 if T else 4):
        if T or len(w) < 4 or ('Z',) not in w[:1] and w[0][0] == 'D':
            yield ('handle', w)
    # through group handles and file objects
    gam = [('D', p, 'a') for p in P3] + [('F', '/a', 'a'), ('R', '/a', 'a')]
    for k in ('group', 'fileobj', 'mixed'):
        for w in words(gam, 1, 4 if T else 3):
            yield (k, w)
    # order and number of loads: all load words over the stored paths
    for k in ('name', 'handle', 'fileobj'):
        for w in itertools.product(range(4), repeat=5 if T else 4):
            yield ('loads', k, w)
    # names of paths: all ordered pairs
    for a, b in itertools.permutations(range(len(NAMES)), 2):
        for k in ('name', 'handle', 'fileobj', 'group') if T else (('name', 'handle', 'group', 'fileobj')[(a + b) % 4], 'handle')[:1 + (a < 8 or b < 8)]:
            yield ('names', k, a, b)
    for a in range(len(NAMES)):
        for k in ('name', 'handle', 'fileobj', 'group'):
            yield ('names', k, a, None)
    # many values, nested groups
    for n in (2, 5, 11, 25):
        for k in ('name', 'handle'):
            yield ('many', k, n)


class File(object):
    """one real file under different ways of access"""

    def __init__(self, kind):
        self.kind, self.n = kind, 0
        self.fname = os.path.join(scratch(), 'c09.h5')
        if os.path.exists(self.fname):
            os.unlink(self.fname)
        self.h = self.bio = None
        if kind in ('handle', 'group'):
            self.h = h5py.File(self.fname, 'w')
        if kind == 'fileobj':
            self.bio = io.BytesIO()
            h5py.File(self.bio, 'w').close()
        if kind == 'mixed':
            h5py.File(self.fname, 'w').close()

    def target(self, path):
        if self.kind == 'name':
            return self.fname, path
        if self.kind == 'handle':
            return self.h, path
        if self.kind == 'group':
            head, _, tail = path.rpartition('/')
            return (self.h[head], tail) if head and head in self.h and isinstance(self.h[head], h5py.Group) else (self.h['/'], path)
        if self.kind == 'fileobj':
            return self.bio, path
        self.n += 1
        if self.n % 3 == 0:
            from pathlib import Path
            return Path(self.fname), path
        return self.fname, path

    def dump(self, v, path, mode):
        import hickle
        t, p = self.target(path)
        if self.kind == 'mixed' and self.n % 2:
            with open(self.fname, 'r+b') as f:
                return hickle.dump(v, f, mode=mode, path=p)
        hickle.dump(v, t, mode=mode, path=p)

    def load(self, path):
        import hickle
        t, p = self.target(path)
        return hickle.load(t, path=p)

    def close(self):
        if self.h is not None:
            self.h.close()
        if os.path.exists(self.fname):
            os.unlink(self.fname)


ALLP = ['/', '/a', '/a/d', '/b', '/b/c', '/nothing']


def check(f, model, ops, exists=True):
    for p in ALLP:
        ops[0] += 1
        try:
            back = f.load(p)
        except Exception as e:
            if p in model:
                return 'path %s: load raised %s: %s' % (p, type(e).__name__, str(e)[:300])
            continue
        if p not in model:
            return 'path %s: nothing was dumped there, load returned %r' % (p, back)
        d = diff(model[p], back, 'path %s' % p)
        if d:
            return d


def below(q, p):
    """q is stored inside of p"""
    return q == p or q.startswith(p.rstrip('/') + '/')


def run_case(case):
    warnings.simplefilter('ignore')
    if case[0] == 'loads':
        return loads(case)
    if case[0] == 'names':
        return names(case)
    if case[0] == 'many':
        return many(case)
    kind, word = case
    f = File(kind)
    ops = [0]
    try:
        model, remains, exists, states = {}, set(), kind != 'name', []
        for step, op in enumerate(word):
            ops[0] += 1
            where = 'step %d %r: ' % (step, op)
            if op[0] == 'Z':
                # close and open again
                f.h.close()
                f.h = h5py.File(f.fname, 'r+')
            elif op[0] == 'X':
                if op[1] in f.h:
                    del f.h[op[1]]
                    for m in (model, remains):
                        for q in [q for q in m if below(q, op[1])]:
                            m.pop(q) if m is model else m.discard(q)
            else:
                p, mode = op[1], op[2]
                v = value(step) if op[0] != 'F' else [value(step), Bad(), 'tail']
                if kind == 'name' and mode == 'w':
                    model, remains, must = {}, set(), 'ok'
                elif kind == 'name' and mode == 'x':
                    must = 'error' if exists else 'ok'
                elif kind == 'name' and mode == 'r':
                    must = 'error'
                else:
                    occ = p in model
                    inner = [q for q in list(model) + list(remains) if below(q, p)]
                    must = 'error' if occ else 'either' if inner else 'ok'
                    if op[0] == 'R':
                        must = 'error'
                if op[0] == 'F':
                    must = 'error'
                try:
                    # mode r denotes r+ without creating the file
                    if op[0] == 'R':
                        f.dump(v, p, 'r')
                    else:
                        f.dump(v, p, 'r+' if mode == 'r' and exists else mode)
                    done = True
                except Exception as e:
                    done, err = False, e
                if kind == 'name' and mode == 'r' and exists:
                    occ = p in model
                    inner = [q for q in list(model) + list(remains) if below(q, p)]
                    must = 'error' if occ or op[0] == 'F' else 'either' if inner else 'ok'
                if op[0] == 'R' and kind in ('group', 'handle') and done:
                    # mode is ignored for handles opened by the caller
                    must = 'either'
                if done and must == 'error':
                    return Result(ops[0], 'violation', where + 'should have been refused')
                if not done and must == 'ok':
                    return Result(ops[0], 'violation', where + 'raised %s: %s' % (type(err).__name__, str(err)[:300]))
                if done:
                    model[p] = v
                    remains.discard(p)
                elif op[0] == 'F' and p not in model:
                    remains.add(p)
                exists = exists or done or os.path.exists(f.fname)
            states.append((kind, tuple(sorted((p, repr(v)[:40]) for p, v in model.items())), tuple(sorted(remains))))
            if exists:
                d = check(f, model, ops)
                if d:
                    return Result(ops[0], 'violation', where + d)
        return Result(ops[0], 'ok', None, states)
    finally:
        f.close()


def loads(case):
    _, kind, word = case
    f = File(kind)
    try:
        model = {}
        for i, p in enumerate(['/', '/a', '/b', '/a/d']):
            model[p] = value(i)
            f.dump(model[p], p, 'a')
        names = list(model)
        for w in word:
            d = diff(model[names[w]], f.load(names[w]), 'load %s in order %r' % (names[w], word))
            if d:
                return Result(8, 'violation', d)
        return Result(4 + len(word))
    finally:
        f.close()


def many(case):
    _, kind, n = case
    f = File(kind)
    try:
        model = {}
        for i in range(n):
            p = '/g%d/x%d' % (i % 3, i)
            model[p] = value(i)
            f.dump(model[p], p, 'a')
        for p in list(model)[::-1] + list(model):
            d = diff(model[p], f.load(p), p)
            if d:
                return Result(3 * n, 'violation', d)
        for p in list(model):
            try:
                f.dump(1, p, 'a')
            except Exception:
                continue
            return Result(3 * n, 'violation', 'second dump to %s accepted' % p)
        for p in model:
            d = diff(model[p], f.load(p), p)
            if d:
                return Result(3 * n, 'violation', d)
        return Result(5 * n)
    finally:
        f.close()


CHECK = Check('C09', cases, run_case, level='model_checking',
              rule='all operation words over dump/failing dump/delete/reopen on several paths, modes and kinds of access; after every step every path is loaded and compared with a dictionary model of the file',
              bound='all ordered pairs of 37 path spellings; depth 3 over 17 operations by file name, depth 4 over 9 operations on an open file, depth 3 over groups, file objects and mixed access; all load orders of length 4 over 4 values; up to 25 values per file',
              assumptions=['dumping to a path which contains other dumped values may be refused or accepted, dumping into the nodes of another value (path/data/...) is not part of the domain'])
if __name__ == '__main__':
    run(CHECK)
