"""C18: threads working at the same time"""
import os, sys, itertools, io, gc, pickle, shutil, warnings, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result, Viol, REPO
from mc import eqv, zoo, values, legacy
from mc.eqv import diff
from mc.sched import Sched, Deadlock, import_with_coop_locks
from mc.proc import in_child
import numpy as np
import h5py
import scipy.sparse as sp
import astropy.units as u, astropy.time, astropy.table, astropy.coordinates, astropy.constants
import dill
import_with_coop_locks(lambda: __import__('hickle'))

PREFIX = os.path.join(os.path.realpath(REPO), 'hickle') + os.sep
PREFIX2 = os.path.join(REPO, 'hickle') + os.sep


def inside(fn):
    return fn.startswith(PREFIX) or fn.startswith(PREFIX2)


def shared():
    l = [1, 'x']
    return {'p': l, 'q': (l, l)}


VALUES = dict(
    one=lambda: 5, arr=lambda: np.arange(3.), mixed=lambda: [1, 'a', {'k': (2, 'x')}], obj=lambda: np.array([1, 'x'], object), txt=lambda: np.array(['a', 'bc']), masked=lambda: np.ma.array([1, 2], mask=[0, 1]), csr=lambda: sp.csr_matrix(np.eye(2)), bsr=lambda: sp.bsr_matrix(np.eye(2)),
    quant=lambda: 2.5 * u.m, time=lambda: astropy.time.Time(51000., format='mjd'), plain=lambda: zoo.Plain(a=1), point=lambda: [zoo.Point(1, 'x')], shared=shared, npsc=lambda: np.float32(1.5), coo=lambda: sp.coo_matrix(np.eye(2)))
# (operation, value).  D: dump to own file, L: load from own file, 3/4: load from a file of version 3 / 4.0
OPS = [(o, v) for o in 'DL' for v in VALUES] + [('3', 'mixed'), ('3', 'arr'), ('4', 'mixed'), ('4', 'csr'), ('4', 'obj0')]


def value(v):
    return np.array({'a': 1}, object) if v == 'obj0' else VALUES[v]()


def scenarios(T):
    """pairs of operations; each in a process in which nothing has been used yet"""
    out = []
    for v in VALUES:
        if T or v in ('arr', 'csr', 'plain'):
            out += [('fresh', (('D', v), ('D', v))), ('fresh', (('D', v), ('L', v))), ('fresh', (('L', v), ('L', v)))]
        elif v in ('mixed', 'obj', 'quant', 'shared'):
            out += [('fresh', (('D', v), ('L', v)))]
        else:
            out += [('fresh', (('D', v), ('D', v)))]
    other = [(('D', 'csr'), ('D', 'quant')), (('D', 'csr'), ('L', 'bsr')), (('D', 'arr'), ('L', 'mixed')), (('L', 'obj'), ('D', 'plain')), (('L', 'quant'), ('D', 'time')), (('D', 'point'), ('L', 'plain')), (('D', 'shared'), ('D', 'mixed')),
             (('3', 'mixed'), ('L', 'mixed')), (('3', 'mixed'), ('3', 'arr')), (('4', 'mixed'), ('L', 'mixed')), (('4', 'csr'), ('D', 'csr')), (('4', 'obj0'), ('D', 'obj')), (('4', 'csr'), ('3', 'arr')), (('4', 'mixed'), ('4', 'mixed')), (('4', 'mixed'), ('4', 'obj0'))]
    out += [('fresh', p) for p in other]
    for p in [(('D', 'mixed'), ('D', 'mixed')), (('L', 'shared'), ('D', 'shared')), (('L', 'csr'), ('D', 'csr'))]:
        out.append(('warm', p))
    # file like objects, open files, files which differ in the extension only
    for m, p in [('mem', (('4', 'mixed'), ('4', 'mixed'))), ('hnd', (('4', 'mixed'), ('4', 'arr'))), ('stem', (('4', 'mixed'), ('4', 'mixed'))), ('mem', (('D', 'mixed'), ('L', 'shared'))), ('hnd', (('D', 'shared'), ('L', 'mixed'))), ('mem', (('3', 'mixed'), ('3', 'mixed'))), ('hnd', (('3', 'mixed'), ('4', 'mixed'))), ('stem', (('L', 'plain'), ('L', 'plain')))]:
        out.append((m, p))
    # the same open file
    for p in [(('d', 'mixed'), ('d', 'shared')), (('d', 'mixed'), ('l', 'shared')), (('l', 'mixed'), ('l', 'shared')), (('d', 'plain'), ('l', 'plain')), (('l', 'plain'), ('l', 'csr')), (('d', 'csr'), ('d', 'arr')), (('d', 'mixed'), ('e', 'mixed')), (('l', 'mixed'), ('k', 'mixed'))]:
        out.append(('same', p))
    if T:
        for a, b in itertools.combinations(OPS, 2):
            if ('fresh', (a, b)) not in out:
                out.append(('fresh', (a, b)))
    return out


BOUND2_QUICK = [('warm', (('D', 'one'), ('L', 'one'))), ('same', (('d', 'one'), ('l', 'one'))), ('fresh', (('D', 'npsc'), ('D', 'npsc')))]
BOUND2 = [('warm', (('D', 'one'), ('D', 'one'))), ('warm', (('L', 'one'), ('L', 'one'))), ('same', (('d', 'one'), ('l', 'one'))), ('same', (('l', 'one'), ('l', 'one'))), ('fresh', (('D', 'npsc'), ('D', 'npsc'))), ('fresh', (('D', 'csr'), ('L', 'csr'))), ('fresh', (('D', 'plain'), ('D', 'plain')))]
NEAR = 5  # lines
CORE = [('fresh', (('D', 'csr'), ('D', 'csr'))), ('fresh', (('D', 'arr'), ('L', 'arr'))), ('fresh', (('4', 'mixed'), ('L', 'mixed'))), ('warm', (('L', 'shared'), ('D', 'shared'))), ('same', (('d', 'mixed'), ('l', 'shared')))]
THREE = [('fresh', (('D', 'csr'), ('D', 'csr'), ('L', 'csr'))), ('fresh', (('D', 'quant'), ('L', 'time'), ('D', 'plain'))), ('same', (('d', 'mixed'), ('l', 'mixed'), ('l', 'shared')))]


# ------------------------------------------------------------------------------------------------------- execution
STORE = {}


def prepare(v, fmt):
    """file with that value, made by another process"""
    key = (fmt, v)
    if key not in STORE:
        name = os.path.join(os.environ['HKLMC_SCRATCH'], 'src_%s_%s.hkl' % (fmt, v))

        def make():
            warnings.simplefilter('ignore')
            import hickle
            if fmt == 'new':
                hickle.dump(value(v), name, mode='w')
            else:
                with h5py.File(name, 'w') as f:
                    dict(v3=legacy.v3_file, v4=legacy.v40_file)[fmt](value(v), f, '/')
        st, out = in_child(make)
        if st != 'ok':
            raise Viol('preparing a file with %s failed: %s' % (v, out))
        STORE[key] = name
    return STORE[key]


def prepare_same(ops):
    key = ('same', ops)
    if key not in STORE:
        name = os.path.join(os.environ['HKLMC_SCRATCH'], 'same_%d.hkl' % len(STORE))

        def make():
            warnings.simplefilter('ignore')
            import hickle
            with h5py.File(name, 'w') as f:
                f.attrs['other'] = 5
                for i, (o, v) in enumerate(ops):
                    if o == 'l':
                        hickle.dump(value(v), f, path='/p%d' % i)
        st, out = in_child(make)
        if st != 'ok':
            raise Viol('preparing a file failed: %s' % (out,))
        STORE[key] = name
    return STORE[key]


def solo_content(v):
    """what a dump alone writes"""
    key = ('content', v)
    if key not in STORE:
        n = prepare(v, 'new')

        def read():
            with h5py.File(n, 'r') as f:
                return values.content(f)
        st, out = in_child(read)
        if st != 'ok':
            raise Viol('reading the file of %s failed: %s' % (v, out))
        STORE[key] = out
    return STORE[key]


def prepare_all(sc):
    if sc[0] == 'same':
        prepare_same(sc[1])
    for o, v in sc[1]:
        if o in 'DdLleEk':
            prepare(v, 'new')
            solo_content(v)
        elif o == '3':
            prepare(v, 'v3')
        elif o == '4':
            prepare(v, 'v4')


def child_run(sc, plan, opcode=False):
    """one interleaving; returns (traces, number of switches)"""
    mode, ops = sc
    d = os.environ['HKLMC_SCRATCH']
    import hickle
    warnings.simplefilter('ignore')
    if mode == 'warm':
        for o, v in ops:
            b = io.BytesIO()
            hickle.dump(value(v), b, mode='w', filename='x')
            hickle.load(b, filename='x')
    names, fns, vals = [], [], []
    after, handles = [], []
    same = None
    if mode == 'same':
        sname = os.path.join(d, 'same_%d.hkl' % os.getpid())
        shutil.copyfile(prepare_same(ops), sname)
        same = h5py.File(sname, 'r+')
    for i, (o, v) in enumerate(ops):
        val = value(v)
        vals.append(val)
        if o == 'D' and mode in ('mem', 'hnd'):
            n = os.path.join(d, 'out_%d_%d.hkl' % (os.getpid(), i))
            b = io.BytesIO()
            after.append((n, b))
            if mode == 'hnd':
                h = h5py.File(b, 'w')
                handles.append(h)
                fns.append(lambda h=h, val=val: hickle.dump(val, h))
            else:
                fns.append(lambda b=b, val=val: hickle.dump(val, b, mode='w', filename='mem.hkl'))
        elif o in 'L34' and mode in ('mem', 'hnd'):
            n = prepare(v, {'L': 'new', '3': 'v3', '4': 'v4'}[o])
            c = os.path.join(d, 'in_%d_%d.hkl' % (os.getpid(), i))
            shutil.copyfile(n, c)
            n = c
            b = io.BytesIO(open(n, 'rb').read())
            if mode == 'hnd':
                h = h5py.File(b, 'r')
                handles.append(h)
                fns.append(lambda h=h: hickle.load(h))
            else:
                fns.append(lambda b=b: hickle.load(b, filename='mem.hkl'))
        elif o == 'D':
            n = os.path.join(d, 'out_%d_%d.hkl' % (os.getpid(), i))
            fns.append(lambda n=n, val=val: hickle.dump(val, n, mode='w'))
        elif o in 'L34':
            n = prepare(v, {'L': 'new', '3': 'v3', '4': 'v4'}[o])
            c = os.path.join(d, 'in_%d_%d.hkl' % (os.getpid(), i))
            if mode == 'stem':
                c = os.path.join(d, 'in_%d.%s' % (os.getpid(), ('hkl', 'h5', 'hickle')[i]))
            shutil.copyfile(n, c)
            n = c
            fns.append(lambda n=n: hickle.load(n))
        elif o in 'de':
            n = '/p%d' % (0 if o == 'e' else i)
            fns.append(lambda n=n, val=val: hickle.dump(val, same, path=n))
        elif o in 'lk':
            n = '/p%d' % (0 if o == 'k' else i)
            fns.append(lambda n=n: hickle.load(same, path=n))
        names.append(n)
    s = Sched(fns, plan, inside, opcode)
    gc_on = gc.isenabled()
    try:
        res = s.run()
    except Deadlock as e:
        raise Viol('%s: %s' % (describe(sc, plan), e))
    for h in handles:
        if not h.id.valid:
            raise Viol('%s: an open file of the caller has been closed' % describe(sc, plan))
        h.close()
    for n, b in after:
        with open(n, 'wb') as f:
            f.write(b.getvalue())
    try:
        judge(sc, plan, res, names, vals, same, gc_on)
    finally:
        for n in names:
            if n.startswith(d):
                try:
                    os.unlink(n)
                except OSError:
                    pass
        if same is not None:
            try:
                os.unlink(sname)
            except OSError:
                pass
    pts = [[(os.path.basename(f), n, l) for f, n, l in t] for t in s.trace]
    return pts, s.switches, s.stalls


def describe(sc, plan):
    return '%s %s, schedule %s' % (sc[0], ' || '.join('%s %s' % ({'D': 'dump', 'L': 'load', '3': 'load v3', '4': 'load v4.0', 'd': 'dump', 'l': 'load', 'e': 'dump (same path)', 'k': 'load (same path)'}[o], v) for o, v in sc[1]), plan)


def judge(sc, plan, res, names, vals, same, gc_on):
    import hickle
    mode, ops = sc
    what = describe(sc, plan)
    if gc.isenabled() != gc_on:
        raise Viol('%s: garbage collection is %s afterwards' % (what, 'on' if gc.isenabled() else 'off'))
    samepath = any(o in 'e' for o, v in ops)
    okcount = 0
    for i, (o, v) in enumerate(ops):
        kind, r = res[i]
        if kind == 'raised':
            if mode == 'same' and isinstance(r, Exception):
                continue
            raise Viol('%s: operation %d raised %s: %s (%r)' % (what, i, type(r).__name__, str(r)[:200], r.__cause__))
        okcount += 1
        if o in 'L34lk':
            dd = diff(vals[i], r)
            if dd:
                raise Viol('%s: load %d gave something else: %s' % (what, i, dd))
        elif o == 'D':
            check_file(what, 'dump %d' % i, v, names[i])
        # the original is not affected
        dd = diff(value(v), vals[i])
        if dd:
            raise Viol('%s: dumped value changed: %s' % (what, dd))
    if mode == 'same':
        if not same.id.valid:
            raise Viol('%s: file has been closed' % what)
        if okcount == 0:
            raise Viol('%s: all operations were refused: %s' % (what, [repr(r)[:150] for _, r in res]))
        for i, (o, v) in enumerate(ops):
            if o in 'de' and res[i][0] == 'value':
                try:
                    back = hickle.load(same, path=names[i])
                except Exception as e:
                    raise Viol('%s: value of successful dump %d can not be loaded: %s (%r)' % (what, i, e, e.__cause__))
                dd = diff(vals[i], back)
                if dd and not samepath:
                    raise Viol('%s: dump %d succeeded but loads as something else: %s' % (what, i, dd))
        # clean state: the file and the process are usable
        for k, (o, v) in enumerate(ops):
            try:
                hickle.dump(value(v), same, path='/after%d' % k)
                dd = diff(value(v), hickle.load(same, path='/after%d' % k))
            except Exception as e:
                raise Viol('%s: afterwards the open file is not usable: %s: %s' % (what, type(e).__name__, str(e)[:200]))
            if dd:
                raise Viol('%s: afterwards: %s' % (what, dd))
        same.close()
        return
    for i, (o, v) in enumerate(ops):
        try:
            with h5py.File(names[i], 'r+') as f:
                pass
        except OSError as e:
            raise Viol('%s: file %d is still in use afterwards: %s' % (what, i, e))
        if o == 'D':
            dd = diff(vals[i], hickle.load(names[i]))
            if dd:
                raise Viol('%s: dump %d loads as something else: %s' % (what, i, dd))
    # the process still behaves like a fresh one
    for v in {v for o, v in ops if v in VALUES}:
        n = os.path.join(os.environ['HKLMC_SCRATCH'], 'after_%d.hkl' % os.getpid())
        try:
            hickle.dump(value(v), n, mode='w')
            check_file(what, 'dump afterwards', v, n)
            if ('D', v) not in ops:
                dd = diff(value(v), hickle.load(n))
                if dd:
                    raise Viol('%s: load afterwards: %s' % (what, dd))
        finally:
            if os.path.exists(n):
                os.unlink(n)


def check_file(what, how, v, name):
    with open(name, 'rb') as f, open(prepare(v, 'new'), 'rb') as g:
        if f.read() == g.read():
            return
    with h5py.File(name, 'r') as f:
        c = values.content(f)
    if c != solo_content(v):
        raise Viol('%s: %s wrote something else: %s' % (what, how, values.first_diff(solo_content(v), c)))


def init(tier):
    values.use_scipy()
    values.use_astropy()
    # loader modules are imported in each process: compile them once only, outside of the tree
    if 'HKLMC_SCRATCH' in os.environ:
        sys.pycache_prefix = os.path.join(os.environ['HKLMC_SCRATCH'], 'pycache')
        sys.dont_write_bytecode = False
    gc.collect()
    gc.freeze()


def base_points(sc, first, maxocc, modules=True):
    """step counts at which the first thread may be preempted: every line, its first maxocc executions"""
    out = base_trace(sc, first)
    return None if out is None else dedupe(out, maxocc, modules)


def base_trace(sc, first):
    """lines executed by the first thread when nothing interferes"""
    n = len(sc[1])
    prepare_all(sc)
    plan = [(first, None)] + [(i, None) for i in range(n) if i != first]
    st, out = in_child(lambda: child_run(sc, plan))
    if st != 'ok':
        return None
    return out[0][first]


def dedupe(trace, maxocc, modules=True):
    """first maxocc executions of each line; modules: all lines of module bodies, otherwise the first and the last one"""
    seen, pts = {}, []
    for k, p in enumerate(trace):
        seen[p] = seen.get(p, 0) + 1
        if seen[p] <= maxocc:
            if not modules and p[1] == '<module>' and 0 < k < len(trace) - 1 and trace[k - 1][:2] == trace[k + 1][:2] == p[:2]:
                continue
            pts.append(k)
    return pts


def edge(trace, k):
    return k == 0 or trace[k - 1][:2] != trace[k][:2]


def cases(tier):
    T = tier == 'thorough'
    if 'HKLMC_SCRATCH' not in os.environ:
        import tempfile
        os.environ['HKLMC_SCRATCH'] = tempfile.mkdtemp(prefix='hklmc_')
    covered = set()
    for sc in CORE + [s for s in scenarios(T) if s not in CORE]:
        for first in (0, 1):
            if first == 1 and (sc[1][0] == sc[1][1] or (not T and sc[0] == 'fresh' and sc[1][0][1] != sc[1][1][1])):
                continue  # symmetric, or (quick) different kinds of value
            yield ('serial', sc, first, None, 1)
            out = base_trace(sc, first)
            if out is None:
                continue  # reported by the serial case
            for k in dedupe(out, 2 if T else 1, T):
                key = (sc[0], sc[1][first][0], sc[1][1 - first][0], sc[0] == 'same' and sc[1][0][1] == sc[1][1][1], out[k])
                if not T and sc not in CORE and key in covered:
                    continue  # (quick) this line has been preempted by this kind of operation already
                covered.add(key)
                yield ('pre', sc, first, k, 1)
    for sc in BOUND2_QUICK:
        for first in (0, 1):
            if first == 1 and sc[1][0] == sc[1][1]:
                continue
            pts = base_points(sc, first, 1, False)
            for k in pts or ():
                yield ('pre2', sc, first, k, 'near')
    for sc in BOUND2 if T else ():
        for k in base_points(sc, 0, 1) or ():
            yield ('pre2', sc, 0, k, 'all')
    for sc in THREE if T else THREE[:1]:
        for first in range(3):
            out = base_trace(sc, first)
            for k in dedupe(out or (), 1, T):
                if T or edge(out, k):
                    yield ('three', sc, first, k, 1)


def run_case(case):
    kind, sc, first, k, occ = case
    try:
        prepare_all(sc)
    except Viol as e:
        return Result(1, 'violation', str(e))
    n = len(sc[1])
    rest = [i for i in range(n) if i != first]
    plans = []
    if kind == 'serial':
        plans = [[(first, None)] + [(i, None) for i in rest]]
    elif kind == 'pre':
        plans = [[(first, k)] + [(i, None) for i in rest]]
    elif kind == 'three':
        plans = [[(first, k)] + [(i, None) for i in p] for p in itertools.permutations(rest)]
    else:
        plans = [[(first, k), (rest[0], None)]]
    ops = 0
    states = []
    while plans:
        plan = plans.pop()
        st, out = in_child(lambda: child_run(sc, plan))
        ops += 1
        states.append((sc, tuple(plan)))
        if st == 'viol':
            return Result(ops, 'violation', out)
        if st == 'died':
            return Result(ops, 'violation', '%s: process died with status %s' % (describe(sc, plan), out))
        if st == 'err':
            return Result(ops, 'violation', '%s: %s' % (describe(sc, plan), out))
        if kind == 'pre2' and len(plan) == 2 and plan[1][1] is None:
            a, b = out[0][first], out[0][rest[0]]
            for j in dedupe(b, 1, occ == 'all'):
                # near: both are in the same function, a few lines from each other
                if occ == 'all' or (k < len(a) and a[k][:2] == b[j][:2] and abs(a[k][2] - b[j][2]) <= NEAR):
                    plans.append([(first, k), (rest[0], j), (first, None)])
    return Result(ops, 'equal to sequential', None, states)


CHECK = Check('C18', cases, run_case, init=init, level='model_checking',
              rule='the real code under a controlled scheduler: one thread is preempted at every executed source line of the library (first executions of each), the other ones run to the end (or up to each of their lines, bound 2); every schedule in a forked process in which no loader has been used; results, file content and process state compared with those of the sequential run',
              bound='48 pairs of operations (all pairs thorough) on own files, file like objects, open files and one common open file with one preemption at the first (first two) executions of each line; 4 pairs with two preemptions at neighbouring places (7 pairs at all pairs of lines); 1 (3) triples',
              assumptions=['h5py serializes its own calls', 'preemption between source lines'])
if __name__ == '__main__':
    run(CHECK)
