"""Bounded-exhaustive exploration engine shared by all checks.

A check provides
  cases(tier)   deterministic generator of every case inside the bound
  run_case(case) executes the case on the real code in /repo and returns a Result

The engine partitions the enumeration over forked workers (worker w takes the cases
i with i % W == w), so nothing is sampled and nothing depends on a random seed.
"""
import os, sys, json, hashlib, time, signal, tempfile, shutil, traceback, argparse, warnings, itertools

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'TRUE')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.dont_write_bytecode = True
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)

NPROC = max(1, min(8, os.cpu_count() or 1))
CASE_LIMIT_S = 150


class Viol(Exception):
    """raised (or returned) by a case when the property does not hold"""


class Result(object):
    __slots__ = ('ops', 'outcome', 'viol', 'states')

    def __init__(self, ops=0, outcome='ok', viol=None, states=None):
        # states: iterable of hashable observations reached (None: the case itself is the state)
        self.ops, self.outcome, self.viol, self.states = ops, outcome, viol, states


def digest(x):
    return hashlib.blake2b(x if isinstance(x, bytes) else repr(x).encode('utf8', 'backslashreplace'), digest_size=8).digest()


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def import_hickle():
    """import the code under test from the working tree"""
    import hickle
    here = os.path.realpath(os.path.dirname(hickle.__file__))
    want = os.path.realpath(os.path.join(REPO, 'hickle'))
    if here != want:
        raise SystemExit('harness error: imported hickle from %s instead of %s' % (here, want))
    return hickle


class Check(object):
    """one property check"""

    def __init__(self, prop, cases, run_case, level='model_checking', rule='', assumptions=(),
                 bound='', key=None, init=None, nproc=None, isolate=False):
        self.prop, self.cases, self.run_case = prop, cases, run_case
        self.level, self.rule, self.assumptions, self.bound = level, rule, list(assumptions), bound
        self.key = key or (lambda case: repr(case))
        self.init = init
        self.nproc = nproc or NPROC
        self.isolate = isolate

    # -- execution ---------------------------------------------------------
    def _exec(self, case):
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_LIMIT_S)
        try:
            r = self.run_case(case)
            if r is None:
                r = Result(1)
            return r
        except Viol as v:
            return Result(1, 'violation', str(v))
        except Exception:
            # the oracle is total on everything the unmodified code returns
            return Result(1, 'violation', 'unexpected result, the comparison failed with\n' + traceback.format_exc()[-1500:])
        except CaseTimeout:
            return Result(1, 'violation', 'operation did not terminate within %d s' % CASE_LIMIT_S)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def _worker(self, w, W, tier, path, only=None):
        scratch = tempfile.mkdtemp(prefix='hklmc_')
        os.environ['HKLMC_SCRATCH'] = scratch
        tempfile.tempdir = scratch
        out = open(path, 'w')
        n = ops = 0
        states = set()
        outcomes = {}
        samples = []
        nviol = 0
        t_prog = 0
        try:
            if self.init:
                self.init(tier)
            for i, case in enumerate(self.cases(tier)):
                if i % W != w or (only is not None and i != only):
                    continue
                out.seek(0)
                if self.isolate or time.monotonic() - t_prog > .05:
                    # progress marker (used if the process dies)
                    t_prog = time.monotonic()
                    with open(path + '.cur', 'w') as c:
                        c.write(str(i))
                r = self._exec(case)
                n += 1
                ops += r.ops
                if r.outcome != 'trivial':
                    for st in ((self.key(case),) if r.states is None else r.states):
                        states.add(digest(st))
                outcomes[r.outcome] = outcomes.get(r.outcome, 0) + 1
                if len(samples) < 2:
                    samples.append(repr(case)[:300])
                if r.viol:
                    nviol += 1
                    if nviol <= 200:
                        with open(path + '.viol', 'a') as v:
                            v.write(json.dumps(dict(index=i, key=self.key(case), case=repr(case)[:4000],
                                                    message=str(r.viol)[:4000])) + '\n')
            with open(path + '.st', 'wb') as f:
                f.write(b''.join(states))
            json.dump(dict(n=n, ops=ops, outcomes=outcomes, samples=samples), out)
            out.close()
        except BaseException:
            with open(path + '.err', 'w') as e:
                e.write(traceback.format_exc())
            os._exit(3)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)

    def main(self, argv=None):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
        ap.add_argument('--replay')
        ap.add_argument('--list', action='store_true')
        ap.add_argument('--jobs', type=int, default=self.nproc)
        a = ap.parse_args(argv)
        t0 = time.time()
        seed = os.environ.get('VERIF_SEED', '1')
        warnings.simplefilter('ignore')
        if a.list:
            n = 0
            for n, c in enumerate(self.cases(a.tier), 1):
                print(n - 1, repr(c)[:200])
            print('total', n)
            return 0
        try:
            import_hickle()
        except SystemExit:
            raise
        except BaseException as e:
            return self._report(a.tier, seed, t0, [dict(index=-1, key='import', case='import hickle',
                                message='importing the code under test failed: %r' % (e,))], {}, 0, 0, 0, [])
        only = None
        if a.replay:
            rec = json.load(open(a.replay))
            only = rec['index']
            a.tier = rec['tier']
            a.jobs = 1
        W = 1 if only is not None else a.jobs
        base = tempfile.mkdtemp(prefix='hklmc_out_')
        sys.stdout.flush(); sys.stderr.flush()
        pids = {}
        for w in range(W):
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                self._worker(w, W, a.tier, os.path.join(base, str(w)), only)
            pids[pid] = w
        dead = {}
        while pids:
            pid, st = os.wait()
            if pid not in pids:
                continue
            w = pids.pop(pid)
            if st != 0:
                dead[w] = st
        viols, outcomes, n, ops, states, samples = [], {}, 0, 0, set(), []
        harness_error = None
        for w in range(W):
            pth = os.path.join(base, str(w))
            if os.path.exists(pth + '.viol'):
                viols += [json.loads(l) for l in open(pth + '.viol')]
            if w in dead:
                if os.path.exists(pth + '.err'):
                    harness_error = open(pth + '.err').read()
                else:
                    cur = open(pth + '.cur').read() if os.path.exists(pth + '.cur') else '?'
                    viols.append(dict(index=int(cur) if cur.isdigit() else -1, key='crash', case='near case %s' % cur,
                                      message='process died with status %r' % dead[w]))
                continue
            d = json.load(open(pth))
            n += d['n']; ops += d['ops']; samples += d['samples']
            b = open(pth + '.st', 'rb').read()
            states.update(b[k:k + 8] for k in range(0, len(b), 8))
            for k, v in d['outcomes'].items():
                outcomes[k] = outcomes.get(k, 0) + v
        shutil.rmtree(base, ignore_errors=True)
        viols.sort(key=lambda v: v['index'])
        if harness_error and not viols:
            sys.stderr.write('harness error in %s\n%s\n' % (self.prop, harness_error))
            return 2
        return self._report(a.tier, seed, t0, viols, outcomes, n, ops, len(states), samples, replay=only is not None)

    def _report(self, tier, seed, t0, viols, outcomes, n, ops, states, samples, replay=False):
        known = {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for k in json.load(open(kf)).get('known', []):
                if k['property'] == self.prop:
                    known[k['key']] = k
        new, seen = [], set()
        for v in viols:
            k = known.get(v['key'])
            if k is not None and (not k.get('message_contains') or k['message_contains'] in v['message']):
                seen.add(v['key'])
            else:
                new.append(v)
        for key in sorted(seen):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[key]['what']))
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        rep = None
        if new and not replay:
            rdir = os.path.join(evdir, 'replay')
            os.makedirs(rdir, exist_ok=True)
            rep = os.path.join(rdir, '%s-%d.json' % (self.prop, max(new[0]['index'], 0)))
            json.dump(dict(property=self.prop, tier=tier, **new[0]), open(rep, 'w'), indent=1)
        if self.level == 'model_checking':
            cov = dict(states=states, transitions=ops, traces_validated_against_impl=n)
        else:
            cov = dict(evaluations=n, distinct_nontrivial=states, api_calls=ops)
        cov.update(rule=self.rule, exhaustive=True, bound=self.bound, outcomes=outcomes, samples=(samples or ['-'])[:12])
        if not replay:
            ev = dict(property=self.prop, tier=tier, seed=int(seed) if str(seed).lstrip('-').isdigit() else 1,
                      level=self.level, coverage=cov, assumptions=self.assumptions,
                      wall_s=round(time.time() - t0, 2), violations=len(new))
            if seen:
                ev['known_findings'] = sorted(seen)
            tmp = os.path.join(evdir, '.%s.tmp' % self.prop)
            json.dump(ev, open(tmp, 'w'), indent=1)
            os.replace(tmp, os.path.join(evdir, '%s.json' % self.prop))
        for v in new[:10]:
            print('case %s: %s\n   %s' % (v['index'], v['case'][:600], v['message'][:1200]))
        if new:
            print('%d violating cases of %d (%.1f s)' % (len(new), n, time.time() - t0))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep or 'case:%d' % new[0]['index']))
            return 1
        print('%s %s: %d cases, %d operations, outcomes %s, %.1f s' % (self.prop, tier, n, ops, outcomes, time.time() - t0))
        return 0


def run(check):
    rc = check.main()
    sys.stdout.flush()
    os._exit(rc)


def scratch():
    return os.environ.get('HKLMC_SCRATCH') or tempfile.gettempdir()
