"""Controlled scheduler for real threads.

Threads run one at a time.  A thread gives up control only where the plan says so, at the execution of a source
line (or bytecode) of the code under test, so that a plan [(thread, steps), ...] determines the interleaving.
A thread which is blocked by a lock held by a suspended thread is recognized by not making progress, the next
one is resumed then."""
import sys, threading, time

STALL = .25
DEAD = 30.


class Deadlock(Exception):
    pass


class CoopLock(object):
    """stands for a lock of the code under test: a thread which would block gives control to the others"""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        if s is None or not blocking or timeout >= 0 or threading.get_ident() not in s.ident:
            return self._real.acquire(blocking, timeout)
        i = s.ident[threading.get_ident()]
        while not self._real.acquire(False):
            if not s.give_way(i):
                return self._real.acquire()
        return True

    __enter__ = acquire

    def release(self):
        self._real.release()

    def __exit__(self, *a):
        self._real.release()

    def __getattr__(self, n):
        return getattr(self._real, n)


def import_with_coop_locks(imp):
    """locks created during that import are controlled by the scheduler"""
    old = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = (lambda: CoopLock(old[0]())), (lambda: CoopLock(old[1]()))
    try:
        return imp()
    finally:
        threading.Lock, threading.RLock = old


class Sched(object):
    current = None

    def __init__(self, fns, plan, inside, opcode=False):
        self.fns, self.inside, self.opcode = fns, inside, opcode
        n = len(fns)
        self.plan = list(plan) + [(i, None) for i in range(n)]
        self.trace = [[] for _ in fns]
        self.count = [0] * n
        self.done = [False] * n
        self.result = [None] * n
        self.go = [threading.Event() for _ in fns]
        self.all_done = threading.Event()
        self.left = None
        self.cur = None
        self.ticks = 0
        self.stalls = 0
        self.free = False
        self.switches = 0
        self.lock = threading.Lock()
        self.ident = {}
        self.blocked_runs = 0
        self.place, self.same_place = None, 0

    def next_segment(self):
        """choose who runs next"""
        while self.plan:
            t, steps = self.plan.pop(0)
            if not self.done[t]:
                self.cur = t
                self.left = steps
                self.switches += 1
                self.go[t].set()
                return t
        self.cur = None
        self.all_done.set()

    def give_way(self, i):
        """thread i can not continue: let another one run; False if there is none"""
        with self.lock:
            if self.cur != i:
                nxt = True
            else:
                rest = [t for t in range(len(self.fns)) if t != i and not self.done[t]]
                if not rest:
                    return False
                self.blocked_runs += 1
                if self.blocked_runs > 10000:
                    return False
                self.ticks += 1
                # continue when one of the others is done or blocked
                self.plan = [p for p in self.plan if p[0] != i] + [(i, None)]
                self.go[i].clear()
                self.next_segment()
        self.go[i].wait()
        self.go[i].clear()
        return True

    def point(self, i, frame):
        self.ticks += 1
        self.count[i] += 1
        self.trace[i].append((frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno))
        if self.free:
            return
        if self.cur != i:
            # was considered blocked and continues now, wait until it is its turn
            self.go[i].wait()
            self.go[i].clear()
            return
        if self.left is not None:
            if self.left == 0:
                with self.lock:
                    if self.cur == i:
                        self.go[i].clear()
                        t = self.next_segment()
                        if t == i:
                            self.go[i].clear()
                            return
                self.go[i].wait()
                self.go[i].clear()
                return
            self.left -= 1

    def tracer(self, i):
        inside, opcode, point = self.inside, self.opcode, self.point

        def local(frame, event, arg):
            if event == ('opcode' if opcode else 'line'):
                point(i, frame)
            return local

        def glob(frame, event, arg):
            if inside(frame.f_code.co_filename):
                if opcode:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
        return glob

    def body(self, i):
        self.ident[threading.get_ident()] = i
        self.go[i].wait()
        self.go[i].clear()
        sys.settrace(self.tracer(i))
        try:
            r = ('value', self.fns[i]())
        except BaseException as e:
            sys.settrace(None)
            r = ('raised', e)
        sys.settrace(None)
        self.result[i] = r
        with self.lock:
            self.done[i] = True
            if self.cur == i or all(self.done):
                self.next_segment()

    def waits(self, th):
        """the running thread sits in the module lock of the import system, or stays in the same call of h5py (its lock)"""
        t = self.cur
        if t is None:
            return False
        f = sys._current_frames().get(th[t].ident)
        if f is None:
            return False
        where = id(f), f.f_lasti
        self.same_place = self.same_place + 1 if where == self.place else 0
        self.place = where
        fn = f.f_code.co_filename
        return 'importlib._bootstrap' in fn and f.f_code.co_name == 'acquire' or (self.same_place >= 3 and 'h5py' in fn)

    def run(self):
        th = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in th:
            t.start()
        with self.lock:
            self.next_segment()
        Sched.current = self
        t0 = time.monotonic()
        last, since = -1, t0
        while not self.all_done.wait(.01):
            now = time.monotonic()
            if self.ticks != last:
                last, since = self.ticks, now
            elif now - since > STALL or self.waits(th):
                since = now
                self.stalls += 1
                with self.lock:
                    # blocked: let the others go on.  It will wait for its turn at its next line
                    blocked = self.cur
                    if blocked is not None and not self.done[blocked]:
                        self.plan.append((blocked, None))
                        rest = [p for p in self.plan if p[0] != blocked] + [p for p in self.plan if p[0] == blocked]
                        self.plan = rest
                        self.next_segment()
            if now - t0 > DEAD:
                raise Deadlock('threads are blocked by each other')
        for t in th:
            t.join(10)
        Sched.current = None
        return self.result
