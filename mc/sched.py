"""Controlled thread scheduler and preemption-bounded stateless exploration.

Threads run real code; every executed line (optionally every bytecode) of the
chosen source files is a scheduling point.  Exactly one thread runs at a time
(it holds the baton); at each point the schedule decides who continues.
Locks created by pointpats are replaced by scheduler-aware ones, so a blocked
thread is seen as not enabled and a deadlock is reported instead of hanging.
"""
import os
import sys
import threading
import _thread


class Deadlock(Exception):
    pass


class Divergence(Exception):
    pass


_current = [None]        # the running Scheduler
_real_lock = threading.Lock
_real_rlock = threading.RLock


class _SLock:
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        self.real = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current[0]
        me = s.me() if s is not None else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            s.block(me, self)

    def release(self):
        s = _current[0]
        me = s.me() if s is not None else None
        if me is None:
            return self.real.release()
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s.unblock(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None or (not self.reentrant and self.real.locked())


def install_locks():
    """locks created by pointpats modules become scheduler-aware"""
    def factory(real, reentrant):
        def make(*a, **k):
            n = sys._getframe(1).f_globals.get("__name__", "")
            if n.split(".")[0] == "pointpats":
                return _SLock(reentrant)
            return real(*a, **k)
        return make
    threading.Lock = factory(_real_lock, False)
    threading.RLock = factory(_real_rlock, True)


class Scheduler:
    def __init__(self, thunks, prefix, files, opcode_files=()):
        self.thunks = thunks
        self.prefix = prefix
        self.files = files
        self.opcode_files = opcode_files
        n = len(thunks)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.blocked = [None] * n
        self.result = [None] * n
        self.error = [None] * n
        self.points = []            # (enabled tuple, running_enabled, chosen)
        self.running = None
        self.finished = threading.Semaphore(0)
        self.ids = {}
        self.problem = None

    def me(self):
        return self.ids.get(_thread.get_ident())

    # ----- decisions
    def _choose(self, running):
        en = [i for i in range(len(self.thunks)) if not self.done[i] and self.blocked[i] is None]
        if not en:
            return None
        run_en = running in en
        if run_en:
            en.remove(running)
            en.insert(0, running)
        if len(en) == 1:
            return en[0]
        k = len(self.points)
        if k < len(self.prefix):
            c = self.prefix[k]
            if c not in en:
                self.problem = Divergence("schedule asks for thread %d, enabled %r" % (c, en))
                c = en[0]
        else:
            c = en[0]
        self.points.append((tuple(en), run_en, c))
        return c

    def point(self, me):
        c = self._choose(me)
        if c != me:
            self.running = c
            self.sem[c].release()
            self.sem[me].acquire()

    def block(self, me, lock):
        self.blocked[me] = lock
        c = self._choose(None)
        if c is None:
            self.problem = Deadlock("all threads are blocked")
            self.blocked[me] = None
            self.done[me] = True
            for i in range(len(self.thunks)):
                self.finished.release()
            raise SystemExit
        self.sem[c].release()
        self.sem[me].acquire()

    def unblock(self, lock):
        for i, b in enumerate(self.blocked):
            if b is lock:
                self.blocked[i] = None

    # ----- threads
    def _trace(self, me):
        files, opf = self.files, self.opcode_files

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.point(me)
            return local

        def tracer(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn in files:
                if fn in opf:
                    frame.f_trace_opcodes = True
                return local
            return None
        return tracer

    def _body(self, me):
        self.ids[_thread.get_ident()] = me
        self.sem[me].acquire()
        try:
            sys.settrace(self._trace(me))
            try:
                self.result[me] = self.thunks[me]()
            finally:
                sys.settrace(None)
        except SystemExit:
            return
        except BaseException as e:          # noqa
            self.error[me] = e
        self.done[me] = True
        c = self._choose(None)
        self.finished.release()
        if c is not None:
            self.sem[c].release()

    def run(self, timeout=60):
        _current[0] = self
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True)
               for i in range(len(self.thunks))]
        for t in ths:
            t.start()
        c = self._choose(None)
        self.sem[c].release()
        try:
            for _ in ths:
                if not self.finished.acquire(timeout=timeout):
                    raise Deadlock("threads did not finish within %d s" % timeout)
            if self.problem:
                raise self.problem
            for t in ths:
                t.join(5)
        finally:
            _current[0] = None
        return self


def repo_files(repo, names=None):
    d = os.path.join(os.path.realpath(repo), "pointpats")
    fs = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".py")]
    if names:
        fs = [f for f in fs if os.path.basename(f) in names]
    return frozenset(fs)


def explore(make, judge, files, bound, opcode_files=(), cap=None, part=None):
    """Run every schedule of make() -> list of thunks with at most ``bound``
    preemptions; judge(scheduler) checks each finished execution.
    part = [k, m]: of the first deviations only those at points = k mod m (the m
    parts together are the whole space).
    Returns (schedules, points, capped)."""
    stack = [()]
    count = pts = 0
    capped = False
    while stack:
        prefix = stack.pop()
        ctxobj, thunks = make()
        s = Scheduler(thunks, prefix, files, opcode_files).run()
        count += 1
        pts += len(s.points)
        judge(ctxobj, s, tuple(p[2] for p in s.points))
        if cap and count >= cap:
            capped = True
            break
        # preemptions used before each point
        used = 0
        choices = [p[2] for p in s.points]
        for i, (en, run_en, ch) in enumerate(s.points):
            if i >= len(prefix) and not (part and not prefix and i % part[1] != part[0]):
                for alt in en:
                    if alt == ch:
                        continue
                    cost = used + (1 if run_en and alt != en[0] else 0)
                    if cost <= bound:
                        stack.append(tuple(choices[:i]) + (alt,))
            if run_en and ch != en[0]:
                used += 1
    return count, pts, capped


# ------------------------------------------------------- joblib under control
_exec = [None]          # callable(list of thunks) -> list of results


def make_backend():
    from joblib._parallel_backends import ParallelBackendBase
    from joblib import register_parallel_backend

    class Job:
        def __init__(self, func, cb):
            self.func, self.cb, self.done, self.value = func, cb, False, None

        def get(self, timeout=None):
            return _backend_result(self)

    pending = []

    def _backend_result(job):
        while not job.done:
            jobs = list(pending)
            pending.clear()
            try:
                vals = _exec[0]([j.func for j in jobs])
            except BaseException:
                pending.clear()
                raise
            for j, v in zip(jobs, vals):
                j.value, j.done = v, True
            for j in jobs:
                if j.cb is not None:
                    j.cb(j.value)
        return job.value

    class Controlled(ParallelBackendBase):
        supports_sharedmem = True
        uses_threads = True
        supports_retrieve_callback = False

        def effective_n_jobs(self, n_jobs):
            return 64

        def configure(self, n_jobs=1, parallel=None, **kw):
            self.parallel = parallel
            return 64

        def submit(self, func, callback=None):
            j = Job(func, callback)
            pending.append(j)
            return j

        apply_async = submit

        def retrieve_result(self, out, timeout=None):
            return _backend_result(out)

        def get_nested_backend(self):
            from joblib._parallel_backends import SequentialBackend
            return SequentialBackend(nesting_level=1), None

        def abort_everything(self, ensure_ready=True):
            pending.clear()

    register_parallel_backend("pp-controlled", Controlled)
