"""
sched - stateless exploration of thread interleavings of real Python code.

Every thread of a program runs under sys.settrace and stops at each line of the
chosen source files, at each lock operation and at each sleep; only one thread
runs at a time and the explorer decides which.  explore() enumerates, depth
first, *all* schedules with at most `bound` preemptions.  Time is virtual: it
advances only when a thread sleeps or waits with a timeout.

threading.Lock/RLock, time.sleep, time.time, time.monotonic and blocking
fcntl.flock calls are replaced (install()) by versions that cooperate with the
scheduler; outside of a managed thread they behave as usual.
"""

import os
import sys
import time
import errno
import fcntl
import gc
import _thread
import threading

_real_sleep = time.sleep
_real_time = time.time
_real_monotonic = time.monotonic
_real_flock = fcntl.flock
_real_Lock = threading.Lock
_real_RLock = threading.RLock
_alloc = _thread.allocate_lock

CURRENT = None       # the active Scheduler


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


def _me():
    s = CURRENT
    if s is None:
        return None, None
    t = s.by_ident.get(_thread.get_ident())
    return (s, t) if t is not None else (None, None)


class _T(object):
    __slots__ = ('i', 'fn', 'sem', 'state', 'pred', 'wake', 'result', 'exc', 'timed')

    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _alloc()
        self.sem.acquire()
        self.state = 'ready'     # ready, blocked, done
        self.pred = None
        self.wake = None
        self.result = None
        self.exc = None
        self.timed = False


class Scheduler(object):
    def __init__(self, files, prefix=(), t0=1.0e9, maxpoints=20000):
        self.files = files
        self.prefix = list(prefix)
        self.trace = []          # (options, chosen index, costs)
        self.points = 0
        self.now = t0
        self.t0 = t0
        self.maxpoints = maxpoints
        self.by_ident = {}
        self.threads = []
        self.done = _alloc()
        self.done.acquire()
        self.abort = None
        self.switches = 0

    # -- decisions
    def _options(self, cur):
        """[(thread, cost)] with the default first"""
        ready, sleepers = [], []
        for t in self.threads:
            if t.state == 'ready':
                ready.append(t)
            elif t.state == 'blocked':
                if t.pred is not None and t.pred():
                    ready.append(t)
                elif t.wake is not None:
                    sleepers.append(t)
        out = []
        if ready:
            if cur is not None and cur in ready:
                out.append((cur, 0))
                out.extend((t, 1) for t in ready if t is not cur)
            else:
                out.extend((t, 0) for t in ready)
            out.extend((t, 1) for t in sleepers if t.wake - self.now <= 1.0)
        elif sleepers:
            w = min(t.wake for t in sleepers)
            out.extend((t, 0) for t in sleepers if t.wake == w)
        return out

    def _pick(self, cur):
        opts = self._options(cur)
        if not opts:
            if all(t.state == 'done' for t in self.threads):
                return None
            raise Deadlock()
        if len(opts) == 1:
            k = 0
        else:
            n = len(self.trace)
            k = self.prefix[n] if n < len(self.prefix) else 0
            self.trace.append(([c for _, c in opts], k))
        t = opts[k][0]
        if t.state == 'blocked':
            if t.pred is not None and t.pred():
                t.timed = False
            else:
                t.timed = True
                self.now = max(self.now, t.wake)
            t.state, t.pred, t.wake = 'ready', None, None
        return t

    def _switch(self, cur):
        """Called by the running thread; returns when it is scheduled again."""
        if self.abort is not None:
            raise Abort()
        self.points += 1
        try:
            if self.points > self.maxpoints:
                raise Deadlock('more than %i steps' % self.maxpoints)
            nxt = self._pick(cur)
        except Deadlock as e:
            self.abort = e
            self._stop_all(cur)
            raise Abort()
        if nxt is cur:
            return
        self.switches += 1
        if nxt is None:
            self.done.release()
            return
        nxt.sem.release()
        if cur.state != 'done':
            cur.sem.acquire()
            if self.abort is not None:
                raise Abort()

    def _stop_all(self, cur):
        for t in self.threads:
            if t is not cur and t.state != 'done':
                t.sem.release()

    def point(self, t):
        self._switch(t)

    def block(self, t, pred, wake=None):
        """Block until pred() or the virtual time; returns False on timeout."""
        t.state, t.pred, t.wake = 'blocked', pred, wake
        self._switch(t)
        return not t.timed

    # -- running
    def _tracer(self, t):
        files = self.files

        def local(frame, event, arg):
            if event == 'line':
                self._switch(t)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename in files:
                return local
            return None
        return glob

    def _body(self, t):
        self.by_ident[_thread.get_ident()] = t
        t.sem.acquire()
        try:
            if self.abort is None:
                sys.settrace(self._tracer(t))
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            t.state = 'done'
            if self.abort is None:
                try:
                    self._switch(t)
                except Abort:
                    pass
            self.by_ident.pop(_thread.get_ident(), None)
            if self.abort is not None and all(x.state == 'done' for x in self.threads):
                try:
                    self.done.release()
                except RuntimeError:
                    pass

    def run(self, bodies, hang=30):
        global CURRENT
        CURRENT = self
        try:
            self.threads = [_T(i, fn) for i, fn in enumerate(bodies)]
            th = []
            for t in self.threads:
                x = threading.Thread(target=self._body, args=(t,), daemon=True)
                x.start()
                th.append(x)
            while len(self.by_ident) < len(bodies):
                _real_sleep(0.0001)
            nxt = self._pick(None)
            nxt.sem.release()
            if not self.done.acquire(True, hang):
                raise RuntimeError('a thread does not come back')
            for x in th:
                x.join(hang)
        finally:
            CURRENT = None
        return self


# -- cooperative primitives

class Lock(object):
    _re = False

    def __init__(self):
        self._l = _alloc()
        self._owner = None
        self._n = 0

    def _free(self):
        return self._n == 0

    def acquire(self, blocking=True, timeout=-1):
        s, t = _me()
        me = _thread.get_ident()
        if not blocking and timeout not in (-1, None):
            raise ValueError("can't specify a timeout for a non-blocking call")
        if self._re and self._owner == me and self._n:
            self._n += 1
            return True
        if s is None:
            if not self._l.acquire(blocking, timeout):
                return False
        else:
            s.point(t)
            wake = None if timeout is None or timeout < 0 else s.now + timeout
            while self._n:
                if not blocking:
                    return False
                if not s.block(t, self._free, wake) and self._n:
                    return False
            self._l.acquire()
        self._owner, self._n = me, 1
        return True

    def release(self):
        s, t = _me()
        if self._re and self._owner != _thread.get_ident() or self._n == 0:
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None
            self._l.release()
            if s is not None:
                s.point(t)

    def locked(self):
        return self._n > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()


class RLock(Lock):
    _re = True

    def _is_owned(self):
        return self._owner == _thread.get_ident() and self._n > 0

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n


def sleep(dt):
    s, t = _me()
    if s is None:
        return _real_sleep(dt)
    s.block(t, None, s.now + max(dt, 0))


def now():
    s, t = _me()
    return _real_time() if s is None else s.now


def monotonic():
    s, t = _me()
    return _real_monotonic() if s is None else s.now


def flock(fd, op):
    s, t = _me()
    if s is None or op & fcntl.LOCK_NB or op & fcntl.LOCK_UN:
        return _real_flock(fd, op)
    while True:
        try:
            return _real_flock(fd, op | fcntl.LOCK_NB)
        except OSError as e:
            if e.errno not in (errno.EAGAIN, errno.EACCES):
                raise
        # someone else has it; look again whenever another thread gets to run
        s.block(t, None, s.now + 0.001)


def install():
    threading.Lock, threading.RLock = Lock, RLock
    time.sleep, time.time, time.monotonic = sleep, now, monotonic
    fcntl.flock = flock


def explore(make, files, bound, ctx=None, limit=None, maxpoints=20000):
    """
    make() -> (bodies, judge).  Yields nothing; calls judge(scheduler) for each
    complete schedule.  Returns the number of schedules and of points.
    """
    stack = [()]
    n = points = 0
    while stack:
        prefix = stack.pop()
        if n % 200 == 0:
            gc.collect()
        gc.disable()      # no finalizers inside of a schedule
        bodies, judge = make()
        s = Scheduler(files, prefix, maxpoints=maxpoints)
        s.run(bodies)
        gc.enable()
        n += 1
        points += s.points
        judge(s, prefix)
        if ctx is not None:
            ctx.alive()
        # Alternatives after the prefix
        spent = 0
        for i, (costs, k) in enumerate(s.trace):
            if i >= len(prefix):
                for a in range(len(costs)):
                    if a != k and spent + costs[a] <= bound:
                        stack.append(tuple(x[1] for x in s.trace[:i]) + (a,))
            spent += costs[k]
        if limit is not None and n >= limit:
            return n, points, False
    return n, points, True
