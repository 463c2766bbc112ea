"""
S01 - file and memory locks exclude, nest, time out and are given back.

Threads: every schedule (at line granularity of lsl/misc/file_lock.py, up to a
preemption bound, virtual time) of pairs and triples of small lock programs on
shared and on separate lock objects.  Processes: every interleaving of whole
operations of two processes, including death of the holder.
"""
import os
import gc
import sys
import time
import signal
import struct
import itertools

import sched
sched.install()
import lsl.misc.file_lock as FL
from lsl.misc.file_lock import FileLock, MemoryLock

BOUNDS = ('all schedules with at most 2 preemptions (quick; 3 for thorough) of pairs of 7 lock programs of 2 threads on a shared lock object or on two objects of the '
          'same file, and with at most 1 of triples; all sequences of 5 (thorough: 8) operations of two processes, including death with the lock held')
HANG_S = 300
FILES = {FL.__file__}

# name -> list of operations.  A blocking acquire, N non-blocking, T(timeout), R release, . inside, W with-block
PROGRAMS = {
    'lock': ['A', '.', 'R'],
    'nested': ['A', 'A', '.', 'R', '.', 'R'],
    'try': ['N', '.', 'R'],
    'timed': ['T', '.', 'R'],
    'with': ['W'],
    'twice': ['A', '.', 'R', 'A', '.', 'R'],
    'stray': ['S'],
}
TIMEOUT = 0.035


class World(object):
    def __init__(self):
        self.holders = {}
        self.bad = []
        self.log = []


def program(w, me, lock, ops):
    def enter():
        others = [h for h in w.holders if h != me]
        if others:
            w.bad.append('thread %i has the lock while %s hold(s) it' % (me, others))
        w.holders[me] = w.holders.get(me, 0) + 1
        if not lock.locked():
            w.bad.append('locked() is False for the holder')

    def leave():
        w.holders[me] -= 1
        if not w.holders[me]:
            del w.holders[me]

    def body():
        got = []
        for op in ops:
            if op == 'A':
                r = lock.acquire()
                if r is not True:
                    w.bad.append('a blocking acquire returned %r' % (r,))
                else:
                    enter()
                got.append(r)
            elif op in ('N', 'T'):
                t0 = time.time()
                r = lock.acquire(blocking=False) if op == 'N' else lock.acquire(timeout=TIMEOUT)
                dt = time.time() - t0
                if r is True:
                    enter()
                elif r is not False:
                    w.bad.append('acquire returned %r' % (r,))
                elif op == 'T' and dt < TIMEOUT*0.5:
                    w.bad.append('gave up after %.3f s with a timeout of %.3f s' % (dt, TIMEOUT))
                w.log.append((me, op, r))
                got.append(r)
            elif op == '.':
                s, t = sched._me()
                for i in range(2):
                    s.point(t)
                if got and got[-1] and w.holders.get(me, 0) < 1:
                    w.bad.append('lost the lock')
            elif op == 'R':
                if got.pop() is True:
                    leave()
                    lock.release()
            elif op == 'W':
                with lock:
                    enter()
                    s, t = sched._me()
                    s.point(t)
                    leave()
            elif op == 'S':
                # release something that this thread does not hold
                try:
                    lock.release()
                except (RuntimeError, ValueError):
                    pass
    return body


def interleave(ctx, combos, kind, shared, bound):
    for combo in combos:
        with ctx.case((kind, 'shared' if shared else 'separate', combo)):
            fn = os.path.join(ctx.scratch, 'lock_%s' % '_'.join(combo))

            def make():
                w = World()
                mk = FileLock if kind == 'file' else MemoryLock
                one = mk(fn)
                locks = [one if shared else mk(fn) for _ in combo]
                bodies = [program(w, i, locks[i], PROGRAMS[p]) for i, p in enumerate(combo)]

                def judge(s, prefix):
                    ctx.step(s.points)
                    where = 'schedule %s' % (list(prefix),)
                    ctx.check(s.abort is None, 'deadlock', lambda: 'threads never finish (%s): %s' % (s.abort, where))
                    for t in s.threads:
                        if t.exc is not None:
                            ctx.fail('exception', 'thread %i: %s: %s (%s)' % (t.i, type(t.exc).__name__, t.exc, where))
                    ctx.check(not w.bad, 'exclusion', lambda: '%s (%s)' % (w.bad[:3], where))
                    for l in locks:
                        ctx.check(not l.locked(), 'left-locked', lambda: 'locked() after all releases (%s)' % where)
                    # free again for anybody
                    other = mk(fn) if kind == 'file' else one
                    ctx.check(other.acquire(blocking=False) is True, 'left-locked', lambda: 'lock not free after all releases (%s)' % where)
                    other.release()
                    ctx.state((kind, shared, combo, tuple(w.log)))
                return bodies, judge
            n, p, full = sched.explore(make, FILES, bound, ctx)
            ctx.executions += n


def pairs_unit(kind, shared, names, tier):
    def fn(ctx):
        bound = 2 if tier == 'quick' else 3
        interleave(ctx, names, kind, shared, bound)
    return fn


def triples_unit(kind, shared, tier):
    def fn(ctx):
        base = ['lock', 'nested', 'try', 'timed'] if tier == 'quick' else ['lock', 'nested', 'try', 'timed', 'stray']
        interleave(ctx, list(itertools.combinations_with_replacement(base, 3)), kind, shared, 1)
    return fn


# -- processes

def worker(fn, rd, wr):
    lock = FileLock(fn)
    while True:
        c = os.read(rd, 1)
        if c == b'n':
            r = b'1' if lock.acquire(blocking=False) else b'0'
        elif c == b't':
            r = b'1' if lock.acquire(timeout=0.03) else b'0'
        elif c == b'r':
            lock.release()
            r = b'1'
        elif c == b'l':
            r = b'1' if lock.locked() else b'0'
        else:
            os._exit(0)
        os.write(wr, r)


class Proc(object):
    def __init__(self, fn):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                worker(fn, a[0], b[1])
            finally:
                os._exit(1)
        os.close(a[0])
        os.close(b[1])
        self.wr, self.rd = a[1], b[0]

    def ask(self, c):
        os.write(self.wr, c)
        r = os.read(self.rd, 1)
        return r == b'1' if r else None

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        os.close(self.wr)
        os.close(self.rd)


def process_unit(tier):
    def fn(ctx):
        depth = 5 if tier == 'quick' else 8
        fn_ = os.path.join(ctx.scratch, 'plock')
        procs = [Proc(fn_), Proc(fn_)]
        ops = [(p, c) for p in (0, 1) for c in 'nr']
        for seq in itertools.product(ops, repeat=depth):
            with ctx.case(('processes', seq)):
                depthc = [0, 0]
                for p, c in seq:
                    got = procs[p].ask(c.encode())
                    if c == 'n':
                        want = depthc[1-p] == 0
                        ctx.equal(got, want, 'processes', 'acquire by %i after %s' % (p, depthc))
                        if want:
                            depthc[p] += 1
                    elif depthc[p]:
                        depthc[p] -= 1
                    ctx.step()
                for p in (0, 1):
                    ctx.equal(procs[p].ask(b'l'), depthc[p] > 0, 'locked')
                ctx.state(('p', tuple(depthc)))
                for p in (0, 1):
                    for _ in range(depthc[p]):
                        procs[p].ask(b'r')
        # a timed acquire against a holder in another process
        with ctx.case(('processes', 'timeout')):
            procs[0].ask(b'n')
            ctx.equal(procs[1].ask(b't'), False, 'processes', 'timed acquire of a held lock')
            procs[0].ask(b'r')
            ctx.equal(procs[1].ask(b't'), True, 'processes', 'timed acquire of a free lock')
            procs[1].ask(b'r')
        # death of the holder
        for nest in (1, 2, 3):
            with ctx.case(('processes', 'death of the holder', nest)):
                for _ in range(nest):
                    ctx.equal(procs[0].ask(b'n'), True, 'processes')
                ctx.equal(procs[1].ask(b'n'), False, 'processes')
                procs[0].kill()
                ctx.equal(procs[1].ask(b'n'), True, 'processes', 'the lock of a dead process')
                ctx.equal(procs[1].ask(b'r'), True, 'processes')
                procs[0] = Proc(fn_)
        for p in procs:
            p.kill()
    return fn


def single_unit(tier):
    """One thread: all sequences of operations against a counter."""
    def fn(ctx):
        depth = 5 if tier == 'quick' else 7
        for kind in ('file', 'memory'):
            for seq in itertools.product('ANTR', repeat=depth):
                with ctx.case((kind, seq)):
                    lock = FileLock(os.path.join(ctx.scratch, 'single')) if kind == 'file' else MemoryLock('single')
                    n = 0
                    for op in seq:
                        if op == 'R':
                            if n == 0:
                                continue
                            lock.release()
                            n -= 1
                        else:
                            r = {'A': lambda: lock.acquire(), 'N': lambda: lock.acquire(blocking=False), 'T': lambda: lock.acquire(timeout=0.1)}[op]()
                            ctx.check(r is True, 'nesting', 'acquire of a lock this thread may have returned %r' % (r,))
                            n += 1
                        ctx.equal(lock.locked(), n > 0, 'locked', 'after %r with %i held' % (op, n))
                        ctx.step()
                    if kind == 'file':
                        # nobody else can have it while it is held
                        pid = os.fork()
                        if pid == 0:
                            try:
                                os._exit(0 if FileLock(os.path.join(ctx.scratch, 'single')).acquire(blocking=False) is True else 7)
                            finally:
                                os._exit(9)
                        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                        ctx.equal(st, 0 if n == 0 else 7, 'nesting', 'another process with %i held here' % n)
                    # dropping the object gives the lock back
                    del lock
                    gc.collect()
                    ctx.state((kind, n))
                    if kind == 'file':
                        other = FileLock(os.path.join(ctx.scratch, 'single'))
                        ctx.check(other.acquire(blocking=False), 'dropped', 'the lock of a dropped object is still held')
                        other.release()
        # locks that cannot be taken
        for how in ('missing directory', 'directory'):
            with ctx.case(('cannot lock', how)):
                d = os.path.join(ctx.scratch, 'no', how.replace(' ', '_'))
                if how == 'directory':
                    os.makedirs(os.path.join(d, 'l.lock'))
                lock = FileLock(os.path.join(d, 'l'))
                for b in (False, True, False):
                    ctx.raises(OSError, lambda: lock.acquire(blocking=b), 'cannot-lock')
                    ctx.check(not lock.locked(), 'cannot-lock', 'locked() after a failed acquire')
                if how == 'directory':
                    os.rmdir(os.path.join(d, 'l.lock'))
                else:
                    os.makedirs(d)
                ctx.check(lock.acquire(blocking=False) is True, 'cannot-lock', 'lock not usable after an error')
                lock.release()
        # errors inside a with block give the lock back
        for kind in ('file', 'memory'):
            with ctx.case(('error in a with block', kind)):
                lock = FileLock(os.path.join(ctx.scratch, 'w')) if kind == 'file' else MemoryLock('w')
                for nest in (1, 2):
                    try:
                        with lock:
                            if nest == 2:
                                with lock:
                                    raise KeyError('x')
                            raise KeyError('x')
                    except KeyError:
                        pass
                    ctx.check(not lock.locked(), 'with', 'lock held after an error in a with block')
    return fn


def units(tier):
    names = sorted(PROGRAMS)
    pairs = [p for p in itertools.product(names, repeat=2) if p != ('stray', 'stray')]
    if tier == 'quick':
        pairs = [p for p in pairs if not ({'twice', 'with'} & set(p)) or p in (('lock', 'twice'), ('lock', 'with'))]
    out = {}
    for kind in ('file', 'memory'):
        for shared in ((True, False) if kind == 'file' else (True,)):
            combos = pairs if shared else [p for p in pairs if p[0] <= p[1]]
            n = 8 if kind == 'file' else 1
            for i in range(n):
                out['pairs %s %s %i' % (kind, 'shared' if shared else 'separate', i)] = pairs_unit(kind, shared, combos[i::n], tier)
            out['triples %s %s' % (kind, 'shared' if shared else 'separate')] = triples_unit(kind, shared, tier)
    out['processes'] = process_unit(tier)
    out['single'] = single_unit(tier)
    return out
