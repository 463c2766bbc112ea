"""
vmc - a very small bounded model checking kit for a Python/C++ library.

A *driver* (checks/<ID>_*.py) enumerates, exhaustively within stated bounds,
operation histories / input shapes / fault points / thread schedules of the
real code in /repo and compares every observation with a reference model.  The
kit supplies

  * Ctx        - per-unit bookkeeping: executions, transitions, distinct states
  * supervise  - runs every unit of a driver in a forked child, so that a crash
                 or a hang of the code under test is itself an observation
  * sequences / choose - exhaustive enumeration helpers
"""

import os
import sys
import json
import time
import mmap
import struct
import signal
import hashlib
import itertools
import traceback
import resource
import shutil


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    """The property does not hold for the case being executed."""
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Skip(Exception):
    """The rest of the case is not meaningful (not a violation)."""


def _h(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest()


class _Case(object):
    def __init__(self, ctx, desc):
        self.ctx, self.desc = ctx, desc

    def __enter__(self):
        ctx = self.ctx
        ctx.executions += 1
        ctx._crumb(self.desc)
        if len(ctx.samples) < 3 or (ctx.executions & (ctx.executions - 1)) == 0 and len(ctx.samples) < 12:
            ctx.samples.append(self.desc if isinstance(self.desc, str) else repr(self.desc))
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if et is Skip:
            return True
        if et is Fail:
            self.ctx._violation(ev.key, self.desc, ev.msg)
            return True
        if issubclass(et, (KeyboardInterrupt, MemoryError, SystemExit)) and et is not SystemExit:
            return False
        # An exception nobody expected that escaped from the code under test
        text = ''.join(traceback.format_exception(et, ev, tb)[-6:])
        self.ctx._violation('exception:%s' % et.__name__, self.desc, 'unexpected %s: %s\n%s' % (et.__name__, ev, text))
        return True


class Ctx(object):
    MAXV = 12

    def __init__(self, unit, tier, scratch, crumb=None):
        self.unit, self.tier, self.scratch = unit, tier, scratch
        self.executions = 0
        self.transitions = 0
        self._states = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.capped = []
        self._mm = crumb
        self._n = 0
        self.only = None

    # -- bookkeeping
    def _crumb(self, desc):
        if self._mm is None:
            return
        self._n += 1
        text = (desc if isinstance(desc, str) else repr(desc)).encode('utf-8', 'backslashreplace')[:3900]
        self._mm[0:8] = struct.pack('<Q', self._n)
        self._mm[8:12] = struct.pack('<I', len(text))
        self._mm[12:12+len(text)] = text

    def alive(self):
        """Tell the supervisor that a long case is still making progress."""
        if self._mm is not None:
            self._n += 1
            self._mm[0:8] = struct.pack('<Q', self._n)

    def case(self, desc=None, **kw):
        return _Case(self, kw if desc is None else desc)

    def step(self, n=1):
        self.transitions += n

    def state(self, key):
        """Record a (canonical) state; True if it has not been seen before."""
        h = _h(key)
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def outcome(self, key):
        self.outcomes.add(_h(key))

    def _violation(self, key, desc, msg):
        self.violations.append({'unit': self.unit, 'key': key, 'case': desc if isinstance(desc, str) else repr(desc), 'message': msg})
        if len(self.violations) >= self.MAXV:
            raise TooMany()

    # -- oracles
    def fail(self, key, msg):
        raise Fail(key, msg)

    def check(self, cond, key, msg='', **info):
        if not cond:
            raise Fail(key, (msg() if callable(msg) else (msg or key)) + _info(info))

    def equal(self, got, want, key, what='', **info):
        if not (got == want):
            raise Fail(key, '%s: got %s, expected %s%s' % (what or key, _short(got), _short(want), _info(info)))

    def raises(self, excs, fn, key, what='', **info):
        """fn() must raise one of excs; returns the exception."""
        if not isinstance(excs, (type, tuple)):
            excs, fn = fn, excs
        what = str(what or key) + _info(info)
        try:
            r = fn()
        except excs as e:
            return e
        except Exception as e:
            raise Fail(key, '%s: raised %s (%s) instead of %s' % (what or key, type(e).__name__, e, excs))
        raise Fail(key, '%s: returned %s instead of raising %s' % (what or key, _short(r), excs))

    def result(self):
        return {'unit': self.unit, 'executions': self.executions, 'transitions': self.transitions,
                'states': sorted(h.hex() for h in self._states), 'outcomes': len(self.outcomes),
                'samples': self.samples, 'violations': self.violations, 'capped': self.capped}


class TooMany(Exception):
    pass


def _info(info):
    return ''.join('; %s=%s' % (k, _short(v() if callable(v) else v)) for k, v in info.items())


def _short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def sequences(alphabet, depth, min_depth=0):
    """All sequences over alphabet of length min_depth..depth, shortest first."""
    for n in range(min_depth, depth+1):
        yield from itertools.product(alphabet, repeat=n)


# ---------------------------------------------------------------------------

def _child(fn, unit, tier, scratch, crumb, out):
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        ctx = Ctx(unit, tier, scratch, crumb)
        try:
            fn(ctx)
        except TooMany:
            pass
        except (Fail, Exception) as e:
            # outside of any case
            ctx.violations.append({'unit': unit, 'key': getattr(e, 'key', 'exception:%s' % type(e).__name__),
                                   'case': '<unit>', 'message': ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])})
        with open(out + '.tmp', 'w') as fh:
            json.dump(ctx.result(), fh)
        os.rename(out + '.tmp', out)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        os._exit(code)


def supervise(units, tier, scratch, jobs=8, hang_s=180, total_s=840, verbose=False):
    """
    Run {name: fn(ctx)} with one forked child per unit.  Returns the list of
    unit results; a crash/hang of a child becomes a violation of its own.
    """
    pending = list(units.items())
    running = {}
    results = []
    t0 = time.time()
    seq = 0
    while pending or running:
        while pending and len(running) < jobs:
            name, fn = pending.pop(0)
            seq += 1
            mm = mmap.mmap(-1, 4096)
            out = os.path.join(scratch, 'result-%i.json' % seq)
            sub = os.path.join(scratch, 'unit-%i' % seq)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                _child(fn, name, tier, sub, mm, out)
            running[pid] = dict(name=name, mm=mm, out=out, sub=sub, n=0, t=time.time(), start=time.time())
        time.sleep(0.02)
        for pid in list(running):
            r = running[pid]
            n = struct.unpack('<Q', r['mm'][0:8])[0]
            if n != r['n']:
                r['n'], r['t'] = n, time.time()
            done, status = os.waitpid(pid, os.WNOHANG)
            why = None
            if not done:
                if time.time() - r['t'] > hang_s:
                    why = 'hang: no progress for %i s' % hang_s
                elif time.time() - t0 > total_s:
                    why = 'timeout'
                if why:
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                else:
                    continue
            else:
                try:
                    os.killpg(pid, signal.SIGKILL)   # whatever it left running
                except (ProcessLookupError, PermissionError):
                    pass
            del running[pid]
            ln = struct.unpack('<I', r['mm'][8:12])[0]
            crumb = r['mm'][12:12+ln].decode('utf-8', 'replace')
            res = None
            if os.path.exists(r['out']):
                with open(r['out']) as fh:
                    res = json.load(fh)
            elif why == 'timeout':
                raise RuntimeError('unit %s did not finish within the time limit (case %s)' % (r['name'], crumb))
            else:
                if why is None:
                    if os.WIFSIGNALED(status):
                        why = 'crash: killed by signal %i' % os.WTERMSIG(status)
                    else:
                        raise RuntimeError('unit %s: harness error, exit status %i (case %s)' % (r['name'], os.WEXITSTATUS(status), crumb))
                res = {'unit': r['name'], 'executions': r['n'], 'transitions': 0, 'states': [], 'outcomes': 0, 'samples': [],
                       'violations': [{'unit': r['name'], 'key': why.split(':')[0], 'case': crumb, 'message': why}], 'capped': []}
            res['wall'] = time.time() - r['start']
            if verbose:
                print('  unit %-40s %8i executions %9i transitions %8i states %5.1f s %s'
                      % (res['unit'], res['executions'], res['transitions'], len(res['states']), res['wall'],
                         'VIOLATIONS %i' % len(res['violations']) if res['violations'] else ''), flush=True)
            results.append(res)
            shutil.rmtree(r['sub'], ignore_errors=True)
    return results
