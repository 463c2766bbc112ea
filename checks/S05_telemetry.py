"""
S05 - telemetry obeys the user and never disturbs what it measures.

All short histories of tracked calls and control operations against a counter
model; all states of the upload helper; all schedules of two tracking threads.
"""
import os
import io
import sys
import json
import glob
import time
import itertools
import subprocess
import urllib.error
import urllib.request
import urllib.response
import urllib.parse
from email.message import Message

import sched
sched.install()
_popen = subprocess.Popen
from lsl.misc import telemetry as T
from lsl.misc import _telemetry_send as TS
import lsl.config
import importlib
import logging
logging.disable(logging.CRITICAL)

BOUNDS = ('all histories of 5 (quick) / 6 (thorough) of 9 operations (tracked calls, failing calls, enable, disable, ignore, write, tick); all schedules with at most 2 preemptions of two tracking threads; '
          'all combinations of log ages, log contents and server answers of the uploader; new sessions with telemetry on and off')
HANG_S = 200
REPO = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules['lsl'].__file__)))
CODE = '''
from lsl.misc import telemetry
@telemetry.track_function
def f(x, y=2): return ('f', x, y)
@telemetry.track_function_timed
def g(*a, **k): return ('g', a, k)
@telemetry.track_function
def bad(x): raise KeyError(x)
@telemetry.track_function_timed
def badt(x): raise KeyError(x)
@telemetry.track_class
class K(object):
    def __init__(self, v=1): self.v = v
    @telemetry.track_method
    def m(self, x): return (self.v, x)
    @telemetry.track_method_timed
    def mt(self, x=3): return [self.v, x]
    @telemetry.track_method
    def badm(self): raise ValueError('m')
class Sub(K):
    pass
'''


def own(ctx):
    """A configuration and telemetry area of this unit's own."""
    global LSL_CONFIG
    os.environ['LSLCONFIGDIR'] = os.path.join(ctx.scratch, 'cfg')
    importlib.reload(lsl.config)
    importlib.reload(T)
    LSL_CONFIG = lsl.config.LSL_CONFIG


def functions():
    ns = {'__name__': 'lsl.verif.things', '__file__': '/x/things.py'}
    exec(compile(CODE, 'things', 'exec'), ns)
    return ns


def cache_dir():
    return os.path.join(LSL_CONFIG.dirname, 'telemetry_cache')


def logs():
    return sorted(glob.glob(os.path.join(cache_dir(), 'telemetry_*.log')))


def totals():
    out = {}
    for f in logs():
        with open(f) as fh:
            d = json.load(fh)
        for n, i in d['calls'].items():
            o = out.setdefault(n, [0, 0])
            o[0] += i['total_count']
            o[1] += i['timed_count']
    return {n: tuple(v) for n, v in out.items()}


class Clk(object):
    now = 1.7e9
    step = 0.0


def client():
    return T._telemetry_client


def reset(max_entries):
    for f in logs():
        os.unlink(f)
    T.enable()
    c = client()
    c.clear()
    c.max_entries = max_entries


OPS = ('f', 'g', 'bad', 'm', 'enable', 'disable', 'ignore', 'write', 'tick')


def history_unit(first, tier):
    def fn(ctx):
        depth = 5 if tier == 'quick' else 6
        own(ctx)
        ns = functions()
        real = time.time
        k = ns['K'](7)

        def now():
            Clk.now += Clk.step
            return Clk.now
        time.time = now
        Clk.step = 1e-3
        for rest in itertools.product(OPS, repeat=depth-1):
            seq = (OPS[first],) + rest
            for maxe in (2, 100):
                with ctx.case((maxe, seq)):
                    reset(maxe)
                    active, pend, done = True, {}, {}

                    def flush():
                        if active:
                            for n, v in pend.items():
                                o = done.get(n, (0, 0))
                                done[n] = (o[0]+v[0], o[1]+v[1])
                        pend.clear()

                    def count(n, timed):
                        if active:
                            o = pend.get(n, (0, 0))
                            pend[n] = (o[0]+1, o[1]+timed)
                            if len(pend) >= maxe:
                                flush()
                    for op in seq:
                        if op == 'f':
                            ctx.equal(ns['f'](1, y=5), ('f', 1, 5), 'result')
                            count('lsl.verif.things.f()', 0)
                        elif op == 'g':
                            ctx.equal(ns['g'](3, z=4), ('g', (3,), {'z': 4}), 'result')
                            count('lsl.verif.things.g()', 1)
                        elif op == 'bad':
                            ctx.raises(KeyError, lambda: ns['bad'](9), 'exception')
                            ctx.raises(KeyError, lambda: ns['badt'](9), 'exception')
                            ctx.raises(ValueError, lambda: k.badm(), 'exception')
                        elif op == 'm':
                            ctx.equal(k.m(4), (7, 4), 'result')
                            count('lsl.verif.things.K.m()', 0)
                            ctx.equal(k.mt(), [7, 3], 'result')
                            count('lsl.verif.things.K.mt()', 1)
                        elif op == 'enable':
                            T.enable()
                            active = True
                        elif op == 'disable':
                            T.disable()
                            active = False
                        elif op == 'ignore':
                            T.ignore()
                            active = False
                        elif op == 'write':
                            client().write()
                            flush()
                        elif op == 'tick':
                            Clk.now += 3.0
                        ctx.equal(T.is_active(), active, 'active', 'is_active() after %s' % op)
                        if op in ('enable', 'disable'):
                            ctx.equal(LSL_CONFIG.get('telemetry.enabled'), active, 'persistent', 'the persistent setting after %s' % op)
                        ctx.step()
                    before = totals()
                    client().write()
                    flush()
                    ctx.equal(totals(), {n: v for n, v in done.items()}, 'counts', 'calls recorded on disk')
                    ctx.state((maxe, active, tuple(sorted(done.items()))))
        time.time = real
    return fn


def names_unit(tier):
    """What is counted under which name; results, signatures and instances are untouched."""
    def fn(ctx):
        own(ctx)
        ns = functions()
        with ctx.case('classes'):
            reset(100)
            s = ns['Sub'](3)
            k = ns['K'](v=5)
            ctx.equal((s.v, k.v), (3, 5), 'result')
            s.m(1)
            k.m(1)
            client().write()
            ctx.equal(totals(), {'lsl.verif.things.K': (1, 0), 'lsl.verif.things.Sub.m()': (1, 0), 'lsl.verif.things.K.m()': (1, 0)}, 'counts')
            ctx.equal(ns['f'].__name__, 'f', 'wraps')
        with ctx.case('only lsl'):
            reset(100)
            other = {'__name__': 'mine', '__file__': '/x/mine.py'}
            exec(compile(CODE, 'mine', 'exec'), other)
            ctx.equal(other['f'](1), ('f', 1, 2), 'result')
            other['K']().m(2)
            client().write()
            ctx.equal(totals(), {}, 'counts', 'calls outside of lsl')
        with ctx.case('payload'):
            reset(100)
            ns['f'](1)
            client().write()
            d = json.load(open(logs()[0]))
            ctx.equal(sorted(d), sorted(['timestamp', 'install_key', 'lsl_version', 'py_version', 'py_platform', 'py_is_venv', 'session_tag', 'elapsed_time', 'calls']), 'payload', 'what is recorded')
        # a cache that cannot be written does not disturb the caller
        with ctx.case('unwritable'):
            reset(1)
            d = cache_dir()
            os.rename(d, d + '.away')
            try:
                for i in range(4):
                    ctx.equal(ns['f'](i), ('f', i, 2), 'result')
                    ctx.equal(ns['g'](), ('g', (), {}), 'result')
            finally:
                os.rename(d + '.away', d)
            client().write()
            ctx.equal(totals(), {'lsl.verif.things.f()': (4, 0), 'lsl.verif.things.g()': (4, totals().get('lsl.verif.things.g()', (0, 0))[1])}, 'counts', 'calls once it can be written again')
    return fn


def thread_unit(tier):
    def fn(ctx):
        own(ctx)
        ns = functions()
        files = {T.__file__}
        for combo in itertools.product(('f', 'fg', 'ff', 'w', 'fw'), repeat=2):
            for maxe in (2, 100):
                with ctx.case(('threads', combo, maxe)):
                    def mk():
                        reset(maxe)

                        def body(prog):
                            def run():
                                for c in prog:
                                    if c == 'w':
                                        client().write()
                                    else:
                                        ns[c](1)
                            return run

                        def judge(s, prefix):
                            ctx.step(s.points)
                            ctx.check(s.abort is None, 'deadlock', lambda: '%s' % (list(prefix),))
                            for t in s.threads:
                                if t.exc is not None:
                                    ctx.fail('exception', '%s: %s (%s)' % (type(t.exc).__name__, t.exc, list(prefix)))
                            client().write()
                            want = {n: ''.join(combo).count(c) for n, c in (('lsl.verif.things.f()', 'f'), ('lsl.verif.things.g()', 'g'))}
                            got = {n: v[0] for n, v in totals().items()}
                            ctx.equal(got, {n: v for n, v in want.items() if v}, 'counts', 'calls of two threads (%s)' % (list(prefix),))
                            ctx.state((combo, maxe, len(logs())))
                        return [body(p) for p in combo], judge
                    n, p, full = sched.explore(mk, files, 1 if tier == 'quick' else 2, ctx)
                    ctx.executions += n
    return fn


class Server(urllib.request.BaseHandler):
    answer = None
    got = []

    def https_open(self, req):
        Server.got.append(json.loads(urllib.parse.parse_qs(req.data.decode())['payload'][0]))
        if isinstance(Server.answer, Exception):
            raise Server.answer
        return urllib.response.addinfourl(io.BytesIO(Server.answer), Message(), req.full_url, 200)

    http_open = https_open


def send_unit(tier):
    def fn(ctx):
        op = urllib.request.OpenerDirector()
        op.add_handler(Server())
        urllib.request.install_opener(op)
        d = os.path.join(ctx.scratch, 'tc')
        os.makedirs(d)
        kinds = ('young', 'old', 'damaged-old', 'damaged-young')
        for logset in itertools.chain.from_iterable(itertools.combinations_with_replacement(kinds, n) for n in range(4)):
            for name, answer in (('ok', b''), ('refused', b'error: go away'), ('down', urllib.error.URLError('x')), ('timeout', TimeoutError())):
                for locked in (False, True):
                    with ctx.case((logset, name, locked)):
                        for f in glob.glob(os.path.join(d, '*')):
                            os.unlink(f)
                        fns = []
                        for i, k in enumerate(logset):
                            p = os.path.join(d, 'telemetry_%i_1.log' % i)
                            with open(p, 'w') as fh:
                                fh.write('{"n": %i, "k": "%s"}' % (i, k) if 'damaged' not in k else '{"n": ')
                            age = 10*86400 if 'old' in k else 3600
                            os.utime(p, (time.time()-age, time.time()-age))
                            fns.append(p)
                        with open(os.path.join(d, 'install.key'), 'w') as fh:
                            fh.write('key')
                        Server.answer, Server.got = answer, []
                        lk = None
                        if locked:
                            import fcntl
                            lk = open(os.path.join(d, 'send.lock'), 'w')
                            fcntl.flock(lk, fcntl.LOCK_EX)
                        TS.main(d, 5)
                        if lk:
                            lk.close()
                        good = [i for i, k in enumerate(logset) if 'damaged' not in k]
                        send = not locked and any('old' in k for k in logset) and bool(good)
                        ctx.equal([sorted(x['n'] for x in g) for g in Server.got], [good] if send else [], 'sent', 'logs uploaded')
                        left = [i for i, p in enumerate(fns) if os.path.exists(p)]
                        if send and name == 'ok':
                            ctx.check(not set(left) & set(good), 'sent', 'uploaded logs are still there and would be counted twice')
                        else:
                            ctx.equal(left, list(range(len(fns))), 'lost', 'logs kept when nothing was accepted')
                        ctx.check(os.path.exists(os.path.join(d, 'install.key')), 'lost', 'the install key')
                        ctx.step()
                        ctx.state((logset, name, locked, len(left)))
    return fn


SESSION = '''
import os, sys, subprocess
calls = []
class P(object):
    def __init__(self, *a, **k): calls.append(a)
subprocess.Popen = P
from lsl.misc import telemetry as T
ns = {'__name__': 'lsl.verif', '__file__': 'x'}
exec("from lsl.misc import telemetry\\n@telemetry.track_function\\ndef f(): return 1\\n", ns)
assert ns['f']() == 1
for op in sys.argv[1].split():
    getattr(T, op)()
assert ns['f']() == 1
sys.stdout.write('%i %i' % (len(calls), T.is_active()))
'''


def session_unit(tier):
    """Whole sessions: the persistent switch decides about the next session."""
    def fn(ctx):
        ops = ('', 'disable', 'ignore', 'disable enable', 'ignore enable')
        for seq in itertools.product(ops, repeat=2):
            with ctx.case(('sessions', seq)):
                cfg = os.path.join(ctx.scratch, 'cfg')
                subprocess.run(['rm', '-rf', cfg])
                os.makedirs(cfg)
                enabled = True
                for op in seq:
                    env = dict(os.environ, LSLCONFIGDIR=cfg, PYTHONPATH=REPO)
                    p = subprocess.run([sys.executable, '-c', SESSION, op], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    ctx.check(p.returncode == 0, 'session', lambda: p.stderr.decode()[-1500:])
                    spawned, active = map(int, p.stdout.split())
                    ctx.equal(spawned, 1 if enabled else 0, 'opt-out', 'upload helpers started')
                    end = enabled
                    for o in op.split():
                        end = o == 'enable'
                    ctx.equal(bool(active), end, 'opt-out', 'active at the end')
                    logs_ = glob.glob(os.path.join(cfg, 'telemetry_cache', 'telemetry_*.log'))
                    ctx.equal(len(logs_) > 0, end, 'opt-out', 'telemetry written by a session with %r' % op)
                    for f in logs_:
                        os.unlink(f)
                    for o in op.split():
                        if o != 'ignore':
                            enabled = o == 'enable'
                    ctx.step()
                ctx.state((seq, enabled))
    return fn


def units(tier):
    out = {}
    for i, o in enumerate(OPS):
        out['history %s' % o] = history_unit(i, tier)
    out['names'] = names_unit(tier)
    out['threads'] = thread_unit(tier)
    out['send'] = send_unit(tier)
    out['sessions'] = session_unit(tier)
    return out
