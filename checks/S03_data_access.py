"""
S03 - data files are complete or absent.

An in-process server (a urllib opener) answers for the two LSL servers; every
combination of fault kind and fault position of both servers, of what is in the
cache already, and every crash point (each executed line) of a download.
"""
import io
import os
import gc
import sys
import time
import gzip
import socket
import calendar
import warnings
import itertools
import urllib.error
import urllib.request
import urllib.response
from email.message import Message
from http.client import IncompleteRead

import vmc
import sched
sched.install()
import lsl.misc.file_lock as FL
import lsl.misc.file_cache as FC
import lsl.common.data_access as DA
from lsl.common.data_access import DataAccess, check_url, download_file
from lsl.common.paths import DATA as DATA_PATH
from lsl.config import LSL_CONFIG

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

BOUNDS = ('all contents of 1-3 (thorough: 4) blocks of 6 kinds and 5 tails from every source; all pairs of 20 behaviours of the two servers x cache empty/fresh/old x on-disk/in-memory cache, two fetches each; all lines of a fetch or refresh as crash points; all schedules '
          'with at most 1 (thorough: 2) preemptions of two threads that fetch the same file')
HANG_S = 200
FILES = {FL.__file__, FC.__file__, DA.__file__}
NAME = 'verif/thing.txt'
MAIN = b'main server file\n' + bytes(range(48, 80)) + b'\nend of main\n'
BACK = b'backup server file\n' + bytes(range(48, 90)) + b'\nend of backup\n'
OLD = b'the old contents of the file\nsecond line\n'
BLOCK = 16


class Body(io.BytesIO):
    """A response body that fails at its n-th read."""
    def __init__(self, data, fail_at=None, exc=None):
        super().__init__(data)
        self.left, self.exc = fail_at, exc

    def read(self, *a):
        if self.left is not None:
            if self.left == 0:
                raise self.exc
            self.left -= 1
        return super().read(*a)


def behaviours(content):
    """name -> (complete?, function(method) -> response)"""
    def respond(data, headers=None, fail_at=None, exc=None, status=200, length=None, mtime='Mon, 02 Jan 2023 03:04:05 GMT'):
        def fn(req):
            msg = Message()
            if length != 'none':
                msg['Content-Length'] = str(len(data) if length is None else length)
            if mtime is not None:
                msg['Last-Modified'] = mtime
            for k, v in (headers or {}).items():
                msg[k] = v
            head = req.get_method() == 'HEAD'
            r = urllib.response.addinfourl(Body(b'' if head else data, None if head else fail_at, exc), msg, req.full_url, status)
            r.msg = 'OK'
            return r
        return fn

    def error(exc):
        def fn(req):
            raise exc
        return fn

    def http(code):
        def fn(req):
            raise urllib.error.HTTPError(req.full_url, code, 'nope', Message(), io.BytesIO(b'sorry'))
        return fn
    z = gzip.compress(content)
    n = len(content)
    out = {
        'ok': (True, respond(content)),
        'ok-gzip': (True, respond(z, {'Content-Encoding': 'gzip'})),
        'ok-no-length': (True, respond(content, length='none')),
        'ok-no-mtime': (True, respond(content, mtime=None)),
        '404': (False, http(404)),
        '500': (False, http(500)),
        'refused': (False, error(urllib.error.URLError(ConnectionRefusedError(111, 'refused')))),
        'timeout-connect': (False, error(socket.timeout('timed out'))),
        'short-0': (False, respond(b'', length=n)),
        'short-1': (False, respond(content[:-1], length=n)),
        'short-block': (False, respond(content[:2*BLOCK], length=n)),
        'empty': (False, respond(b'')),
        'reset-0': (False, respond(content, fail_at=0, exc=ConnectionResetError(104, 'reset'))),
        'reset-2': (False, respond(content, fail_at=2, exc=ConnectionResetError(104, 'reset'))),
        'timeout-1': (False, respond(content, fail_at=1, exc=socket.timeout('timed out'))),
        'incomplete': (False, respond(content, fail_at=3, exc=IncompleteRead(b'x', 10))),
        'gzip-short': (False, respond(z[:-9], {'Content-Encoding': 'gzip'})),
        'gzip-bad': (False, respond(z[:12] + b'\xff\xff\xff\xff' + z[16:], {'Content-Encoding': 'gzip'})),
        'bad-mtime': (False, respond(content, mtime='yesterday')),
        'bad-length': (False, respond(content, length='many')),
    }
    return out




class Server(urllib.request.BaseHandler):
    handler_order = 10
    main = back = None
    log = []

    def answer(self, req):
        host = req.host
        Server.log.append((host, req.get_method(), req.get_header('Range')))
        if 'fornax' in host:
            return Server.main(req)
        if 'leo' in host:
            return Server.back(req)
        if 'other' in host:
            return Server.main(req)
        raise urllib.error.URLError('no such host ' + host)

    http_open = https_open = answer


def install():
    op = urllib.request.OpenerDirector()
    op.add_handler(Server())
    op.add_handler(urllib.request.HTTPDefaultErrorHandler())
    urllib.request.install_opener(op)
    LSL_CONFIG.set('download.block_size', BLOCK)


def fresh(ctx, kind, tag='lsl'):
    """A new data access object with its own cache."""
    base = os.path.join(ctx.scratch, tag)
    if kind == 'memory':
        with open(base, 'w') as fh:
            fh.write('not a directory')
        type(LSL_CONFIG).dirname = os.path.join(base, 'x')
    else:
        os.makedirs(base, exist_ok=True)
        type(LSL_CONFIG).dirname = base
    return type(DataAccess)()


def put(da, name, data, mtime):
    """Place a file with the given age in the cache through the public interface."""
    Server.main = lambda req: behaviours(data)['ok'][1](req)
    with da.open(name, 'rb') as fh:
        assert fh.read() == data
    cache = da._data_cache
    if hasattr(cache, 'cache_dir'):
        os.utime(os.path.join(cache.cache_dir, name), (mtime, mtime))
    else:
        cache._cache[name]._mtime = mtime


def clean(da):
    for n in (NAME, NAME + '_meta'):
        da.remove(n)


def read(da, name=NAME):
    with da.open(name, 'rb') as fh:
        return fh.read()


SERVER_MTIME = calendar.timegm((2023, 1, 2, 3, 4, 5))


def fault_unit(kind, state, tier):
    def fn(ctx):
        install()
        A, B = behaviours(MAIN), behaviours(BACK)
        da = fresh(ctx, kind)
        for a, b in itertools.product(A, B):
            with ctx.case((kind, state, a, b)):
                clean(da)
                if state != 'empty':
                    # fresh: too young to be looked at; old: before the server's time; current: old but not before the server's time
                    mt = {'fresh': time.time() - 3600, 'old': SERVER_MTIME - 1000.0, 'current': SERVER_MTIME + 1000.0}[state]
                    put(da, NAME, OLD, mt)
                okA, Server.main = A[a]
                okB, Server.back = B[b]
                Server.log = []
                want = MAIN if okA else BACK if okB else None
                if state == 'empty':
                    if want is None:
                        ctx.raises(RuntimeError, lambda: read(da), 'failed', 'no server has the file')
                        ctx.check(NAME not in da._data_cache, 'failed', 'a failed download is in the cache')
                    else:
                        ctx.equal(read(da), want, 'contents', 'downloaded file')
                elif state in ('fresh', 'current'):
                    ctx.equal(read(da), OLD, 'contents', 'a %s cached file' % state)
                    if state == 'fresh':
                        ctx.equal(Server.log, [], 'network', 'network use for a fresh file')
                else:
                    # which servers announce a newer version (HEAD)
                    def announces(x):
                        return x in ('ok', 'ok-gzip') or x.startswith(('short', 'reset', 'timeout-1', 'incomplete', 'gzip', 'empty'))
                    got = read(da)
                    allowed = {OLD}
                    if okA or okB:
                        allowed.add(want)
                    ctx.check(got in allowed, 'refresh', lambda: 'contents after a refresh: %r' % got)
                    if announces(a) and okA:
                        ctx.equal(got, MAIN, 'refresh', 'a newer file was not taken')
                    if a in ('404', '500', 'refused', 'timeout-connect') and announces(b) and okB:
                        ctx.equal(got, BACK, 'refresh', 'a newer file of the backup server was not taken')
                    if not okA and not okB:
                        ctx.equal(got, OLD, 'refresh', 'the old file after a failed refresh')
                ctx.step()
                # What is in the cache stays the same without the servers ...
                Server.main = Server.back = A['404'][1]
                try:
                    have = read(da)
                except RuntimeError:
                    have = None
                ctx.check(have in (MAIN, BACK, OLD, None), 'contents', lambda: 'incomplete file in the cache: %r' % have)
                if state != 'empty' or want is not None:
                    ctx.check(have is not None, 'lost', 'the cached file is gone')
                # ... and once they work again a missing file is obtained
                Server.main = A['ok'][1]
                have2 = read(da)
                ctx.equal(have2, MAIN if have is None else have if state != 'old' or have != OLD else have2, 'recover', 'after the servers are back')
                ctx.check(have2 in (MAIN, BACK, OLD), 'recover', 'incomplete contents')
                ctx.equal(da.getsize(NAME), len(have2), 'getsize')
                ctx.step(3)
                ctx.state((kind, state, have, have2))
                # nothing else is left in the cache
                if kind == 'disk':
                    left = sorted(os.listdir(os.path.join(da._data_cache.cache_dir, 'verif')))
                    ctx.check(set(left) <= {'thing.txt', 'thing.txt_meta'}, 'left-over', lambda: 'files in the cache: %s' % left)
    return fn


def local_unit(tier):
    """Files of the installation are used as they are."""
    def fn(ctx):
        install()
        Server.main = Server.back = behaviours(MAIN)['ok'][1]
        da = fresh(ctx, 'disk')
        found = []
        for root, _, names in os.walk(DATA_PATH):
            for n in sorted(names):
                fp = os.path.join(root, n)
                if os.path.getsize(fp) < 5e6:
                    found.append(os.path.relpath(fp, DATA_PATH))
        for name in found:
            with ctx.case(('local', name)):
                Server.log = []
                with open(os.path.join(DATA_PATH, name), 'rb') as fh:
                    want = fh.read()
                got = read(da, name)
                if len(want) >= 3:
                    ctx.check(got == want, 'local', '%s differs from the installed file' % name)
                    ctx.equal(Server.log, [], 'local', 'network use')
                # and again, after an age that makes it a candidate for refreshing
                p = os.path.join(da._data_cache.cache_dir, name)
                os.utime(p, (1e9, 1e9))
                Server.main = Server.back = behaviours(MAIN)['404'][1]
                ctx.check(read(da, name) == want, 'local', 'refreshed copy of %s' % name)
                Server.main = Server.back = behaviours(MAIN)['ok'][1]
                ctx.step(2)
                ctx.state(name)
                os.unlink(p)
    return fn


def direct_unit(tier):
    """download_file and check_url themselves."""
    def fn(ctx):
        install()
        for size in (0, 1, 2, BLOCK-1, BLOCK, BLOCK+1, 3*BLOCK, 5*BLOCK+3):
            content = bytes((i*7 + 3) % 251 for i in range(size))
            for name, (ok, f) in behaviours(content).items():
                for target in ('name', 'handle'):
                    for rng in (None, 10, (3, 9), [0, 4]):
                        with ctx.case((size, name, target, rng)):
                            Server.main = f
                            Server.log = []
                            fn_ = os.path.join(ctx.scratch, 'dl')
                            if target == 'name':
                                r = download_file('https://other.host/x/y.txt', fn_, byte_range=rng, verbose=False)
                            else:
                                with open(fn_, 'wb') as fh:
                                    r = download_file('https://other.host/x/y.txt', fh, byte_range=rng, verbose=True)
                            got = open(fn_, 'rb').read()
                            if ok:
                                ctx.equal(got, content, 'download', 'file written')
                                body = len(gzip.compress(content)) if 'gzip' in name else size
                                ctx.equal(tuple(r), (0 if name == 'ok-no-length' else body, body, 0.0 if name == 'ok-no-mtime' else SERVER_MTIME), 'download', 'size, received, time')
                            elif size > 2*BLOCK+1 and name != 'empty':
                                ctx.equal(tuple(r), (0, 0, 0.0), 'download', 'result of a failed download')
                            wr = None if rng is None else 'bytes=0-10' if rng == 10 else 'bytes=%i-%i' % tuple(rng)
                            ctx.equal([x[2] for x in Server.log], [wr], 'range', 'Range header')
                            # polling
                            Server.log = []
                            r = check_url('https://other.host/x/y.txt', byte_range=rng, verbose=False)
                            ctx.equal([x[1:] for x in Server.log], [('HEAD', wr)], 'range', 'polling request')
                            if name in ('ok', 'ok-no-mtime', 'ok-gzip'):
                                body = len(gzip.compress(content)) if 'gzip' in name else size
                                ctx.equal(tuple(r), (body, 0.0 if name == 'ok-no-mtime' else SERVER_MTIME), 'poll', 'size and time')
                            elif name in ('404', '500', 'refused', 'timeout-connect'):
                                ctx.equal(tuple(r), (0, 0.0), 'poll', 'result of a failed poll')
                            ctx.step(2)
                            ctx.state((size, name, tuple(r)))
        with ctx.case('bad byte range'):
            for rng in ((1, 2, 3), [1]):
                ctx.raises(ValueError, lambda: download_file('https://other.host/y', os.path.join(ctx.scratch, 'dl'), byte_range=rng), 'range')
                ctx.raises(ValueError, lambda: check_url('https://other.host/y', byte_range=rng), 'range')
            with open(os.path.join(ctx.scratch, 'dl'), 'w') as fh:
                ctx.raises(RuntimeError, lambda: download_file('https://other.host/y', fh), 'mode', 'text mode')
    return fn


def contents_unit(kind, source, tier):
    """Files of every shape, in blocks, from every source come out whole."""
    def fn(ctx):
        install()
        da = fresh(ctx, kind)
        blocks = {'text': b'abcdefghijklmno\n', 'blank': b' '*BLOCK, 'lines': b'\n'*BLOCK, 'nul': bytes(BLOCK), 'high': b'\xff\xfe'*(BLOCK//2), 'crlf': b'\r\n'*(BLOCK//2)}
        tails = [b'', b'\n', b'\0', b'x', b'xyz\n']
        base = os.path.join(ctx.scratch, 'installed')
        if source == 'local':
            if not hasattr(DA, 'DATA_PATH'):
                raise vmc.Skip('no seam for the installed data')
            DA.DATA_PATH = base
            os.makedirs(os.path.join(base, 'verif'))
        for n in range(1, 4 if tier == 'quick' else 5):
            for seq in itertools.product(blocks, repeat=n):
                for tail in tails:
                    with ctx.case((kind, source, seq, tail)):
                        want = b''.join(blocks[b] for b in seq) + tail
                        clean(da)
                        none = behaviours(want)['404'][1]
                        Server.main = Server.back = none
                        if source == 'local':
                            with open(os.path.join(base, NAME), 'wb') as fh:
                                fh.write(want)
                        else:
                            b = behaviours(want)
                            Server.main = b['ok' if source == 'main' else 'ok-gzip' if source == 'gzip' else 'ok-no-length'][1]
                        ctx.equal(read(da), want, 'contents', 'file obtained')
                        Server.main = none
                        ctx.equal(read(da), want, 'contents', 'file in the cache')
                        ctx.equal(da.getsize(NAME), len(want), 'getsize')
                        ctx.step(2)
                        ctx.state((kind, source, n, len(tail)))
    return fn


class Crash(object):
    """os._exit at the n-th line of the code under test."""
    def __init__(self, n):
        self.n = n
        self.seen = 0

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename in FILES:
            return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.seen += 1
            if self.seen == self.n:
                os._exit(9)
        return self.local


def crash_unit(state, what, tier):
    def fn(ctx):
        install()
        A, B = behaviours(MAIN), behaviours(BACK)
        da = fresh(ctx, 'disk', 'crash')
        n = 0
        while True:
            n += 1
            done = False
            with ctx.case(('crash', state, what, 'line %i' % n)):
                clean(da)
                Server.main, Server.back = A['ok'][1], A['404'][1]
                if state == 'old':
                    put(da, NAME, OLD, SERVER_MTIME - 1000.0)
                Server.main, Server.back = A['ok' if what == 'main' else '404'][1] if what != 'gzip' else A['ok-gzip'][1], B['ok'][1]
                gc.collect()
                pid = os.fork()
                if pid == 0:
                    try:
                        tr = Crash(n)
                        sys.settrace(tr)
                        read(da)
                        sys.settrace(None)
                        os._exit(0)
                    finally:
                        os._exit(3)
                st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                ctx.check(st in (0, 9), 'crash', 'exit status %i' % st)
                done = st == 0
                # without a network, whatever is there is complete
                Server.main = Server.back = A['404'][1]
                other = type(DataAccess)()
                try:
                    have = read(other)
                except RuntimeError:
                    have = None
                ctx.check(have in ((None, MAIN, BACK) if state == 'empty' else (OLD, MAIN, BACK)), 'crash', lambda: 'after a crash the cached file is %r' % (have,))
                Server.main = A['ok'][1]
                got = read(other)
                ctx.check(got in ((MAIN, BACK) if state == 'empty' else (OLD, MAIN, BACK)), 'crash', lambda: 'after a crash and a retry: %r' % (got,))
                ctx.step(3)
                ctx.state((state, what, have, got))
            if done or n > 3000:
                break
    return fn


def thread_unit(kind, state, tier):
    def fn(ctx):
        install()
        A, B = behaviours(MAIN), behaviours(BACK)
        da = fresh(ctx, kind, 'threads')
        for a, b in ((('ok', 'ok'), ('404', 'short-block')) if tier == 'quick' else (('ok', 'ok'), ('404', 'ok'), ('short-block', 'ok'), ('404', 'short-block'))):
            with ctx.case((kind, state, a, b)):
                def mk():
                    clean(da)
                    if state == 'old':
                        put(da, NAME, OLD, SERVER_MTIME - 1000.0)
                    Server.main, Server.back = A[a][1], B[b][1]
                    got = {}

                    def body(i):
                        def run():
                            try:
                                got[i] = read(da if kind == 'memory' or i == 0 else das)
                            except RuntimeError:
                                got[i] = None
                        return run
                    das = da if kind == 'memory' else other
                    want = MAIN if A[a][0] else BACK if B[b][0] else None

                    def judge(s, prefix):
                        ctx.step(s.points)
                        ctx.check(s.abort is None, 'deadlock', lambda: 'threads never finish: %s' % (list(prefix),))
                        for t in s.threads:
                            if t.exc is not None:
                                ctx.fail('exception', 'thread %i: %s: %s (%s)' % (t.i, type(t.exc).__name__, t.exc, list(prefix)))
                        for i in (0, 1):
                            ok = {want} if state == 'empty' else {want, OLD} - {None}
                            ctx.check(got[i] in ok, 'concurrent', lambda: 'thread %i got %r (schedule %s)' % (i, got[i], list(prefix)))
                        ctx.state((kind, state, a, b, got[0], got[1]))
                    return [body(0), body(1)], judge
                other = type(DataAccess)() if kind == 'disk' else None
                n, p, full = sched.explore(mk, FILES, 1 if tier == 'quick' else 2, ctx)
                ctx.executions += n
    return fn


def units(tier):
    out = {}
    for kind in ('disk', 'memory'):
        for state in ('empty', 'fresh', 'old', 'current'):
            out['faults %s %s' % (kind, state)] = fault_unit(kind, state, tier)
        for state in ('empty', 'old'):
            out['threads %s %s' % (kind, state)] = thread_unit(kind, state, tier)
    for state in ('empty', 'old'):
        for what in ('main', 'backup', 'gzip'):
            out['crash %s %s' % (state, what)] = crash_unit(state, what, tier)
    for source in ('local', 'main', 'gzip', 'no-length'):
        out['contents disk %s' % source] = contents_unit('disk', source, tier)
    out['contents memory main'] = contents_unit('memory', 'main', tier)
    out['local'] = local_unit(tier)
    out['direct'] = direct_unit(tier)
    return out
