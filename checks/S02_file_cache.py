"""
S02 - the file and memory caches keep what was put in them.

All sequences of cache operations against a dictionary (contents, sizes,
modification times, eviction), and all schedules up to a preemption bound of
pairs of cache operations of two threads.
"""
import os
import time
import itertools

import sched
sched.install()
import lsl.misc.file_lock as FL
import lsl.misc.file_cache as FC
from lsl.misc.file_cache import FileCache, MemoryCache

BOUNDS = ('all sequences of 4 (quick) / 5 (thorough) of 15 operations on two or three files, for a file cache, a file cache reopened at each step and a memory cache; all sequences of 5 (6) '
          'writes to a size-limited cache; all schedules with at most 1 (thorough: 2) preemptions of 2 threads running pairs of 8 cache programs')
HANG_S = 300
FILES = {FL.__file__, FC.__file__}


class Clock(object):
    """A clock that moves on by 10 s each time a step is made."""
    now = 1.6e9


def make(kind, ctx, tag, max_size=0):
    if kind == 'memory':
        return MemoryCache(max_size=max_size)
    return FileCache(os.path.join(ctx.scratch, tag), max_size=max_size)


def content(cache, name, mode='rb'):
    with cache.open(name, mode) as fh:
        return fh.read()


OPS = [('w', 'a', 'one\ntwo\n'), ('w', 'a', ''), ('a', 'a', 'more'), ('w', 'b', 'b1\n'), ('a', 'b', 'é\nb2'), ('wb', 'sub/c', b'\x00\xff\n'), ('ab', 'a', b'\n\x01'),
       ('remove', 'a'), ('remove', 'sub/c'), ('err', 'a'), ('readmissing',), ('wr2', 'a', 'b'), ('nest', 'a', 'b'), ('lines', 'a'), ('rmin', 'b', 'a')]
NAMES = ('a', 'b', 'sub/c')


def apply_op(ctx, cache, op, model):
    k = op[0]
    if k in ('w', 'a', 'wb', 'ab'):
        with cache.open(op[1], k) as fh:
            fh.write(op[2])
        data = op[2] if isinstance(op[2], bytes) else op[2].encode()
        model[op[1]] = (model.get(op[1], b'') if k[0] == 'a' else b'') + data
    elif k == 'remove':
        cache.remove(op[1])
        model.pop(op[1], None)
    elif k == 'err':
        try:
            with cache.open(op[1], 'wb') as fh:
                fh.write(b'par')
                raise KeyError('x')
        except KeyError:
            pass
        model[op[1]] = b'par'
    elif k == 'readmissing':
        for mode in ('r', 'rb'):
            ctx.raises(OSError, lambda: content(cache, 'nothing', mode), 'missing', 'reading a file that is not there')
        ctx.check('nothing' not in cache, 'missing', 'reading a missing file creates it')
    elif k == 'wr2':
        # two writes, a seek and a rewrite within one opening
        with cache.open(op[1], 'wb') as fh:
            fh.write(b'abc')
            fh.write(b'def')
            ctx.equal(fh.tell(), 6, 'position')
            fh.seek(1)
            fh.write(b'X')
        model[op[1]] = b'aXcdef'
    elif k == 'nest':
        # copy a into b with both open
        if op[1] in model:
            with cache.open(op[1], 'rb') as fi:
                with cache.open(op[2], 'wb') as fo:
                    first = fi.read(2)
                    fo.write(first)
                    fo.write(fi.read())
                ctx.equal(fi.read(), b'', 'nested')
                fi.seek(0)
                ctx.equal(fi.read(), model[op[1]], 'nested', 'outer file after the inner one is closed')
            model[op[2]] = model[op[1]]
    elif k == 'lines':
        if op[1] in model:
            try:
                text = model[op[1]].decode()
            except UnicodeDecodeError:
                return
            with cache.open(op[1], 'r') as fh:
                ctx.equal(list(fh), text.splitlines(True) if '\x01' not in text else text.splitlines(True), 'lines', 'iterating over the lines')
            with cache.open(op[1], 'r') as fh:
                got = []
                while True:
                    line = fh.readline()
                    if not line:
                        break
                    got.append(line)
                ctx.equal(''.join(got), text, 'lines', 'readline')
    elif k == 'rmin':
        # other operations while a file is open
        with cache.open(op[1], 'wb') as fh:
            fh.write(b'q')
            cache.remove(op[2])
            ctx.check(op[2] not in cache, 'remove')
            fh.write(b'r')
        model[op[1]] = b'qr'
        model.pop(op[2], None)


def compare(ctx, cache, model):
    for n in NAMES:
        ctx.equal(n in cache, n in model, 'contains', n)
        if n in model:
            ctx.equal(content(cache, n), model[n], 'contents', n)
            ctx.equal(cache.getsize(n), len(model[n]), 'getsize', n)
            ctx.equal(cache.stat(n).st_size, len(model[n]), 'stat', n)
            mt = cache.getmtime(n)
            ctx.check(abs(mt - sched._real_time()) < 3600, 'getmtime', lambda: '%s: modification time %r' % (n, mt))
        else:
            for f in (cache.getsize, cache.getmtime, cache.stat):
                ctx.raises(OSError, lambda: f(n), 'missing', '%s of a missing file' % f.__name__)
    if isinstance(cache, FileCache):
        have = []
        for root, _, names in os.walk(cache.cache_dir):
            have += [os.path.relpath(os.path.join(root, x), cache.cache_dir) for x in names if not x.endswith('.lock')]
        ctx.equal(sorted(have), sorted(model), 'files', 'files in the cache directory')


def wipe(cache):
    for n in NAMES + ('nothing',):
        cache.remove(n)


def free(ctx, cache):
    """The cache lock must have been given back: another thread gets in at once."""
    got = []

    def other():
        got.append(cache._lock.acquire(blocking=False))
        if got[0]:
            cache._lock.release()
    if not hasattr(cache, '_lock'):
        return
    import threading
    t = threading.Thread(target=other)
    t.start()
    t.join()
    ctx.check(got == [True], 'lock', 'the cache lock was not given back')


def ops_unit(kind, first, tier):
    def fn(ctx):
        depth = 4 if tier == 'quick' else 5
        if kind == 'reopen':
            depth -= 1
        cache = make(kind, ctx, 'c')
        nothing = ('nothing',)
        for rest in itertools.product(OPS, repeat=depth-1):
            seq = (OPS[first],) + rest
            # Only the last operation is compared: each prefix is a sequence of its own
            with ctx.case((kind, seq)):
                wipe(cache)
                model = {}
                for op in seq:
                    if kind == 'reopen':
                        cache = make('file', ctx, 'c')
                    apply_op(ctx, cache, op, model)
                    ctx.step()
                if kind == 'reopen':
                    cache = make('file', ctx, 'c')
                st = (kind, tuple(sorted(model.items())), seq[-1])
                new = ctx.state(st)
                if new or tier != 'quick' or seq[-2:] == seq[-1:]*2:
                    compare(ctx, cache, model)
                else:
                    for n in NAMES:
                        ctx.equal(n in cache, n in model, 'contains', n)
                        if n in model:
                            ctx.equal(cache.getsize(n), len(model[n]), 'getsize', n)
                if new:
                    free(ctx, cache)
    return fn


# -- size limits

MB = 1024**2


def evict_unit(kind, limit, part, nparts, tier):
    """All sequences of writes to a size-limited cache."""
    def fn(ctx):
        depth = 4 if tier == 'quick' else 6
        sizes = {'s': MB//4, 'm': MB//2 + 1, 'L': MB + MB//2}
        data = {k: os.urandom(1)*v for k, v in sizes.items()}
        ops = [(m, n, s) for m in 'wa' for n in ('a', 'b', 'c/d') for s in ('s', 'm')] + [('w', 'e', 'L'), ('r', 'a', None), ('x', 'b', None)]
        real = time.time
        for seq in itertools.product(ops[part::nparts], *[ops]*(depth-1)):
            # the interesting sequences have enough volume to go over the limit
            if sum(sizes.get(s, 0) for _, _, s in seq) <= limit*MB and limit:
                continue
            with ctx.case((kind, limit, seq)):
                names = ('a', 'b', 'c/d', 'e')
                cache = make(kind, ctx, 'e', max_size=(lambda: limit) if seq[0][1] == 'a' else limit)
                for n in names:
                    cache.remove(n)
                model = {}       # name -> [size, mtime]
                clock = 1.0e9
                # every other sequence with a clock that runs backwards, so that the age of a file and the order of writing differ
                pace = 10 if (ops.index(seq[-1]) + ops.index(seq[-2])) % 2 else -10
                for mode, name, s in seq:
                    clock += pace
                    if kind == 'memory':
                        time.time = lambda: clock
                    try:
                        if mode == 'r':
                            if name in model:
                                content(cache, name)
                            continue
                        if mode == 'x':
                            cache.remove(name)
                            model.pop(name, None)
                            continue
                        with cache.open(name, mode + 'b') as fh:
                            fh.write(data[s])
                    finally:
                        time.time = real
                    if kind == 'file':
                        os.utime(os.path.join(cache.cache_dir, name), (clock, clock))
                    # model: truncate, evict oldest first but not the one in use, then write
                    if mode == 'w' or name not in model:
                        model[name] = [0, clock]
                    if limit:
                        for victim in sorted(model, key=lambda k: model[k][1]):
                            if sum(v[0] for v in model.values()) <= limit*MB or len(model) <= 1:
                                break
                            if victim != name:
                                del model[victim]
                    model[name][0] += sizes[s]
                    model[name][1] = clock
                    ctx.step()
                    for n in names:
                        ctx.equal(n in cache, n in model, 'eviction', '%s after writing %s' % (n, name))
                        if n in model:
                            ctx.equal(cache.getsize(n), model[n][0], 'eviction', 'size of %s' % n)
                ctx.state((kind, limit, tuple(sorted((n, v[0]) for n, v in model.items()))))
    return fn


# -- threads

PROGS = ('write', 'append', 'read', 'remove', 'size', 'err', 'twofile', 'mtime')


def thread_program(cache, me, prog, log):
    def pt():
        s, t = sched._me()
        s.point(t)

    def body():
        c = b'%d' % me
        try:
            if prog == 'write':
                with cache.open('f', 'wb') as fh:
                    fh.write(c*3)
                    fh.flush()
                    pt()
                    fh.write(c*3)
            elif prog == 'append':
                with cache.open('f', 'ab') as fh:
                    fh.write(c)
                    fh.flush()
                    pt()
                    fh.write(c)
            elif prog == 'read':
                with cache.open('f', 'rb') as fh:
                    a = fh.read(2)
                    pt()
                    log.append((me, 'read', a + fh.read()))
            elif prog == 'remove':
                cache.remove('f')
            elif prog == 'size':
                log.append((me, 'size', cache.getsize('f')))
            elif prog == 'mtime':
                cache.getmtime('f')
            elif prog == 'err':
                try:
                    with cache.open('f', 'ab') as fh:
                        raise KeyError('x')
                except KeyError:
                    pass
            elif prog == 'twofile':
                with cache.open('f', 'rb') as fi:
                    with cache.open('g', 'wb') as fo:
                        fo.write(fi.read())
        except OSError as e:
            log.append((me, prog, 'OSError'))
    return body


def serial(progs, order):
    """The observations of a serial execution in the given order."""
    f, g, log = b'init', None, []
    for me in order:
        p, c = progs[me], b'%d' % me
        if p == 'write':
            f = c*6
        elif p == 'append':
            f = (f or b'') + c*2
        elif p == 'err':
            f = f or b''
        elif p == 'remove':
            f = None
        elif f is None:
            log.append((me, p, 'OSError'))
        elif p == 'read':
            log.append((me, 'read', f))
        elif p == 'size':
            log.append((me, 'size', len(f)))
        elif p == 'twofile':
            g = f
    return f, g, tuple(sorted(log))


def thread_unit(kind, shared, combos, bound):
    def fn(ctx):
        for combo in combos:
            with ctx.case((kind, shared, combo)):
                allowed = {serial(combo, o) for o in itertools.permutations(range(len(combo)))}

                def mk():
                    one = make(kind, ctx, 't')
                    caches = [one if shared else make(kind, ctx, 't') for _ in combo]
                    with one.open('f', 'wb') as fh:
                        fh.write(b'init')
                    one.remove('g')
                    log = []
                    bodies = [thread_program(caches[i], i, p, log) for i, p in enumerate(combo)]

                    def judge(s, prefix):
                        ctx.step(s.points)
                        where = 'schedule %s' % (list(prefix),)
                        ctx.check(s.abort is None, 'deadlock', lambda: 'threads never finish: ' + where)
                        for t in s.threads:
                            if t.exc is not None:
                                ctx.fail('exception', 'thread %i: %s: %s (%s)' % (t.i, type(t.exc).__name__, t.exc, where))
                        got = (content(one, 'f') if 'f' in one else None, content(one, 'g') if 'g' in one else None, tuple(sorted(log)))
                        ctx.check(got in allowed, 'atomic', lambda: 'got %r, allowed %r (%s)' % (got, sorted(map(repr, allowed)), where))
                        free(ctx, one)
                        ctx.state((kind, shared, combo, got))
                    return bodies, judge
                n, p, full = sched.explore(mk, FILES, bound, ctx)
                ctx.executions += n
    return fn


def units(tier):
    out = {}
    for kind in ('file', 'memory', 'reopen'):
        for i in range(len(OPS)):
            out['ops %s %i' % (kind, i)] = ops_unit(kind, i, tier)
    for kind in ('file', 'memory'):
        for limit in (1, 2):
            n = 5 if kind == 'file' else 1
            for i in range(n):
                out['evict %s %i %i' % (kind, limit, i)] = evict_unit(kind, limit, i, n, tier)
    pairs = [p for p in itertools.combinations_with_replacement(PROGS, 2)]
    bound = 1 if tier == 'quick' else 2
    for kind, shared in (('file', True), ('file', False), ('memory', True)):
        for i in range(6):
            out['threads %s %s %i' % (kind, shared, i)] = thread_unit(kind, shared, pairs[i::6], bound)
    return out
