"""
S04 - configuration settings survive, completely, from session to session.

Sessions are LSLConfigContainer objects on one file: all short histories of two
sessions that set, save and restart, every crash point of a save, all schedules
of two concurrent saves, and all nestings of temporary settings.
"""
import os
import re
import gc
import sys
import time
import warnings
import itertools

import sched
sched.install()
import lsl.misc.file_lock as FL
import lsl.config as C
from lsl.config import LSLConfigContainer

warnings.simplefilter('ignore')

BOUNDS = ('all histories of 4 (quick) / 5 (thorough) of 11 set/save/restart/upgrade operations of two sessions on one file; every line of a save as crash point; all schedules with at most 1 '
          'preemption (thorough: 2) of two saves; every parameter with values of every type; all nestings of 3 (4) temporary settings')
ASSUMPTIONS = ['string values have no line breaks or surrounding blanks and do not read as numbers or booleans',
               'saves of different sessions are further apart than the time resolution of the file system']
HANG_S = 200
FILES = {FL.__file__, C.__file__}


def names():
    return [s + '.' + i for s in C.DEFAULTS_ALL for i in C.DEFAULTS_ALL[s]]


def dump(c):
    return {n: c.get(n) for n in names()}


def save(c):
    c._save_config()


def tick(*a):
    """Let the file system time stamps move on."""
    time.sleep(0.006)


def on_disk(fn):
    """What a session started now would see."""
    if not os.path.exists(fn):
        return None
    return dump(LSLConfigContainer(fn))


P1, P2 = 'download.timeout', 'observing.project_name'
OPS = [(s, op) for s in 'XY' for op in (('set', P1, 300), ('set', P2, 'Pr=oj [1]'), ('set', P1, 120), 'save', 'restart')]
OPS = OPS + [('', 'upgrade')]


def history_unit(first, tier):
    def fn(ctx):
        depth = 4 if tier == 'quick' else 5
        fn_ = os.path.join(ctx.scratch, 'lsl.cfg')
        default = dump(LSLConfigContainer(os.path.join(ctx.scratch, 'none.cfg')))
        for rest in itertools.product(OPS, repeat=depth-1):
            seq = (OPS[first],) + rest
            with ctx.case(seq):
                if os.path.exists(fn_):
                    os.unlink(fn_)
                # model
                disk = None             # values, or None without a file
                stamp = 0               # changes each time the file is written
                oldver = False
                S, M = {}, {}
                for k in 'XY':
                    S[k] = LSLConfigContainer(fn_)
                    M[k] = dict(val=dict(default), orig={}, need=True, stamp=0)
                for who, op in seq:
                    if op == 'upgrade':
                        # the file was written by another version of LSL
                        if disk is None:
                            continue
                        st = os.stat(fn_)
                        text = open(fn_).read()
                        with open(fn_, 'w') as fh:
                            fh.write(re.sub('LSL Version: .*', 'LSL Version: 0.0.1', text))
                        os.utime(fn_, ns=(st.st_atime_ns, st.st_mtime_ns))
                        oldver = True
                        continue
                    c, m = S[who], M[who]
                    if op == 'restart':
                        S[who] = LSLConfigContainer(fn_)
                        M[who] = dict(val=dict(disk or default), orig={}, need=disk is None or oldver, stamp=stamp)
                    elif op == 'save':
                        tick()
                        save(c)
                        if m['need'] or m['orig']:
                            if disk is not None and m['stamp'] != stamp:
                                # somebody else wrote it: theirs is kept
                                m['val'], m['orig'], m['need'], m['stamp'] = dict(disk), {}, oldver, stamp
                                if oldver:
                                    m['need'] = False
                                    oldver = False
                                    stamp += 1
                                    m['stamp'] = stamp
                            else:
                                disk = dict(m['val'])
                                stamp += 1
                                oldver = False
                                m['orig'], m['need'], m['stamp'] = {}, False, stamp
                    else:
                        _, n, v = op
                        c.set(n, v)
                        if m['val'][n] != v:
                            o = m['orig'].setdefault(n, m['val'][n])
                            if o == v:
                                del m['orig'][n]
                            m['val'][n] = v
                    ctx.step()
                    ctx.equal(S[who].get(P1), M[who]['val'][P1], 'value', P1)
                    ctx.equal(S[who].get(P2), M[who]['val'][P2], 'value', P2)
                got = on_disk(fn_)
                ctx.equal(got is None, disk is None, 'file', 'configuration file exists')
                if disk is not None:
                    diff = {n: (got[n], disk[n]) for n in disk if got[n] != disk[n] or type(got[n]) is not type(disk[n])}
                    ctx.check(not diff, 'lost', lambda: 'saved settings (found, expected): %r' % diff)
                    ctx.equal('LSL Version: 0.0.1' in open(fn_).read(), oldver, 'version', 'the file names an old version')
                ctx.state((tuple(sorted((disk or {}).items(), key=str)) if disk else None, oldver, tuple((k, M[k]['val'][P1], M[k]['val'][P2], bool(M[k]['orig']), M[k]['need'], M[k]['stamp'] == stamp) for k in 'XY')))
                # nothing else left behind
                left = [x for x in os.listdir(ctx.scratch) if x not in ('lsl.cfg', 'lsl.cfg.lock')]
                ctx.equal(left, [], 'left-over', 'files next to the configuration')
    return fn


def values_unit(tier):
    """Every parameter with values of every type."""
    def fn(ctx):
        fn_ = os.path.join(ctx.scratch, 'v.cfg')
        cand = [None, True, False, 0, 1, -1, 12345678901, 2.5, -0.125, 1e-7, 'x', 'Jane Doe', 'a = b', '[section]', '# not a comment', 'https://x.y/?a=1&b=2', "it's", 'é', '%s {} \\n']
        for n in names():
            section, item = n.split('.')
            info = C.DEFAULTS_ALL[section][item]
            for v in cand:
                for how in ('full', 'view', 'view-full'):
                    with ctx.case((n, v, how)):
                        if os.path.exists(fn_):
                            os.unlink(fn_)
                        c = LSLConfigContainer(fn_)
                        before = dump(c)
                        target = c if how == 'full' else c.view(section)
                        key = item if how == 'view' else n
                        ctx.equal(target.get(key), info['value'], 'default')
                        ok = info['is_optional'] or type(v) is type(info['value'])
                        if not ok:
                            ctx.raises(TypeError, lambda: target.set(key, v), 'type', '%s = %r' % (n, v))
                            ctx.equal(dump(c), before, 'type', 'values after a refused set')

                            def temp():
                                with target.set_temp(key, v):
                                    pass
                            ctx.raises(TypeError, temp, 'type', 'temporary %s = %r' % (n, v))
                            ctx.equal(dump(c), before, 'type', 'values after a refused temporary set')
                        else:
                            with target.set_temp(key, v):
                                ctx.check(target.get(key) == v and type(c.get(n)) is type(v), 'temporary', '%r' % (c.get(n),))
                            ctx.equal(dump(c), before, 'temporary', 'values after a temporary setting')
                            target.set(key, v)
                            ctx.check(target.get(key) == v and type(c.get(n)) is type(v), 'set', '%r' % (c.get(n),))
                            save(c)
                            after = dict(before, **{n: v})
                            got = on_disk(fn_)
                            diff = {k: (got[k], after[k]) for k in after if got[k] != after[k] or type(got[k]) is not type(after[k])}
                            # an unset optional parameter with a default comes back as the default
                            if v is None and info['value'] is not None:
                                diff.pop(n, None)
                            ctx.check(not diff, 'reload', lambda: 'settings after a restart (found, expected): %r' % diff)
                        ctx.step()
                        ctx.state((n, type(v).__name__, ok))
        # from every saved value to every other one, one session each
        for n in ('observing.observer_id', 'observing.project_name', 'ionosphere.igs_mirror', 'download.timeout', 'astro.leapsec_url', 'telemetry.enabled'):
            section, item = n.split('.')
            info = C.DEFAULTS_ALL[section][item]
            vals = [v for v in cand + ['', 7] if (info['is_optional'] or type(v) is type(info['value'])) and v != '']
            for v1, v2 in itertools.product(vals, repeat=2):
                if v1 == v2 and type(v1) is not type(v2):
                    continue
                with ctx.case((n, v1, 'then', v2)):
                    if os.path.exists(fn_):
                        os.unlink(fn_)
                    c = LSLConfigContainer(fn_)
                    c.set(n, v1)
                    save(c)
                    c = LSLConfigContainer(fn_)
                    tick()
                    c.set(n, v2)
                    save(c)
                    got = on_disk(fn_)[n]
                    want = info['value'] if v2 is None else v2
                    ctx.check(got == want and type(got) is type(want), 'reload', lambda: '%s was %r, then set to %r, is %r after a restart' % (n, v1, v2, got))
                    ctx.step(2)
                    ctx.state((n, type(v1).__name__, type(v2).__name__))
        c = LSLConfigContainer(fn_)
        for bad in ('download.nothing', 'timeout', 'nothing', '', 'Download.timeout'):
            with ctx.case(('unknown', bad)):
                ctx.raises(ValueError, lambda: c.get(bad), 'unknown')
                ctx.raises(ValueError, lambda: c.set(bad, 1), 'unknown')

                def temp():
                    with c.set_temp(bad, 1):
                        pass
                ctx.raises(ValueError, temp, 'unknown')
                if bad != 'timeout':
                    v = c.view('download')
                    ctx.raises(ValueError, lambda: v.get(bad), 'unknown')
                    ctx.raises(ValueError, lambda: v.set(bad, 1), 'unknown')
        with ctx.case('unknown section'):
            ctx.raises(ValueError, lambda: c.view('nothing'), 'unknown')
    return fn


class Boom(Exception):
    pass


def temp_unit(tier):
    """All nestings of temporary settings, left normally or by an error."""
    def fn(ctx):
        depth = 3 if tier == 'quick' else 4
        params = [(P1, 1), (P1, 2), (P2, 'tmp'), (P2, None), ('telemetry.enabled', False)]
        errors = [None, KeyError, ValueError, TypeError, Boom, GeneratorExit, KeyboardInterrupt]
        for combo in itertools.product(params, repeat=depth):
            for err in errors:
                for save_at in (None, 'after'):
                    with ctx.case((combo, err and err.__name__, save_at)):
                        fn_ = os.path.join(ctx.scratch, 't.cfg')
                        if os.path.exists(fn_):
                            os.unlink(fn_)
                        c = LSLConfigContainer(fn_)
                        base = dump(c)

                        def nest(i, cur):
                            if i == depth:
                                if err is not None:
                                    raise err('inside')
                                return
                            n, v = combo[i]
                            obj = c.view(n.split('.')[0]) if i % 2 else c
                            try:
                                with obj.set_temp(n if i % 2 == 0 else n.split('.')[1], v):
                                    new = dict(cur, **{n: v})
                                    ctx.equal(dump(c), new, 'temporary', 'values inside')
                                    ctx.step()
                                    nest(i+1, new)
                            finally:
                                ctx.equal(dump(c), cur, 'temporary', 'values after leaving level %i' % i)
                        try:
                            nest(0, base)
                            ctx.check(err is None, 'temporary', 'the error inside was lost')
                        except BaseException as e:
                            if err is None or type(e) is not err:
                                raise
                        if save_at:
                            save(c)
                            ctx.equal(on_disk(fn_), base, 'temporary', 'saved settings')
                        ctx.state((combo[-1], err and err.__name__))
    return fn


def crash_unit(state, tier):
    def fn(ctx):
        fn_ = os.path.join(ctx.scratch, 'lsl.cfg')
        n = 0
        done = False
        while not done and n < 3000:
            n += 1
            with ctx.case(('crash', state, 'line %i' % n)):
                for x in os.listdir(ctx.scratch):
                    os.unlink(os.path.join(ctx.scratch, x))
                base = dump(LSLConfigContainer(fn_))
                if state == 'existing':
                    c = LSLConfigContainer(fn_)
                    c.set(P2, 'kept')
                    save(c)
                    base = dict(base, **{P2: 'kept'})
                    tick()
                c = LSLConfigContainer(fn_)
                c.set(P1, 777)
                new = dict(base, **{P1: 777})
                gc.collect()
                pid = os.fork()
                if pid == 0:
                    try:
                        seen = [0]

                        def local(frame, event, arg):
                            if event == 'line':
                                seen[0] += 1
                                if seen[0] == n:
                                    os._exit(9)
                            return local
                        sys.settrace(lambda f, e, a: local if f.f_code.co_filename in FILES else None)
                        save(c)
                        sys.settrace(None)
                        os._exit(0)
                    finally:
                        os._exit(3)
                st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                ctx.check(st in (0, 9), 'crash', 'exit status %i' % st)
                done = st == 0
                got = dump(LSLConfigContainer(fn_))
                ctx.check(got in (base, new), 'crash', lambda: 'settings after a crash: %r' % {k: (got[k], base[k], new[k]) for k in got if got[k] != base[k]})
                if done:
                    ctx.equal(got, new, 'crash', 'settings after a complete save')
                # a later session can still save
                c = LSLConfigContainer(fn_)
                c.set('observing.observer_name', 'later')
                tick()
                save(c)
                ctx.equal(on_disk(fn_), dict(got, **{'observing.observer_name': 'later'}), 'crash', 'a save after the crash')
                ctx.step(3)
                ctx.state((state, got == new))
    return fn


def thread_unit(state, tier):
    def fn(ctx):
        fn_ = os.path.join(ctx.scratch, 'lsl.cfg')
        with ctx.case(('concurrent saves', state)):
            for x in os.listdir(ctx.scratch):
                os.unlink(os.path.join(ctx.scratch, x))
            base = dump(LSLConfigContainer(fn_))

            def mk():
                for x in os.listdir(ctx.scratch):
                    if not x.endswith('.lock'):
                        os.unlink(os.path.join(ctx.scratch, x))
                b = dict(base)
                if state == 'existing':
                    c = LSLConfigContainer(fn_)
                    c.set('observing.observer_name', 'kept')
                    save(c)
                    b['observing.observer_name'] = 'kept'
                    os.utime(fn_, (1.0e9, 1.0e9))
                X, Y = LSLConfigContainer(fn_), LSLConfigContainer(fn_)
                X.set(P1, 777)
                Y.set(P2, 'mine')
                want = [dict(b, **{P1: 777}), dict(b, **{P2: 'mine'})]

                def judge(s, prefix):
                    ctx.step(s.points)
                    ctx.check(s.abort is None, 'deadlock', lambda: 'saves never finish: %s' % (list(prefix),))
                    for t in s.threads:
                        if t.exc is not None:
                            ctx.fail('exception', '%s: %s (%s)' % (type(t.exc).__name__, t.exc, list(prefix)))
                    got = on_disk(fn_)
                    ctx.check(got in want, 'concurrent', lambda: 'settings are neither session\'s: %r (%s)' % ({k: v for k, v in got.items() if v != b[k]}, list(prefix)))
                    ctx.state((state, want.index(got)))
                return [lambda: save(X), lambda: save(Y)], judge
            n, p, full = sched.explore(mk, FILES, 1 if tier == 'quick' else 2, ctx)
            ctx.executions += n
    return fn


def units(tier):
    out = {}
    for i in range(len(OPS)):
        out['history %i' % i] = history_unit(i, tier)
    out['values'] = values_unit(tier)
    out['temporary'] = temp_unit(tier)
    for s in ('missing', 'existing'):
        out['crash %s' % s] = crash_unit(s, tier)
        out['threads %s' % s] = thread_unit(s, tier)
    return out
