"""
R03 - the ring buffers put frames in time order, exactly once, with gaps filled.

Every history of append/get/peek+get/flush/reset operations up to a depth is
run on the real buffer classes and compared, return value by return value, with
a dictionary of "time tag -> frames received".
"""
import itertools
import numpy as np

from lsl.reader import drx, drx8, tbx, cor, vdif, buffer as lbuf

BOUNDS = ('DRX/DRX8/VDIF/TBX: 2-4 frame ids x 3 time tags (+1 pre-1980 tag for DRX), ring sizes 1-3, reorder on/off, all histories of '
          '<=5 (quick) / <=6 (thorough) operations from {append each frame, append list, get, get(peek), flush, reset}; '
          'breadth-first with state merging to depth 7/9; COR: selected complete product of <=3 appends')
ASSUMPTIONS = ['frames carry ids that the buffer was told to expect', 'time tags are positive integers']

T0 = 257355782095018376
EARLY = 61849368000000000


class Mode(object):
    def __init__(self, name, ids, guard, times, make, make_buffer, fid, ftime, sortkey=None):
        self.name, self.ids, self.guard, self.times = name, ids, guard, times
        self.make, self.make_buffer, self.fid, self.ftime = make, make_buffer, fid, ftime
        self.sortkey = sortkey or (lambda i: i)


def _drx(mod, bit):
    def make(i, t, serial):
        b, tu, p = i
        h = mod.FrameHeader(frame_count=serial, drx_id=b | (tu << 3) | bit | (p << 7), second_count=1, decimation=10, time_offset=0)
        d = np.full(2, serial+1, dtype=np.complex64)
        return mod.Frame(header=h, payload=mod.FramePayload(timetag=t, tuning_word=12, flags=0, iq=d))
    return make


def _tbx(i, t, serial):
    h = tbx.FrameHeader(frame_id=1, frame_count=serial, second_count=1, first_chan=i, nstand=1, nchan=1)
    return tbx.Frame(header=h, payload=tbx.FramePayload(timetag=t, fDomain=np.full((1, 1, 2), serial+1, dtype=np.complex64)))


def _cor(i, t, serial):
    s0, s1, c = i
    h = cor.FrameHeader(adp_id=1, frame_count=serial, second_count=1, first_chan=c, gain=1)
    return cor.Frame(header=h, payload=cor.FramePayload(timetag=t, navg=1, stand0=s0, stand1=s1, vis=np.full((1, 2, 2), serial+1, dtype=np.complex64)))


def _vdif(i, t, serial):
    h = vdif.FrameHeader(seconds_from_epoch=t // 1000000, frame_in_second=t % 1000000, thread_id=i, station_id=13, nchan=1, frame_length=8, bits_per_sample=8)
    return vdif.Frame(header=h, payload=vdif.FramePayload(data=np.full(2, serial+1, dtype=np.float32)))


def modes():
    out = []
    for name, mod, bit, kls in (('DRX', drx, 0, lbuf.DRXFrameBuffer), ('DRX8', drx8, 0x40, lbuf.DRX8FrameBuffer)):
        for ids, kw in (([(2, 1, 0), (2, 1, 1)], dict(beams=[2], tunes=[1], pols=[0, 1])),
                        ([(1, 1, 0), (1, 2, 0), (4, 1, 0), (4, 2, 0)], dict(beams=[1, 4], tunes=[1, 2], pols=[0]))):
            out.append(Mode('%s%i' % (name, len(ids)), ids, EARLY, [EARLY-5, T0, T0+40960, T0+3*40960], _drx(mod, bit),
                            (lambda kls, kw: lambda n, r: kls(nsegments=n, reorder=r, **kw))(kls, kw),
                            lambda f: f.id, lambda f: f.payload.timetag))
    out.append(Mode('TBX', [12, 1024], 0, [T0, T0+8192, T0+2*8192], _tbx,
                    lambda n, r: lbuf.TBXFrameBuffer([12, 1024], nsegments=n, reorder=r),
                    lambda f: f.header.first_chan, lambda f: f.payload.timetag))
    out.append(Mode('VDIF', [0, 7], 0, [5000000, 5000001, 6000000], _vdif,
                    lambda n, r: lbuf.VDIFFrameBuffer(threads=[0, 7], nsegments=n, reorder=r),
                    lambda f: f.id[1], lambda f: f.header.seconds_from_epoch*1000000+f.header.frame_in_second))
    return out


class Model(object):
    """time tag -> {id: serial of the first frame received}"""
    def __init__(self, mode, nseg):
        self.mode, self.nseg = mode, nseg
        self.segs = {}
        self.arrival = []
        self.last = mode.guard
        self.full = self.partial = self.missing = self.dropped = 0

    def append(self, i, t, serial):
        if t <= self.last:
            self.dropped += 1
            return False
        self.segs.setdefault(t, []).append((i, serial))
        self.arrival.append((t, i))
        return True

    def pop(self, t):
        got, dup = {}, 0
        for i, s in self.segs.pop(t):
            if i in got:
                dup += 1
            else:
                got[i] = s
        miss = [i for i in self.mode.ids if i not in got]
        self.dropped += dup
        self.missing += len(miss)
        if miss:
            self.partial += 1
        else:
            self.full += 1
        self.last = t
        self.arrival = [a for a in self.arrival if a[0] != t]
        return t, got

    def peek(self, require):
        if not self.segs or (require and len(self.segs) < self.nseg):
            return None
        return min(self.segs)

    def key(self):
        return (tuple(self.arrival), self.last)


def check_segment(ctx, mode, frames, want, reorder):
    t, got = want
    ctx.check(frames is not None, 'nothing-returned', 'expected the segment %r, nothing was returned' % (t,))
    frames = list(frames)
    ids = [mode.fid(f) for f in frames]
    ctx.check(sorted(ids) == sorted(mode.ids), 'segment-not-complete',
              lambda: 'segment %r holds frames %r, expected each of %r exactly once' % (t, ids, mode.ids))
    if reorder:
        ctx.equal(ids, sorted(mode.ids, key=mode.sortkey), 'not-reordered', 'order of a reordered segment')
    for f in frames:
        i = mode.fid(f)
        ctx.equal(mode.ftime(f), t, 'wrong-time', 'time tag of frame %r' % (i,))
        d = np.asarray(f.payload.data)
        if i in got:
            ctx.check(bool(f.valid), 'valid-frame-flagged', 'received frame %r is flagged invalid' % (i,))
            ctx.check((d == got[i]+1).all(), 'payload-changed', lambda: 'frame %r/%r: payload %r, expected %r (first one received)' % (t, i, d, got[i]+1))
        else:
            ctx.check(not f.valid, 'fill-not-flagged', 'fill frame %r is not flagged invalid' % (i,))
            ctx.check((d == 0).all(), 'fill-not-zero', lambda: 'fill frame %r/%r carries data %r' % (t, i, d))


def run_history(ctx, mode, nseg, reorder, hist, want_key=False):
    buf = mode.make_buffer(nseg, reorder)
    m = Model(mode, nseg)
    base = [0, 0, 0, 0]
    for n, op in enumerate(hist):
        ctx.step()
        if op[0] == 'a':
            i, t = op[1]
            r = buf.append(mode.make(i, t, n))
            ctx.equal(bool(r), m.append(i, t, n), 'append-result', 'append() of %r' % (op,))
        elif op[0] == 'l':
            frames = []
            for k, (i, t) in enumerate(op[1]):
                frames.append(mode.make(i, t, 100*n+k))
                m.append(i, t, 100*n+k)
            buf.append(frames)
        elif op[0] == 'g':
            t = m.peek(True)
            ctx.equal(buf.peek(), t, 'peek', 'peek()')
            r = buf.get()
            if t is None:
                ctx.check(r is None, 'early-dump', 'get() returned data before the ring was full')
            else:
                check_segment(ctx, mode, r, m.pop(t), reorder)
        elif op[0] == 'k':
            t = m.peek(False)
            ctx.equal(buf.peek(require_filled=False), t, 'peek', 'peek(require_filled=False)')
            if t is not None:
                check_segment(ctx, mode, buf.get(t), m.pop(t), reorder)
        elif op[0] == 'f':
            want = sorted(m.segs)
            got = list(buf.flush())
            ctx.equal(len(got), len(want), 'flush-count', 'number of segments flushed')
            for r, t in zip(got, want):
                check_segment(ctx, mode, r, m.pop(t), reorder)
        elif op[0] == 'r':
            buf.reset()
            m2 = Model(mode, nseg)
            m2.full, m2.partial, m2.missing, m2.dropped = m.full, m.partial, m.missing, m.dropped
            m = m2
            base = None        # the statistics after a reset are not specified
        ctx.equal(buf.is_empty(), not m.segs, 'is_empty', 'is_empty()')
        ctx.equal(bool(buf.filled), len(m.segs) >= nseg, 'filled', 'filled')
        ctx.equal(bool(buf.overfilled), len(m.segs) > nseg, 'overfilled', 'overfilled')
        if base is not None:
            ctx.equal((buf.full, buf.partial, buf.missing, buf.dropped), (m.full, m.partial, m.missing, m.dropped), 'statistics',
                      'full/partial/missing/dropped after %r' % (op,))
        ctx.state((mode.name, nseg, reorder, m.key()))
    return m


def alphabet(mode):
    ops = [('a', (i, t)) for t in mode.times for i in mode.ids]
    if len(mode.ids) > 2:
        # the larger configuration: whole tunings arrive together
        ops = [('l', tuple((i, t) for i in mode.ids[:3])) for t in mode.times[1:]] + [('a', (mode.ids[3], t)) for t in mode.times[1:]] \
              + [('a', (mode.ids[0], mode.times[1]))]
    else:
        ops.append(('l', ((mode.ids[0], mode.times[-1]), (mode.ids[1], mode.times[-2]))))
    return ops + [('g',), ('k',), ('f',), ('r',)]


def exhaustive(mode, nseg, reorder, depth):
    def fn(ctx):
        alpha = alphabet(mode)
        for n in range(1, depth+1):
            for hist in itertools.product(alpha, repeat=n):
                # a history is only run at the full depth or when it ends in an output operation
                if n < depth and hist[-1][0] not in 'gkf':
                    continue
                if hist[0][0] in 'gkfr' and n > 1:
                    continue
                with ctx.case(('%s nseg=%i reorder=%s' % (mode.name, nseg, reorder), hist)):
                    run_history(ctx, mode, nseg, reorder, hist)
    return fn


def bfs(mode, nseg, reorder, depth):
    """Breadth first search with merging of equal (arrival order, last output) states."""
    def fn(ctx):
        alpha = alphabet(mode)
        frontier = [()]
        seen = {Model(mode, nseg).key()}
        for d in range(depth):
            nxt = []
            for hist in frontier:
                for op in alpha:
                    h = hist + (op,)
                    with ctx.case(('%s nseg=%i reorder=%s' % (mode.name, nseg, reorder), h)):
                        m = run_history(ctx, mode, nseg, reorder, h)
                        # drain to observe the whole state reached
                        m2 = run_history(ctx, mode, nseg, reorder, h + (('f',),))
                        k = m.key()
                        if k not in seen and len(m.arrival) <= 6:
                            seen.add(k)
                            nxt.append(h)
            frontier = nxt
    return fn


def cor_unit(reorder, tier='thorough'):
    """The COR buffer expects every baseline of 256 stands: few, but complete, histories."""
    def fn(ctx):
        chans = [40, 1000]
        stands = range(1, 257)
        ids = [(a, b, c) for a in stands for b in stands if b >= a for c in chans]
        mode = Mode('COR', ids, 0, [T0, T0+8192], _cor, lambda n, r: lbuf.CORFrameBuffer(chans, nsegments=n, reorder=r),
                    lambda f: tuple(f.id) + (f.header.first_chan,), lambda f: f.payload.timetag, sortkey=lambda i: (i[2], i[0], i[1]))
        some = [('a', ((1, 1, 40), T0)), ('a', ((1, 1, 1000), T0)), ('a', ((1, 4, 40), T0+8192)), ('a', ((1, 4, 1000), T0))]
        hists = [h + (('f',),) for h in itertools.product(some, repeat=2)] if not reorder else []
        if tier == 'quick':
            hists = hists[1::5]
        # everything but two frames received, in reverse order, twice over
        allbut = tuple((i, T0) for i in reversed(ids) if i not in ((1, 5, 40), (2, 2, 1000)))
        hists.append((('l', allbut), ('a', ((1, 5, 40), T0)), ('a', ((256, 256, 1000), T0)), ('f',)))
        hists.append((('l', allbut), ('a', ((2, 3, 40), T0)), ('a', ((2, 3, 1000), T0)), ('g',), ('f',)))
        hists.append((('l', tuple((i, T0) for i in reversed(ids))), ('a', ((7, 9, 40), T0)), ('f',)))
        for hist in hists:
            with ctx.case(('COR reorder=%s' % reorder, [o if o[0] != 'l' else ('l', len(o[1])) for o in hist])):
                run_history(ctx, mode, 2, reorder, hist)
    return fn


def units(tier):
    out = {}
    for r in (False, True):
        out['COR reorder=%s' % r] = cor_unit(r, tier)
    depth = 4 if tier == 'quick' else 5
    for mode in modes():
        for nseg in (1, 2, 3):
            for reorder in (False, True):
                if reorder and nseg != 2:
                    continue
                d = depth
                out['exhaustive %s nseg=%i reorder=%s' % (mode.name, nseg, reorder)] = exhaustive(mode, nseg, reorder, d)
        for nseg in (1, 2, 3):
            out['bfs %s nseg=%i' % (mode.name, nseg)] = bfs(mode, nseg, nseg == 2, 5 if tier == 'quick' else 7)
    return out
