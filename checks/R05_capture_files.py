"""
R05 - reading a TBX (wideband capture) or COR (correlator) file in pieces returns every
channel, input and baseline once, in order, at the right time.
"""
import os
import itertools
import numpy as np

import vmc
import frames as F
from lsl.reader import ldp
from lsl.reader.errors import EOFError
from lsl.config import LSL_CONFIG

BOUNDS = ('TBX files of 3-13 times x 1-3 channel blocks (12 modes, two time steps), ring sizes 1-4, with every frame lost, swapped, duplicated, damaged, every run of 1-2 '
          'times lost, foreign frames in between, partial last times; all sequences of 2 (quick) / 3 (thorough) operations out of reads, offsets, frame reads and resets, '
          'then read to the end; COR files: complete integrations of all 32896 baselines with every order of reads/offset/reset of 3 integrations, and sparse ones')
ASSUMPTIONS = ['the first two frames of a file are intact', 'frames arrive no later than the ring can hold', 'one sample type per pass']
HANG_S = 200

T0 = 294999881040793600


class Tbx(object):
    def __init__(self, nstand=64, nchan=4, chans=(100, 104, 108), step=8192):
        self.nstand, self.nchan, self.chans, self.step = nstand, nchan, chans, step
        self.srate = F.FS/step
        self.size = 28+nstand*nchan*2
        self.cache = {}

    def payload(self, slot, b):
        k = (slot*7+b*3+1) % 256
        if k not in self.cache:
            raw = F.rot(self.nstand*self.nchan*2, k)
            v = F.unpack44(raw)
            c = (v[:, 0]+1j*v[:, 1]).astype(np.complex64).reshape(self.nchan, self.nstand*2).T
            self.cache[k] = (raw, c)
        return self.cache[k]

    def frame(self, slot, b, sync=F.SYNC):
        return F.tbx(nstand=self.nstand, nchan=self.nchan, count=slot+1, second=0, first_chan=self.chans[b], timetag=T0+slot*self.step,
                     payload=self.payload(slot, b)[0], sync=sync)

    def order(self, nslot):
        return [(i, b) for i in range(nslot) for b in range(len(self.chans))]

    def write(self, ctx, order, name='t.dat', prefix=b'', tail=b'', bad=(), foreign=()):
        fn = os.path.join(ctx.scratch, name)
        with open(fn, 'wb') as fh:
            fh.write(prefix)
            for n, (i, b) in enumerate(order):
                if n in foreign:
                    fh.write(F.drx(payload=F.rot(4096, n), timetag=T0))
                fh.write(self.frame(i, b, sync=b'\xde\xc0\xde\x00' if n in bad else F.SYNC))
            fh.write(tail)
        want = {}
        for n, (i, b) in enumerate(order):
            if n not in bad:
                want.setdefault(i, {})[b] = self.payload(i, b)[1]
        return fn, want

    def read(self, ctx, f, k, pos, last, want, flavour=(False, False), exact=True):
        """read k times at logical time pos (k None: all); returns the new position"""
        samples, ci8 = flavour
        left = last+1-pos
        dur = None if k is None else k*self.step/F.FS
        if left <= 0:
            ctx.raises(EOFError, lambda: f.read(dur, time_in_samples=samples, return_ci8=ci8), 'no-eof', 'read at the end')
            return pos
        n = left if k is None else min(max(int(round(k)), 1), left)
        d, t, data = f.read(dur, time_in_samples=samples, return_ci8=ci8)
        got = d*self.srate
        ctx.check(abs(got-round(got)) < 1e-6, 'duration-fraction', 'duration of %r times' % got)
        m = int(round(got))
        if exact:
            ctx.equal(m, n, 'duration', 'read(%r) at time %i of %i' % (k, pos, last+1))
        else:
            ctx.check(1 <= m <= n, 'duration', 'read(%r) at time %i of %i returned %i' % (k, pos, last+1, m))
        if samples:
            ctx.equal(t, T0+pos*self.step, 'start-time')
        else:
            ctx.check(abs(float(t)-(T0+pos*self.step)/F.FS) < 1e-6, 'start-time', lambda: 'start is %r times off' % ((float(t)-(T0+pos*self.step)/F.FS)*self.srate))
        ctx.equal(data.shape[:2], (self.nstand*2, self.nchan*len(self.chans)), 'shape')
        ctx.check(data.shape[2] >= m, 'shape')
        if ci8:
            data = (data['re'].astype(np.float32)+1j*data['im']).astype(np.complex64)
        for j in range(data.shape[2]):
            have = want.get(pos+j, {}) if j < m else {}
            for b in range(len(self.chans)):
                x = data[:, b*self.nchan:(b+1)*self.nchan, j]
                if b in have:
                    ctx.check(np.array_equal(x, have[b]), 'wrong-samples', lambda: 'block %i of time %i (read at %i): %s' % (b, pos+j, pos, 'zeros' if not x.any() else 'other data'))
                else:
                    ctx.check(not x.any(), 'fill-not-zero', 'block %i of time %i' % (b, pos+j))
        ctx.state((pos, m))
        return pos+m

    def drain(self, ctx, f, pos, last, want, k=2, **kw):
        while pos <= last:
            ctx.step()
            pos = self.read(ctx, f, k, pos, last, want, **kw)
        for i in range(2):
            ctx.raises(EOFError, lambda: f.read(self.step/F.FS), 'no-eof', 'read at the end')


def ring(n):
    LSL_CONFIG.set('ldp.tbx_buffer_size', n)


def tbx_histories(cfg, nslot, nseg, depth):
    def fn(ctx):
        x = Tbx(**cfg)
        ring(nseg)
        order = x.order(nslot)
        nb = len(x.chans)
        fn, want = x.write(ctx, order)
        ops = [('r', 1), ('r', 3), ('r', 0.4), ('r', 30), ('r', None), ('o', 0), ('o', 1), ('o', 3), ('o', -1), ('o', -2), ('z',), ('f', 1), ('f', nb)]
        for hist in itertools.product(ops, repeat=depth):
            for flavour in ((False, False), (True, True)):
                with ctx.case((cfg, 'times=%i ring=%i' % (nslot, nseg), hist, flavour)):
                    with ldp.TBXFile(fn) as f:
                        pos, fresh, gone = 0, True, 0
                        have = want
                        for op in hist:
                            ctx.step()
                            if op[0] == 'r':
                                pos = x.read(ctx, f, op[1], pos, nslot-1, have, flavour, exact=not gone)
                                fresh = False
                            elif op[0] == 'o':
                                if gone or not 0 <= pos+op[1] <= nslot-2 or pos >= nslot:
                                    raise vmc.Skip()
                                moved = f.offset(op[1]*x.step/F.FS)*x.srate
                                ctx.check(abs(moved-round(moved)) < 1e-3 and abs(moved-op[1]) < 2, 'offset', 'offset(%i) moved %r' % (op[1], moved))
                                pos += int(round(moved))
                                fresh = True
                            elif op[0] == 'z':
                                f.reset()
                                pos, fresh, gone, have = 0, True, 0, want
                            else:
                                if not fresh or gone or pos >= nslot-2:
                                    raise vmc.Skip()
                                for i in range(op[1]):
                                    fr = f.read_frame()
                                    ctx.equal((fr.header.first_chan, fr.payload.timetag), (x.chans[i], T0+pos*x.step), 'frame')
                                left = len(order)-pos*nb-op[1]
                                ctx.equal(f.get_remaining_frame_count(), left, 'remaining')
                                if op[1] < nb:
                                    have = dict(want)
                                    have[pos] = {b: v for b, v in want[pos].items() if b >= op[1]}
                                    gone = 1
                                else:
                                    pos += 1
                                fresh = False
                        x.drain(ctx, f, pos, nslot-1, have, 2, flavour=flavour, exact=not gone)
    return fn


def tbx_irregular(cfg, nslot, nseg):
    def fn(ctx):
        x = Tbx(**cfg)
        nb = len(x.chans)
        ring(nseg)
        LSL_CONFIG.set('ldp.tbx_autofill_size', 4)
        base = x.order(nslot)
        cases = []
        for i in range(1, len(base)):
            cases.append(('lost %i' % i, dict(order=base[:i]+base[i+1:])))
        for i in range(1, len(base)-1):
            o = list(base)
            o[i], o[i+1] = o[i+1], o[i]
            if nseg > 1 or o[i][0] == o[i+1][0]:
                cases.append(('swap %i' % i, dict(order=o)))
        for i in range(len(base)) if nseg > 1 else ():
            cases.append(('dup %i' % i, dict(order=base[:i+1]+[base[i]]+base[i+1:])))
        for i in range(2, len(base)) if nseg > 1 else ():
            cases.append(('bad sync %i' % i, dict(order=base, bad=(i,))))
            if nseg > 1:
                cases.append(('foreign frame before %i' % i, dict(order=base, foreign=(i,))))
        for i in range(2, len(base)-2) if nseg > 1 else ():
            cases.append(('bad sync %i %i' % (i, i+2), dict(order=base, bad=(i, i+2))))
        for g in (1, 2):
            for i in range(1, nslot-g):
                cases.append(('gap %i+%i' % (i, g), dict(order=[b for b in base if not i <= b[0] < i+g])))
        for i in range(1, nslot-3):
            for j in range(i+2, nslot-1):
                cases.append(('gaps %i %i' % (i, j), dict(order=[b for b in base if b[0] not in (i, j)])))
        for tail in (1, 31, 33, x.size-1):
            cases.append(('tail %i' % tail, dict(order=base, tail=x.frame(nslot, 0)[:tail])))
        for pre in (1, 7, 600):
            cases.append(('prefix %i' % pre, dict(order=base, prefix=b'\x02'*pre)))
        for what, kw in cases:
            fn, want = x.write(ctx, **kw)
            last = max(want)
            for rr in ((1,), (2, 1), (5,), (None,)):
                with ctx.case((cfg, 'times=%i ring=%i' % (nslot, nseg), what, rr)):
                    with ldp.TBXFile(fn) as f:
                        pos = 0
                        for k in itertools.cycle(rr):
                            ctx.step()
                            if pos > last:
                                break
                            pos = x.read(ctx, f, k, pos, last, want, exact=False)
                        for i in range(2):
                            ctx.raises(EOFError, lambda: f.read(x.step/F.FS), 'no-eof', 'read at the end')
    return fn


def tbx_describe(ctx):
    """Every mode, number of blocks, channel spacing and time step is described correctly."""
    ring(2)
    for nstand, nchan in [(s, c) for s in (64, 128, 256) for c in (4, 8, 12, 16)]:
        for chans in ((100,), (100, 100+nchan), (12, 12+nchan, 12+2*nchan), (2000, 2000+nchan, 2000+2*nchan, 2000+3*nchan)):
            for step in (8192, 7840):
                x = Tbx(nstand, nchan, chans, step)
                fn, want = x.write(ctx, x.order(4), 'd.dat')
                with ctx.case(('TBX', nstand, nchan, chans, step)):
                    with ldp.TBXFile(fn) as f:
                        ctx.equal((f.get_info('nantenna'), f.get_info('nchan'), f.get_info('frame_channel_count'), f.get_info('nframe'), f.get_info('frame_size'),
                                   f.get_info('data_bits'), f.get_info('start_time_samples'), f.get_info('size')),
                                  (2*nstand, nchan*len(chans), nchan, 4*len(chans), x.size, 4, T0, os.path.getsize(fn)), 'info')
                        ctx.check(abs(f.get_info('sample_rate')-F.FS/step) < 1e-6, 'info-sample-rate')
                        ctx.check(abs(float(f.get_info('start_time'))-T0/F.FS) < 1e-6, 'info-start')
                        fr = np.concatenate([c+np.arange(nchan) for c in chans])*F.FS/step
                        ctx.check(np.abs(np.asarray(f.get_info('freq1'))-fr).max() < 1e-3, 'info-freq')
                        x.drain(ctx, f, 0, 3, want, 1)
                        f.reset()
                        x.read(ctx, f, None, 0, 3, want, (True, True))


def tbx_sequence(ctx):
    for nseg in (1, 2, 5):
        ring(nseg)
        x = Tbx()
        for nslot in (3, 4, 7):
            for cut in (0, 1, 2):
                for tail in (0, 40):
                    order = x.order(nslot)
                    order = order[:len(order)-cut]
                    fn, want = x.write(ctx, order, tail=x.frame(0, 0)[:tail])
                    for k in (1, 2, 3, 8):
                        with ctx.case(('TBX read_sequence(%i)' % k, 'ring %i, %i times less %i frames, tail %i' % (nseg, nslot, cut, tail))):
                            with ldp.TBXFile(fn) as f:
                                tot = 0
                                for n, (d, t, data) in enumerate(f.read_sequence(k*x.step/F.FS)):
                                    ctx.check(n < 20, 'sequence-endless', 'read_sequence() does not end')
                                    ctx.check(abs(float(t)-(T0+tot*x.step)/F.FS) < 1e-6, 'start-time')
                                    tot += int(round(d*x.srate))
                                ctx.equal(tot, nslot, 'sequence-short', 'times returned')


# -- COR ---------------------------------------------------------------------

BL = [(i, j) for i in range(1, 257) for j in range(i, 257)]
BASE = {b: k for k, b in enumerate(BL)}
NAVG = 500


def cor_values(slot, k, c, nchan):
    v = np.arange(nchan*4, dtype=np.float32)
    v = ((v + 1000*slot + 7*c + k % 911) + 1j*(v*2 - k % 67)).astype(np.complex64).reshape(nchan, 2, 2)
    if BL[k][0] == BL[k][1]:
        # only half of the products of an autocorrelation are recorded
        v[:, 1, 0] = v[:, 0, 1].conj()
    return v


def cor_write(ctx, slots, baselines, chans=(40,), nchan=33, name='c.dat', bad=(), reverse=False):
    fn = os.path.join(ctx.scratch, name)
    n = 0
    with open(fn, 'wb') as fh:
        for s in slots:
            for b in (reversed(baselines) if reverse else baselines):
                for c in chans:
                    fh.write(F.cor(nchan=nchan, adp_id=2, count=1, second=0, first_chan=c, gain=1, timetag=T0+s*NAVG*1960000, navg=NAVG, stand0=b[0], stand1=b[1],
                                   vis=cor_values(s, BASE[b], c, nchan), sync=b'\xde\xc0\xde\x00' if n in bad else F.SYNC))
                    n += 1
    return fn


def cor_check(ctx, out, slots, n, baselines, chans, nchan, lost=()):
    d, t, data = out
    tint = NAVG*0.01
    ctx.check(abs(d-n*tint) < 1e-6, 'duration', lambda: 'duration %r integrations, expected %i' % (d/tint, n))
    ctx.check(abs(float(t)-(T0+slots[0]*NAVG*1960000)/F.FS) < 1e-6, 'start-time')
    ctx.equal(data.shape[:4], (len(BL), nchan*len(chans), 2, 2), 'shape')
    for j in range(n):
        want = np.zeros(data.shape[:4], dtype=np.complex64)
        for b in baselines:
            for i, c in enumerate(chans):
                if (slots[j], b, c) not in lost:
                    want[BASE[b], i*nchan:(i+1)*nchan] = cor_values(slots[j], BASE[b], c, nchan)
        if not np.array_equal(data[..., j], want):
            w = np.argwhere((data[..., j] != want).any(axis=(1, 2, 3)))[:3].ravel()
            ctx.fail('wrong-visibilities', 'integration %i: baselines %r differ' % (slots[j], [BL[i] for i in w]))


def cor_full(hist, nseg):
    def fn(ctx):
        LSL_CONFIG.set('ldp.cor_buffer_size', nseg)
        tint = NAVG*0.01
        chans, nchan = (40,), 33
        fn = cor_write(ctx, (0, 1, 2), BL, chans, nchan)
        ctx.alive()
        with ctx.case(('COR', 'ring %i' % nseg, hist)):
            with ldp.CORFile(fn) as f:
                ctx.equal((f.get_info('nchan'), f.get_info('nbaseline'), f.get_info('frame_channel_count'), f.get_info('nframe')), (33, len(BL), 33, 3*len(BL)), 'info')
                ctx.check(abs(f.get_info('tint')-tint) < 1e-9, 'info-tint')
                pos = 0
                for op in hist:
                    ctx.step()
                    ctx.alive()
                    if op[0] == 'r':
                        n = 3-pos if op[1] is None else min(op[1], 3-pos)
                        if n == 0:
                            ctx.raises(EOFError, lambda: f.read(tint), 'no-eof')
                            continue
                        cor_check(ctx, f.read(None if op[1] is None else op[1]*tint), list(range(pos, pos+n)), n, BL, chans, nchan)
                        pos += n
                    elif op[0] == 'o':
                        m = f.offset(op[1]*tint)/tint
                        ctx.check(abs(m-op[1]) < 1e-6, 'offset', 'offset(%i) moved %r' % (op[1], m))
                        pos += op[1]
                    else:
                        f.reset()
                        pos = 0
                    ctx.state((pos, op))
    return fn


def cor_sparse(nseg, tier):
    """A handful of baselines and blocks per integration; everything is read in one go."""
    def fn(ctx):
        LSL_CONFIG.set('ldp.cor_buffer_size', nseg)
        tint = NAVG*0.01
        some = [(1, 1), (1, 2), (3, 200), (256, 256)]
        for chans, reverse, bad in (((40, 73), False, (2, 9)), ((1000,), True, ()), ((40, 73), True, (5,)), ((40, 73, 106), False, (7,)))[::1 if tier != 'quick' else 2 if nseg == 1 else -2]:
            ctx.alive()
            fn = cor_write(ctx, (0, 1), some, chans, 33, bad=bad, reverse=reverse)
            lost = set()
            seq = [(s, b, c) for s in (0, 1) for b in (reversed(some) if reverse else some) for c in chans]
            for n in bad:
                lost.add(seq[n])
            for k in ((1, 1), (5,)) if chans == (40, 73) else ((2,),):
                with ctx.case(('COR sparse', 'ring %i' % nseg, chans, 'reverse=%s' % reverse, 'bad sync %r' % (bad,), k)):
                    with ldp.CORFile(fn) as f:
                        pos = 0
                        for r in k:
                            ctx.step()
                            n = min(r, 2-pos)
                            cor_check(ctx, f.read(r*tint), list(range(pos, pos+n)), n, some, chans, 33, lost)
                            pos += n
                        ctx.raises(EOFError, lambda: f.read(tint), 'no-eof')
                        ctx.state((chans, k, pos))
    return fn


def units(tier):
    out = {}
    hists = [(('r', 1), ('r', 1), ('r', 1), ('r', 1)), (('r', 2), ('r', 2)), (('r', None), ('r', 1)), (('o', 1), ('r', 1), ('r', 1)), (('r', 1), ('o', 1), ('r', 1)),
             (('r', 1), ('z',), ('r', 2), ('r', 1))]
    if tier != 'quick':
        hists += [(('r', 2), ('o', -1), ('r', 2)), (('o', 2), ('o', -2), ('r', None)), (('r', 5), ('z',), ('o', 1), ('r', 5)), (('r', 1), ('o', 0), ('r', 1), ('o', -2), ('r', 3))]
    for nseg in ((2,) if tier == 'quick' else (1, 2, 5)):
        for h in hists:
            out['COR full ring=%i %s' % (nseg, h)] = cor_full(h, nseg)
    for nseg in (1, 3):
        out['COR sparse ring=%i' % nseg] = cor_sparse(nseg, tier)
    depth = 2 if tier == 'quick' else 3
    for i, (cfg, nslot) in enumerate((({}, 9), ({'chans': (7,), 'nchan': 4}, 13), ({'chans': (500, 516), 'nchan': 16, 'step': 7840}, 7))):
        for nseg in (1, 2, 4) if tier != 'quick' or i == 0 else (3,):
            out['TBX histories %i ring=%i' % (i, nseg)] = tbx_histories(cfg, nslot, nseg, depth)
        for nseg in ((1, 3) if i == 0 else (3,)):
            out['TBX irregular %i ring=%i' % (i, nseg)] = tbx_irregular(cfg, 11, nseg)
    out['TBX describe'] = tbx_describe
    out['TBX sequence'] = tbx_sequence
    return out
