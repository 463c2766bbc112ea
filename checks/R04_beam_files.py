"""
R04 - reading a beam (DRX/DRX8) or DR spectrometer observation file in pieces
returns every sample once, in order, at the right time.

Complete products of (small file with one or two irregularities) x (ring size) x
(sequence of read/offset/reset operations), against a list of time slots.
"""
import os
import itertools
import numpy as np

import frames as F
from lsl.reader import drx, drx8, ldp
from lsl.reader.errors import EOFError
from lsl.reader.utils import SplitFileWrapper
from lsl.config import LSL_CONFIG

BOUNDS = ('DRX/DRX8 files of 12-34 time slots x 1/2/4 streams, ring sizes 1-5, with every single frame or run of 1-3 slots lost, every neighbouring pair of frames '
          'swapped, every frame duplicated or with a broken sync word, garbage before and partial frames after the data; all sequences of 2 (quick) / 3 (thorough) '
          'operations out of reads of 1-9 slots, offsets, single frame reads and resets, then read to the end; all filter codes; spectrometer files of 1-12 frames alike')
ASSUMPTIONS = ['a file holds at least 32 DRX frames', 'frames arrive no later than the ring can hold', 'one sample type per pass']

T0 = 294999881040793600
STREAMS = {'4': [(1, 0), (1, 1), (2, 0), (2, 1)], '2': [(1, 0), (1, 1)], 't2': [(2, 0), (2, 1)], '1': [(1, 1)]}


class Fmt(object):
    def __init__(self, name):
        self.name = name
        self.build = F.drx if name == 'DRX' else F.drx8
        self.n = 4096 if name == 'DRX' else 8192
        self.kls = ldp.DRXFile if name == 'DRX' else ldp.DRX8File
        self.size = self.n+32
        self.cache = {}

    def payload(self, slot, s):
        k = (slot*4 + s) % 256
        if k not in self.cache:
            raw = F.rot(self.n, k)
            val = F.unpack44(raw) if self.name == 'DRX' else F.unpack88(raw)
            self.cache[k] = (raw, (val[:, 0]+1j*val[:, 1]).astype(np.complex64))
        return self.cache[k]


def layout(streams, nslot):
    """[(slot, stream index)] in transmission order"""
    return [(i, s) for i in range(nslot) for s in range(len(streams))]


def write(ctx, fmt, streams, order, name, dec=10, offset=0, prefix=b'', tail=b'', bad_sync=(), beam=2):
    fn = os.path.join(ctx.scratch, name)
    with open(fn, 'wb') as fh:
        fh.write(prefix)
        for n, (slot, s) in enumerate(order):
            t, p = streams[s]
            idx = 2*(t-1)+p
            fh.write(fmt.build(beam=beam, tune=t, pol=p, count=0, second=0, decimation=dec, offset=offset, timetag=T0+offset+slot*4096*dec,
                               tuning=1000000000*t, flags=0, payload=fmt.payload(slot, idx)[0],
                               **({'sync': b'\xde\xc0\xde\x00'} if n in bad_sync else {})))
        fh.write(tail)
    return fn


def expected(fmt, streams, order, bad_sync=()):
    """{slot: {row: samples}} of what the file holds"""
    out = {}
    for n, (slot, s) in enumerate(order):
        if n in bad_sync:
            continue
        t, p = streams[s]
        out.setdefault(slot, {})[2*(t-1)+p] = fmt.payload(slot, 2*(t-1)+p)[1]
    return out


def slot_time(slot, dec):
    ticks = T0 + slot*4096*dec
    return ticks


def check_read(ctx, fmt, f, k, pos, last, want, dec, flavour, key=''):
    """one read() of k slots at logical slot pos; returns the new position"""
    samples, ci8 = flavour
    srate = F.FS/dec
    n = min(max(int(round(k)), 1), last+1-pos)
    if n <= 0:
        ctx.raises(EOFError, lambda: f.read(k*4096/srate, time_in_samples=samples, return_ci8=ci8), 'no-eof'+key, 'read past the end')
        return pos
    dur, t, data = f.read(k*4096/srate, time_in_samples=samples, return_ci8=ci8)
    rows = max(int(round(k)), 1)
    ctx.check(abs(dur - n*4096/srate) < 1e-9, 'duration'+key, lambda: 'read(%g slots) at slot %i returned a duration of %r slots, expected %i' % (k, pos, dur*srate/4096, n))
    ticks = slot_time(pos, dec)
    if samples:
        ctx.equal(t, ticks, 'start-time'+key, 'start of the data in samples')
    else:
        ctx.check(abs(float(t) - ticks/F.FS) < 1e-6, 'start-time'+key, lambda: 'start of data %r, expected %r (%r slots off)' % (t, ticks/F.FS, (float(t)-ticks/F.FS)*srate/4096))
    ctx.equal(data.shape, (4, rows*4096), 'shape'+key)
    if ci8:
        data = (data['re'].astype(np.float32) + 1j*data['im']).astype(np.complex64)
    for j in range(rows):
        have = want.get(pos+j, {}) if j < n else {}
        for r in range(4):
            d = data[r, j*4096:(j+1)*4096]
            if r in have:
                ctx.check(np.array_equal(d, have[r]), 'wrong-samples'+key,
                          lambda: 'row %i of slot %i (read at slot %i): not the samples stored (%s)' % (r, pos+j, pos, 'zeros' if not d.any() else 'other data'))
            else:
                ctx.check(not d.any(), 'fill-not-zero'+key, lambda: 'row %i of slot %i: data where the file has none' % (r, pos+j))
    ctx.state((pos, n))
    return pos+n


def drain(ctx, fmt, f, pos, last, want, dec, flavour, k=4):
    while pos <= last:
        ctx.step()
        pos = check_read(ctx, fmt, f, k, pos, last, want, dec, flavour, '-drain')
    ctx.raises(EOFError, lambda: f.read(4096*dec/F.FS), 'no-eof', 'read() at the end')
    return pos


def set_ring(n):
    LSL_CONFIG.set('ldp.drx_buffer_size', n)


def histories(fmt, sname, nslot, nseg, depth, ops, dec=10, offset=0):
    """All operation sequences on a perfect file."""
    streams = STREAMS[sname]

    def fn(ctx):
        set_ring(nseg)
        order = layout(streams, nslot)
        fn = write(ctx, fmt, streams, order, 'h.dat', dec=dec, offset=offset)
        want = expected(fmt, streams, order)
        last = nslot-1
        tail = -(-32//len(streams))
        for hist in itertools.product(ops, repeat=depth):
            for flavour in ((False, False), (True, True)) if hist[0][0] == 'r' else ((False, False),):
                with ctx.case((fmt.name, sname, 'nslot=%i ring=%i' % (nslot, nseg), hist, flavour)):
                    with fmt.kls(fn) as f:
                        pos, fresh = 0, True
                        skipped = {}
                        for op in hist:
                            ctx.step()
                            if op[0] == 'r':
                                pos = check_read(ctx, fmt, f, op[1], pos, last, want if not skipped else {**want, **skipped}, dec, flavour)
                                fresh = False
                            elif op[0] == 'o':
                                target = pos+op[1]
                                if target < 0 or target+2 > nslot-tail or pos+nseg+1 > nslot-tail or pos+nseg+op[1]+3 > nslot-tail:
                                    raise vskip()
                                if skipped:
                                    raise vskip()
                                moved = f.offset(op[1]*4096*dec/F.FS)
                                m = moved*F.FS/dec/4096
                                ctx.check(abs(m-round(m)) < 1e-3, 'offset-fraction', 'offset() returned %r slots' % m)
                                ctx.check(abs(m-op[1]) < 2, 'offset-off', 'offset() of %r slots moved %r' % (op[1], m))
                                pos += int(round(m))
                                fresh = True
                            elif op[0] == 'z':
                                f.reset()
                                pos, fresh, skipped = 0, True, {}
                            elif op[0] == 'f':
                                if not fresh:
                                    raise vskip()
                                for n in range(op[1]):
                                    fr = f.read_frame()
                                    slot, s = pos + n//len(streams), n % len(streams)
                                    t, p = streams[s]
                                    ctx.equal(tuple(fr.id), (2, t, p), 'frame-id')
                                    ctx.equal(fr.payload.timetag, T0+offset+slot*4096*dec, 'frame-time')
                                    ctx.check(np.array_equal(fr.payload.data, want[slot][2*(t-1)+p]), 'frame-data', 'read_frame() data')
                                left = len(order) - pos*len(streams) - op[1]
                                ctx.equal(f.get_remaining_frame_count(), left, 'remaining')
                                ctx.equal(f.nframe_remaining, left, 'remaining')
                                pos += op[1]//len(streams)
                                if op[1] % len(streams):
                                    gone = [2*(t-1)+p for t, p in streams[:op[1] % len(streams)]]
                                    skipped = {pos: {r: v for r, v in want[pos].items() if r not in gone}}
                                fresh = False
                        drain(ctx, fmt, f, pos, last, want if not skipped else {**want, **skipped}, dec, flavour)
    return fn


def vskip():
    import vmc
    return vmc.Skip()


def irregular(fmt, sname, nslot, nseg, kinds, reads, dec=10):
    """Every single irregularity x every read size."""
    streams = STREAMS[sname]
    ns = len(streams)

    def cases():
        base = layout(streams, nslot)
        for i in range(1, len(base)-1) if 'lost' in kinds else ():
            yield 'lost %i' % i, base[:i]+base[i+1:], ()
        for i in range(len(base)-1) if 'swap' in kinds else ():
            o = list(base)
            o[i], o[i+1] = o[i+1], o[i]
            if i == 0 or nseg > 1 or o[i][0] == o[i+1][0]:
                yield 'swap %i' % i, o, ()
        for i in range(len(base)) if 'dup' in kinds and nseg > 1 else ():
            yield 'dup %i' % i, base[:i+1]+[base[i]]+base[i+1:], ()
        for i in range(32, len(base)) if 'sync' in kinds else ():
            yield 'sync %i' % i, base, (i,)
        if 'gap' in kinds:
            for g in (1, 2, 3):
                for i in range(1, nslot-g):
                    yield 'gap %i+%i' % (i, g), [b for b in base if not i <= b[0] < i+g], ()
        if 'gap2' in kinds:
            for i in range(1, nslot-3):
                for j in range(i+2, nslot-1):
                    yield 'gaps %i %i' % (i, j), [b for b in base if b[0] not in (i, j)], ()
        if 'part' in kinds:
            for i in range(1, nslot-1):
                for keep in range(ns):
                    yield 'only stream %i in slot %i' % (keep, i), [b for b in base if b[0] != i or b[1] == keep], ()

    def fn(ctx):
        set_ring(nseg)
        LSL_CONFIG.set('ldp.drx_autofill_size', 5)
        for what, order, bad in cases():
            if len(order) < 32:
                continue
            if bad and nslot*ns - 32 <= 0:
                continue
            fn = write(ctx, fmt, streams, order, 'i.dat', dec=dec, bad_sync=bad)
            want = expected(fmt, streams, order, bad)
            last = max(want)
            first = min(want)
            for rr in reads:
                with ctx.case((fmt.name, sname, 'nslot=%i ring=%i' % (nslot, nseg), what, 'reads', rr)):
                    with fmt.kls(fn) as f:
                        pos = first
                        for k in itertools.cycle(rr):
                            ctx.step()
                            if pos > last:
                                break
                            pos = check_read(ctx, fmt, f, k, pos, last, want, dec, (False, False))
                        for i in range(2):
                            ctx.raises(EOFError, lambda: f.read(4096*dec/F.FS), 'no-eof', 'read() at the end')
    return fn


def big_gap(fmt):
    """Gaps larger than what may be filled are reported (or, on request, tolerated)."""
    streams = STREAMS['4']

    def fn(ctx):
        for nseg in (1, 3):
            set_ring(nseg)
            for fill in (0, 1, 2, 4):
                LSL_CONFIG.set('ldp.drx_autofill_size', fill)
                for g in range(1, 6):
                    for at in (1, 5, 9, 13):
                        order = [b for b in layout(streams, 16+g) if not at <= b[0] < at+g]
                        if len(order) < 32:
                            continue
                        want = expected(fmt, streams, order)
                        last = 15+g
                        fn = write(ctx, fmt, streams, order, 'g.dat')
                        for ignore in (False, True):
                            with ctx.case((fmt.name, 'gap of %i at %i, fill limit %i, ring %i, ignore=%s' % (g, at, fill, nseg, ignore))):
                                with fmt.kls(fn, ignore_timetag_errors=ignore) as f:
                                    if g < fill:
                                        drain(ctx, fmt, f, 0, last, want, 10, (False, False), 3)
                                    elif ignore:
                                        seen = []
                                        while True:
                                            try:
                                                d, t, data = f.read(4096*10/F.FS)
                                            except EOFError:
                                                break
                                            slot = round((float(t)-T0/F.FS)*F.FS/40960)
                                            seen.append(slot)
                                            ctx.check(slot in want and np.array_equal(data[0], want[slot][0]), 'ignored-gap-data', 'slot %i' % slot)
                                        ctx.equal(seen, sorted(want), 'ignored-gap-slots', 'slots returned around a gap')
                                    else:
                                        def go():
                                            while True:
                                                f.read(4096*10/F.FS)
                                        ctx.raises(RuntimeError, go, 'gap-not-reported', 'a gap of %i slots' % g)
    return fn


def rates(fmt, split):
    """Every filter code: start, description and time step."""
    mod = drx if fmt.name == 'DRX' else drx8

    def fn(ctx):
        set_ring(2)
        codes = sorted(drx.FILTER_CODES.values() if hasattr(drx, 'FILTER_CODES') else [])
        decs = sorted({int(round(F.FS/r)) for r in codes}) or [10, 20, 40, 98, 196, 392, 784]
        for dec in decs:
            for offset in (0, 600):
                for pre in (0, 1, 17, fmt.size-1) if dec == decs[0] else (0, 3):
                    for tail in (0, 1, 31, 33, fmt.size-1) if dec == decs[0] else (0, 40):
                        for sname in STREAMS:
                            streams = STREAMS[sname]
                            nslot = 36//len(streams)+1
                            order = layout(streams, nslot)
                            full = fmt.build(beam=2, tune=1, pol=0, payload=F.rot(fmt.n, 5), timetag=T0)
                            fn = write(ctx, fmt, streams, order, 'r.dat', dec=dec, offset=offset, prefix=b'\x01'*pre, tail=full[:tail])
                            want = expected(fmt, streams, order)
                            with ctx.case((fmt.name, sname, 'decimation %i offset %i prefix %i tail %i' % (dec, offset, pre, tail))):
                                with fmt.kls(fn) as f:
                                    srate = F.FS/dec
                                    ctx.equal(f.get_info('beam'), 2, 'info-beam')
                                    ctx.equal(f.get_info('nbeampol'), len(streams), 'info-nbeampol')
                                    ctx.equal(f.get_info('frame_size'), fmt.size, 'info-frame_size')
                                    ctx.equal(f.get_info('size'), os.path.getsize(fn), 'info-size')
                                    ctx.equal(f.get_info('nframe'), (len(order)*fmt.size+tail)//fmt.size, 'info-nframe')
                                    ctx.check(abs(f.get_info('sample_rate')-srate) < 1e-6, 'info-sample_rate')
                                    ctx.equal(f.get_info('data_bits'), 4 if fmt.name == 'DRX' else 8, 'info-data_bits')
                                    ctx.equal(f.get_info('start_time_samples'), T0, 'info-start')
                                    ctx.check(abs(float(f.get_info('start_time'))-T0/F.FS) < 1e-6, 'info-start')
                                    for t in (1, 2):
                                        w = F.FS*1000000000*t/2**32 if any(s[0] == t for s in streams) else 0.0
                                        ctx.check(abs(f.get_info('freq%i' % t)-w) < 1e-3, 'info-freq', 'freq%i' % t)
                                    ctx.equal(f.get_remaining_frame_count(), (len(order)*fmt.size+tail)//fmt.size, 'remaining')
                                    drain(ctx, fmt, f, 0, nslot-1, want, dec, (offset > 0, False), 3)
                                    f.reset()
                                    drain(ctx, fmt, f, 0, nslot-1, want, dec, (False, True), 5)
    return fn


def sequence(fmt):
    """read_sequence() is the same as repeated read()s and ends at the end of the file."""
    def fn(ctx):
        streams = STREAMS['4']
        for nseg in (1, 2, 4, 9):
            set_ring(nseg)
            for nslot in (8, 9, 11):
                for tail in (0, 20, 4000):
                    order = layout(streams, nslot)
                    fn = write(ctx, fmt, streams, order, 's.dat', tail=b'\xde\xc0\xde\x5c'*(tail//4))
                    want = expected(fmt, streams, order)
                    for k in (1, 2, 3, 4, 5, 9, 12):
                        with ctx.case((fmt.name, 'read_sequence of %i slots, ring %i, %i slots, tail %i' % (k, nseg, nslot, tail))):
                            with fmt.kls(fn) as f:
                                pos = 0
                                for n, (d, t, data) in enumerate(f.read_sequence(k*40960/F.FS)):
                                    ctx.step()
                                    m = min(k, nslot-pos)
                                    ctx.check(m > 0, 'sequence-endless', 'read_sequence() goes on after the end of the file')
                                    ctx.check(abs(d-m*40960/F.FS) < 1e-9, 'duration', 'chunk %i: duration' % n)
                                    ctx.check(abs(float(t)-slot_time(pos, 10)/F.FS) < 1e-6, 'start-time', 'chunk %i: start time' % n)
                                    for j in range(m):
                                        for r in range(4):
                                            ctx.check(np.array_equal(data[r, j*4096:(j+1)*4096], want[pos+j][r]), 'wrong-samples', 'chunk %i' % n)
                                    pos += m
                                ctx.equal(pos, nslot, 'sequence-short', 'slots returned by read_sequence()')
    return fn


def splits(fmt):
    """The same through a file split in two, cut anywhere around frame boundaries."""
    def fn(ctx):
        streams = STREAMS['4']
        set_ring(2)
        nslot = 10
        order = layout(streams, nslot)
        whole = write(ctx, fmt, streams, order, 'w.dat')
        want = expected(fmt, streams, order)
        raw = open(whole, 'rb').read()
        for frame in range(0, 40, 3):
            for d in (0, 1, 15, fmt.size//2):
                cut = frame*fmt.size+d
                a, b = os.path.join(ctx.scratch, 'w_000'), os.path.join(ctx.scratch, 'w_001')
                with open(a, 'wb') as fh:
                    fh.write(raw[:cut])
                with open(b, 'wb') as fh:
                    fh.write(raw[cut:])
                with ctx.case((fmt.name, 'split at byte %i' % cut)):
                    with fmt.kls(fh=SplitFileWrapper([a, b])) as f:
                        ctx.equal(f.get_info('nframe'), 40, 'info-nframe')
                        drain(ctx, fmt, f, 0, nslot-1, want, 10, (False, False), 3)
    return fn


# -- DR spectrometer ---------------------------------------------------------

NPROD = {0x01: ['XX'], 0x09: ['XX', 'YY'], 0x0F: ['XX', 'XY_real', 'XY_imag', 'YY'], 0x10: ['I'], 0x90: ['I', 'V'], 0xF0: ['I', 'Q', 'U', 'V']}


def spec_file(ctx, fmt, nframe, nfreq=8, nints=6, dec=10, offset=0, lost=(), prefix=b'', tail=0, bad=(), name='spec.dat'):
    np_ = len(NPROD[fmt])
    fn = os.path.join(ctx.scratch, name)
    step = nfreq*nints*dec
    want = {}
    with open(fn, 'wb') as fh:
        fh.write(prefix)
        for i in range(nframe):
            if i in lost:
                continue
            vals = (np.arange(2*np_*nfreq) + 1000*(i+1)).astype(np.float32)
            fr = F.drspec(vals, beam=3, fmt=fmt, timetag=T0+offset+i*step, offset=offset, decimation=dec, tuning=(11, 22), nfreq=nfreq, nints=nints,
                          fills=(nints,)*4, **({'magic1': 0xC0DEC0DF} if i in bad else {}))
            fh.write(fr)
            if i not in bad:
                want[i] = vals
        if tail:
            fh.write(fr[:tail])
    return fn, want, step, len(fr)


def spec_reference(fmt, nfreq, nints, fn, i, vals):
    """expected rows, from the frame reader itself (R01 decides that one)"""
    import io
    from lsl.reader import drspec
    fr = drspec.read_frame(io.BytesIO(F.drspec(vals, beam=3, fmt=fmt, timetag=T0, nfreq=nfreq, nints=nints, fills=(nints,)*4)))
    return np.array([getattr(fr.payload, p+'0') for p in fr.data_products] + [getattr(fr.payload, p+'1') for p in fr.data_products])


def spec_read(ctx, f, k, pos, frames, want, step, rows, samples):
    """frames: ordered list of frame indices in the file; pos: index into it"""
    tint = step/F.FS
    n = min(max(int(round(k)), 1), len(frames)-pos)
    if n <= 0:
        ctx.raises(EOFError, lambda: f.read(k*tint), 'no-eof', 'read past the end')
        return pos
    d, t, data = f.read(k*tint, time_in_samples=samples)
    ctx.check(abs(d-n*tint) < 1e-9, 'duration', lambda: 'read(%g) at %i: %r frames, expected %i' % (k, pos, d/tint, n))
    tick = T0+frames[pos]*step
    if samples:
        ctx.equal(t, tick, 'start-time')
    else:
        ctx.check(abs(float(t)-tick/F.FS) < 1e-6, 'start-time', lambda: '%r, expected %r' % (t, tick/F.FS))
    ctx.equal(data.shape[1], max(int(round(k)), 1), 'shape')
    for j in range(data.shape[1]):
        if j < n:
            ctx.check(np.array_equal(data[:, j, :], rows[frames[pos+j]]), 'wrong-spectra', 'frame %i' % frames[pos+j])
        else:
            ctx.check(not data[:, j, :].any(), 'fill-not-zero', 'frame beyond the end')
    ctx.state((pos, n))
    return pos+n


def spectrometer(tier):
    def fn(ctx):
        depth = 2 if tier == 'quick' else 3
        ops = [('r', 1), ('r', 2), ('r', 3.2), ('r', 0.2), ('r', 20), ('o', 1), ('o', 3), ('o', 0), ('o', -1), ('z',), ('f',)]
        for fmt in NPROD:
            for nframe, dec, offset in ((1, 10, 0), (2, 20, 0), (7, 10, 600), (12, 98, 0)):
                fn, want, step, size = spec_file(ctx, fmt, nframe, dec=dec, offset=offset)
                rows = {i: spec_reference(fmt, 8, 6, fn, i, v) for i, v in want.items()}
                frames = sorted(want)
                for hist in itertools.product(ops, repeat=depth):
                    with ctx.case(('DRSpec format %#x' % fmt, nframe, dec, offset, hist)):
                        with ldp.DRSpecFile(fn) as f:
                            ctx.equal((f.get_info('beam'), f.get_info('nframe'), f.get_info('LFFT'), f.get_info('nint'), f.get_info('data_products')),
                                      (3, nframe, 8, 6, NPROD[fmt]), 'info')
                            ctx.check(abs(f.get_info('tint')-step/F.FS) < 1e-12 and abs(float(f.get_info('start_time'))-T0/F.FS) < 1e-6, 'info-time')
                            ctx.equal(f.get_info('start_time_samples'), T0, 'info-time')
                            pos = 0
                            for op in hist:
                                ctx.step()
                                if op[0] == 'r':
                                    pos = spec_read(ctx, f, op[1], pos, frames, want, step, rows, op[1] == 2)
                                elif op[0] == 'o':
                                    if pos >= nframe or not 0 <= pos+op[1] < nframe:
                                        raise vskip()
                                    m = f.offset(op[1]*step/F.FS)*F.FS/step
                                    ctx.check(abs(m-op[1]) < 1e-3, 'offset', 'offset of %i frames moved %r' % (op[1], m))
                                    pos += op[1]
                                elif op[0] == 'z':
                                    f.reset()
                                    pos = 0
                                elif pos < nframe:
                                    fr = f.read_frame()
                                    ctx.equal(fr.payload.timetag, T0+offset+pos*step, 'frame-time')
                                    pos += 1
                                    ctx.equal(f.get_remaining_frame_count(), nframe-pos, 'remaining')
                            while pos < nframe:
                                pos = spec_read(ctx, f, 2, pos, frames, want, step, rows, False)
                            ctx.raises(EOFError, lambda: f.read(1.0), 'no-eof', 'read() at the end')
    return fn


def spec_irregular(ctx):
    fmt = 0x09
    for nframe in (5, 8):
        for pre in (0, 1, 5, 40):
            for tail in (0, 1, 50, 76, 100, 143):
                for what, lost, bad in [('none', (), ())] + [('lost %i' % i, (i,), ()) for i in range(1, nframe-1)] + [('bad magic %i' % i, (), (i,)) for i in range(1, nframe)]:
                    fn, want, step, size = spec_file(ctx, fmt, nframe, lost=lost, bad=bad, prefix=b'\x11'*pre, tail=min(tail, 203))
                    rows = {i: spec_reference(fmt, 8, 6, fn, i, v) for i, v in want.items()}
                    frames = sorted(want)
                    for k in (1, 2, 3, 9):
                        for ignore in (False, True):
                            with ctx.case(('DRSpec', nframe, 'prefix %i tail %i' % (pre, tail), what, 'read %i' % k, 'ignore=%s' % ignore)):
                                with ldp.DRSpecFile(fn, ignore_timetag_errors=ignore) as f:
                                    hole = any(b-a > 1 for a, b in zip(frames, frames[1:]))
                                    if hole and not ignore:
                                        def go():
                                            for n, _ in enumerate(f.read_sequence(k*step/F.FS)):
                                                ctx.check(n < 20, 'sequence-endless', 'read_sequence() does not end')
                                        ctx.raises(RuntimeError, go, 'gap-not-reported')
                                    else:
                                        pos = 0
                                        while pos < len(frames):
                                            ctx.step()
                                            pos = spec_read(ctx, f, k, pos, frames, want, step, rows, False)
                                        for i in range(2):
                                            ctx.raises(EOFError, lambda: f.read(1.0), 'no-eof', 'read() at the end')


def units(tier):
    out = {'spectrometer': spectrometer(tier), 'spectrometer irregular': spec_irregular}
    ops = [('r', 1), ('r', 2), ('r', 5), ('r', 0.3), ('r', 40), ('o', 0), ('o', 1), ('o', 4), ('o', -1), ('o', -3), ('z',), ('f', 1), ('f', 4), ('f', 5)]
    for name in ('DRX', 'DRX8'):
        fmt = Fmt(name)
        for sname, nslot, nseg in (('4', 22, 3), ('2', 34, 2), ('4', 18, 1), ('t2', 30, 4)):
            out['%s histories %s n=%i ring=%i' % (name, sname, nslot, nseg)] = histories(fmt, sname, nslot, nseg, 2 if tier == 'quick' else 3, ops, offset=0 if nseg != 4 else 40)
        reads = ((1,), (3,), (9, 1), (20,)) if tier == 'quick' else ((1,), (2,), (3,), (4, 1), (5,), (7, 2), (9, 1), (11,), (20,))
        for nseg in ((1, 3) if tier == 'quick' else (1, 2, 3, 5)):
            for kinds in (('lost', 'dup'), ('swap', 'sync'), ('gap', 'part'), ('gap2',)):
                out['%s irregular %s ring=%i' % (name, '+'.join(kinds), nseg)] = irregular(fmt, '4', 11, nseg, kinds, reads)
                if tier != 'quick' or nseg == 3:
                    out['%s irregular 2 streams %s ring=%i' % (name, '+'.join(kinds), nseg)] = irregular(fmt, '2', 19, nseg, kinds, reads[1:3])
        out['%s irregular t2' % name] = irregular(fmt, 't2', 19, 2, ('lost', 'gap'), reads)
        out['%s irregular 1' % name] = irregular(fmt, '1', 37, 2, ('lost', 'gap'), reads[1:3])
        out['%s gaps' % name] = big_gap(fmt)
        out['%s rates' % name] = rates(fmt, False)
        out['%s sequence' % name] = sequence(fmt)
        out['%s split' % name] = splits(fmt)
    return out
