"""
R08 - the functions that describe a file (rates, sizes, counts, channels) give
the values of the file they are handed, leave it where it was, and
LWADataFile opens every file as what it is.
"""
import io
import os
import itertools
import numpy as np

import frames as F
from lsl.reader import drx, drx8, tbx, cor, drspec, vdif, ldp
from lsl.reader.utils import SplitFileWrapper

BOUNDS = ('DRX/DRX8: all 7 filter codes, all sets of 1-4 streams of 1-2 beams, every starting frame of a set; TBX: 12 modes x 1-4 channel blocks in every order; COR: 4 channel '
          'counts x 1-3 blocks in every order; spectrometer: 9 product sets x 4 transform sizes x 4 filters; VDIF: 1-3 threads x 1-5 frames per second x every starting '
          'frame x thread orders; type detection: all formats, 2-6 frames, prefixes of 0-40 bytes and every piece of a frame at 97 byte steps, split or not')
ASSUMPTIONS = ['prefixes do not contain a sync word', 'a beam file holds at least 32 frames, a VDIF file at least two seconds']

T0 = 294999881040793600
DECS = {784: (250000, 1), 392: (500000, 2), 196: (1000000, 3), 98: (2000000, 4), 40: (4900000, 5), 20: (9800000, 6), 10: (19600000, 7)}


def keeps(ctx, fh, fn, what):
    mark = fh.tell()
    r = fn()
    ctx.equal(fh.tell(), mark, 'position', 'file position after %s' % what)
    ctx.step()
    return r


def beam(mod, build, n):
    def fn(ctx):
        for dec, (rate, code) in DECS.items():
            ids = [(1, 1, 0), (1, 1, 1), (1, 2, 0), (1, 2, 1), (2, 1, 0), (4, 2, 1), (3, 1, 1)]
            sets = [s for k in (1, 2, 4) for s in itertools.combinations(ids, k)]
            if dec != 10:
                sets = sets[:9]
            for s in sets:
                with ctx.case('%s decimation %i streams %r' % (mod.__name__, dec, s)):
                    raw = b''.join(build(beam=b, tune=t, pol=p, decimation=dec, timetag=T0+i*dec*4096) for i in range(40//len(s)+1) for b, t, p in s)
                    fh = io.BytesIO(raw)
                    size = 32+n
                    for start in range(len(s)):
                        fh.seek(start*size)
                        ctx.equal(keeps(ctx, fh, lambda: mod.get_sample_rate(fh), 'get_sample_rate'), rate, 'sample-rate')
                        ctx.equal(keeps(ctx, fh, lambda: mod.get_sample_rate(fh, filter_code=True), 'get_sample_rate'), code, 'filter-code')
                        ctx.equal(keeps(ctx, fh, lambda: mod.get_beam_count(fh), 'get_beam_count'), len(set(b for b, t, p in s)), 'beam-count')
                        want = tuple(len([1 for b, t, p in s if b == k]) for k in (1, 2, 3, 4))
                        ctx.equal(tuple(keeps(ctx, fh, lambda: mod.get_frames_per_obs(fh), 'get_frames_per_obs')), want, 'frames-per-obs')
                        ctx.state((dec, s, start))
    return fn


def tbx_unit(ctx):
    for nstand in (64, 128, 256):
        for nchan in (4, 8, 12, 16):
            for nb in (1, 2, 3):
                for chans in itertools.permutations([1000+nchan*k for k in range(nb)]):
                    with ctx.case('tbx %ix%i channels %r' % (nstand, nchan, chans)):
                        raw = [F.tbx(nstand=nstand, nchan=nchan, first_chan=c, count=t+7, timetag=T0+t) for t in range(3) for c in chans]
                        size = len(raw[0])
                        for prefix in (b'', b'\x01'*13):
                            fh = io.BytesIO(prefix + b''.join(raw))
                            for start in range(len(chans)):
                                fh.seek(start*size if not prefix else 0)
                                if prefix and start:
                                    continue
                                ctx.equal(keeps(ctx, fh, lambda: tbx.get_frame_size(fh), 'get_frame_size'), size, 'frame-size')
                                ctx.equal(keeps(ctx, fh, lambda: tbx.get_frames_per_obs(fh), 'get_frames_per_obs'), nb, 'frames-per-obs')
                                ctx.equal(keeps(ctx, fh, lambda: tbx.get_channel_count(fh), 'get_channel_count'), nb*nchan, 'channel-count')
                                ctx.equal(keeps(ctx, fh, lambda: tbx.get_first_channel(fh), 'get_first_channel'), min(chans), 'first-channel')
                                ctx.equal(keeps(ctx, fh, lambda: tbx.get_first_channel(fh, all_frames=True), 'get_first_channel'), sorted(chans), 'first-channel')
                                f = keeps(ctx, fh, lambda: tbx.get_first_channel(fh, frequency=True, all_frames=True), 'get_first_channel')
                                ctx.check(np.allclose(f, [c*196e6/8192 for c in sorted(chans)], rtol=1e-6), 'first-channel', lambda: 'frequencies %r' % (f,))
                                f = keeps(ctx, fh, lambda: tbx.get_first_channel(fh, frequency=True), 'get_first_channel')
                                ctx.check(np.allclose(f, min(chans)*196e6/8192, rtol=1e-6), 'first-channel', lambda: 'frequency %r' % (f,))
                                ctx.equal(keeps(ctx, fh, lambda: tbx.get_first_frame_count(fh), 'get_first_frame_count'), 7, 'first-frame-count')
                                ctx.state((nstand, nchan, chans, start))


def cor_unit(ctx):
    for nchan in (33, 72, 112, 192):
        for nb in (1, 2, 3):
            for chans in itertools.permutations([500+nchan*k for k in range(nb)]):
                for minor in (True, False):
                    with ctx.case('cor %i channels %r %s' % (nchan, chans, 'channel fastest' if minor else 'baseline fastest')):
                        order = [(c, s) for s in range(1, 5) for c in chans] if minor else [(c, s) for c in chans for s in range(1, 5)]
                        raw = [F.cor(nchan=nchan, first_chan=c, stand0=1, stand1=s, timetag=T0) for c, s in order]
                        size = len(raw[0])
                        fh = io.BytesIO(b''.join(raw))
                        ctx.equal(keeps(ctx, fh, lambda: cor.get_frame_size(fh), 'get_frame_size'), size, 'frame-size')
                        ctx.equal(keeps(ctx, fh, lambda: cor.get_channel_count(fh), 'get_channel_count'), nb*nchan, 'channel-count')
                        ctx.equal(keeps(ctx, fh, lambda: cor.get_baseline_count(fh), 'get_baseline_count'), 32896, 'baseline-count')
                        ctx.equal(keeps(ctx, fh, lambda: cor.get_frames_per_obs(fh), 'get_frames_per_obs'), nb*32896, 'frames-per-obs')
                        ctx.equal(keeps(ctx, fh, lambda: cor.get_first_channel(fh), 'get_first_channel'), min(chans), 'first-channel')
                        ctx.equal(keeps(ctx, fh, lambda: cor.get_first_channel(fh, all_frames=True), 'get_first_channel'), sorted(chans), 'first-channel')
                        f = keeps(ctx, fh, lambda: cor.get_first_channel(fh, frequency=True), 'get_first_channel')
                        ctx.check(np.allclose(f, min(chans)*196e6/8192, rtol=1e-6), 'first-channel', lambda: 'frequency %r' % (f,))
                        ctx.state((nchan, chans, minor))


PRODUCTS = {0x01: ['XX'], 0x02: ['XY_real'], 0x04: ['XY_imag'], 0x08: ['YY'], 0x09: ['XX', 'YY'], 0x0f: ['XX', 'XY_real', 'XY_imag', 'YY'],
            0x10: ['I'], 0x90: ['I', 'V'], 0xf0: ['I', 'Q', 'U', 'V']}


def drspec_unit(ctx):
    for fmt, prods in PRODUCTS.items():
        for nfreq in (1, 8, 32, 1024):
            for dec, (rate, code) in DECS.items():
                for nints in (1, 768, 6144):
                    with ctx.case('drspec %#x %i channels decimation %i nints %i' % (fmt, nfreq, dec, nints)):
                        raw = [F.drspec(np.ones(2*nfreq*len(prods)), fmt=fmt, nfreq=nfreq, decimation=dec, nints=nints, timetag=T0+k) for k in range(2)]
                        fh = io.BytesIO(b''.join(raw))
                        for k in range(2):
                            fh.seek(k*len(raw[0]))
                            ctx.equal(keeps(ctx, fh, lambda: drspec.get_frame_size(fh), 'get_frame_size'), len(raw[0]), 'frame-size')
                            ctx.equal(list(keeps(ctx, fh, lambda: drspec.get_data_products(fh), 'get_data_products')), prods, 'data-products')
                            ctx.equal(bool(keeps(ctx, fh, lambda: drspec.is_linear(fh), 'is_linear')), fmt < 16, 'is-linear')
                            ctx.equal(bool(keeps(ctx, fh, lambda: drspec.is_stokes(fh), 'is_stokes')), fmt >= 16, 'is-stokes')
                            ctx.equal(keeps(ctx, fh, lambda: drspec.get_sample_rate(fh), 'get_sample_rate'), rate, 'sample-rate')
                            ctx.equal(keeps(ctx, fh, lambda: drspec.get_sample_rate(fh, filter_code=True), 'get_sample_rate'), code, 'filter-code')
                            ctx.equal(keeps(ctx, fh, lambda: drspec.get_ffts_per_integration(fh), 'get_ffts_per_integration'), nints, 'ffts')
                            ctx.equal(keeps(ctx, fh, lambda: drspec.get_transform_size(fh), 'get_transform_size'), nfreq, 'transform-size')
                            t = keeps(ctx, fh, lambda: drspec.get_integration_time(fh), 'get_integration_time')
                            ctx.check(abs(t*rate - nints*nfreq) < 1e-6*nints*nfreq, 'integration-time', lambda: 'got %r' % t)
                        ctx.state((fmt, nfreq, dec, nints))


def vdif_unit(ctx):
    for nthread in (1, 2, 3):
        for fps in (1, 2, 3, 5):
            for order in itertools.permutations(range(nthread)):
                for bits, cplx, leg in ((8, 0, 0), (2, 0, 1), (4, 1, 0)):
                    raw = []
                    for s in range(3):
                        for f in range(fps):
                            for t in order:
                                raw.append(F.vdif(F.rot(64, s*7+f), bits=bits, is_complex=cplx, legacy=leg, seconds=100+s, frame=f, thread=t*3+1))
                    size = len(raw[0])
                    fh = io.BytesIO(b''.join(raw))
                    for start in range(nthread*fps):
                        with ctx.case('vdif %i threads %i frames/s order %r bits %i from frame %i' % (nthread, fps, order, bits, start)):
                            fh.seek(start*size)
                            ctx.equal(keeps(ctx, fh, lambda: vdif.get_frame_size(fh), 'get_frame_size'), size, 'frame-size')
                            ctx.equal(keeps(ctx, fh, lambda: vdif.get_thread_count(fh), 'get_thread_count'), nthread, 'thread-count')
                            ctx.equal(keeps(ctx, fh, lambda: vdif.get_frames_per_second(fh), 'get_frames_per_second'), fps, 'frames-per-second')
                            ctx.equal(keeps(ctx, fh, lambda: vdif.get_sample_rate(fh), 'get_sample_rate'), fps*64*8//bits//(2 if cplx else 1), 'sample-rate')
                            ctx.state((nthread, fps, order, bits, start))


def contents(kind, n):
    """n frames of a kind"""
    if kind == 'DRX':
        return [F.drx(tune=1+(k & 1), pol=(k >> 1) & 1, timetag=T0+(k//4)*40960, payload=F.rot(4096, k)) for k in range(n)]
    if kind == 'DRX8':
        return [F.drx8(tune=1+(k & 1), pol=(k >> 1) & 1, timetag=T0+(k//4)*40960, payload=F.rot(8192, k)) for k in range(n)]
    if kind.startswith('TBX'):
        ns, nc = {'TBX64': (64, 4), 'TBX256': (256, 16)}[kind]
        return [F.tbx(nstand=ns, nchan=nc, first_chan=100+nc*(k & 1), count=1+k//2, timetag=T0+(k//2)*8192, payload=F.rot(ns*nc*2, k)) for k in range(n)]
    if kind.startswith('COR'):
        nc = int(kind[3:])
        return [F.cor(nchan=nc, stand0=1, stand1=k+1, timetag=T0) for k in range(n)]
    fmt, nfreq = {'SPEC1': (1, 32), 'SPECF0': (0xf0, 1024)}[kind]
    return [F.drspec(np.arange(2*nfreq*(1 if fmt == 1 else 4))+1, fmt=fmt, nfreq=nfreq, timetag=T0+k*40960*4, nints=768) for k in range(n)]


KIND = {'DRX': ldp.DRXFile, 'DRX8': ldp.DRX8File, 'TBX64': ldp.TBXFile, 'TBX256': ldp.TBXFile, 'COR33': ldp.CORFile, 'COR192': ldp.CORFile, 'SPEC1': ldp.DRSpecFile, 'SPECF0': ldp.DRSpecFile}


def detect(kind):
    def fn(ctx):
        beamy = kind.startswith('DRX')
        counts = (40,) if beamy else ((40,) if kind.startswith('COR') else (2, 3, 4, 6, 9))
        for n in counts:
            raw = contents(kind, n)
            whole = b''.join(raw)
            size = len(raw[0])
            prefixes = [b'']
            if not kind.startswith('SPEC'):
                prefixes += [bytes((i*5+k) % 100 for i in range(k)) for k in (1, 2, 31, 40)]
                prefixes += [raw[0][-k:] for k in range(1, min(size, 2400) if not beamy else size, 97)]
            for prefix in prefixes:
                for how in ('name', 'handle', 'text handle', 'split'):
                    if how != 'name' and len(prefix) not in (0, 1, 98):
                        continue
                    with ctx.case('%s: %i frames after %i other bytes, opened by %s' % (kind, n, len(prefix), how)):
                        fn_ = os.path.join(ctx.scratch, 'f.dat')
                        with open(fn_, 'wb') as fh:
                            fh.write(prefix+whole)
                        if how == 'name':
                            f = ldp.LWADataFile(fn_)
                        elif how == 'handle':
                            f = ldp.LWADataFile(fh=open(fn_, 'rb'))
                        elif how == 'text handle':
                            f = ldp.LWADataFile(fh=open(fn_, 'r'))
                        else:
                            with open(fn_ + 'a', 'wb') as fh:
                                fh.write((prefix+whole)[:len(whole)//2])
                            with open(fn_ + 'b', 'wb') as fh:
                                fh.write((prefix+whole)[len(whole)//2:])
                            f = ldp.LWADataFile(fh=SplitFileWrapper([fn_ + 'a', fn_ + 'b']))
                        try:
                            ctx.equal(type(f).__name__, KIND[kind].__name__, 'type', 'detected type')
                            ctx.check(isinstance(f, KIND[kind]), 'type')
                            fr = f.read_frame()
                            first = getattr(fr, 'time')
                            ctx.check(first is not None, 'frame')
                        finally:
                            f.close()
                        ctx.step()
                        ctx.state((kind, n, len(prefix), how))
    return fn


def reject(ctx):
    """What is not an LWA file is refused with RuntimeError."""
    for name, data in [('empty', b''), ('one byte', b'x'), ('zeros', bytes(20000)), ('bytes', bytes(range(256))*60), ('text', b'hello world\n'*900),
                       ('sync only', F.SYNC), ('vdif', b''.join(F.vdif(bytes(64), frame=k) for k in range(200))), ('half a frame', F.drx()[:2000])]:
        with ctx.case('not an LWA file: %s' % name):
            fn_ = os.path.join(ctx.scratch, 'n.dat')
            with open(fn_, 'wb') as fh:
                fh.write(data)
            ctx.raises(RuntimeError, lambda: ldp.LWADataFile(fn_), 'accepted', 'opening %s' % name)
            ctx.step()
            ctx.state(name)


def units(tier):
    out = {'drx': beam(drx, F.drx, 4096), 'drx8': beam(drx8, F.drx8, 8192), 'tbx': tbx_unit, 'cor': cor_unit, 'drspec': drspec_unit, 'vdif': vdif_unit, 'reject': reject}
    for k in KIND:
        out['detect ' + k] = detect(k)
    return out
