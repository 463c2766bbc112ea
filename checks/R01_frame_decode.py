"""
R01 - every frame is decoded exactly as it is stored.

Complete products of (payload position x byte value), of single-bit header
patterns and of frame-mode sequences are written as bytes, read back with the
public readers, and compared with an independent decoder.
"""
import io
import itertools
import numpy as np

import frames as F
from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
from lsl.common import ndp

BOUNDS = ('every (payload byte position, byte value) pair for DRX, DRX8, all 12 TBX modes and 1/2/4/8-bit VDIF; every single-bit-set and '
          'single-bit-cleared value of every header field; all 13 spectrometer formats x fills {1,2,3}^4; all ordered pairs/triples of TBX and COR '
          'frame sizes and of file formats read one after another in one process')
ASSUMPTIONS = ['frames are well formed; COR files hold at least two frames unless they use 192 channels']


def patterns(bits):
    full = (1 << bits)-1
    out = [0, full]
    for i in range(bits):
        out += [1 << i, full ^ (1 << i)]
    return sorted(set(out))


def ci8_to_int(d):
    return np.stack([d['re'], d['im']], axis=-1).astype(np.int16)


def cplx_to_int(d):
    return np.stack([d.real, d.imag], axis=-1)


def same(ctx, got, want, key, what):
    got = np.asarray(got)
    ctx.equal(got.shape, want.shape, key + '-shape', what + ' shape')
    if not np.array_equal(got, want):
        i = np.argwhere(got != want)[0]
        ctx.fail(key, '%s: element %r is %r, expected %r (%i differ)' % (what, tuple(i), got[tuple(i)], want[tuple(i)], (got != want).sum()))


# ---- DRX / DRX8

def drx_payload(mod, build, n, unpack):
    def fn(ctx):
        for k in range(256):
            with ctx.case('payload rotation %i' % k):
                p = F.rot(n, k)
                raw = build(payload=p)
                want = unpack(p)
                fh = io.BytesIO(raw + raw)
                f = mod.read_frame(fh)
                ctx.equal(fh.tell(), len(raw), 'position', 'file position after a frame')
                ctx.equal(f.payload.data.dtype, np.dtype(np.complex64), 'dtype')
                same(ctx, cplx_to_int(f.payload.data), want, 'samples', 'complex samples')
                g = mod.read_frame_ci8(fh)
                same(ctx, ci8_to_int(g.payload.data), want, 'samples-ci8', '8-bit complex integer samples')
                ctx.equal(fh.tell(), 2*len(raw), 'position', 'file position after a frame')
                ctx.step(2)
                ctx.state(k)
    return fn


DRX_FIELDS = [('count', 24, lambda f: f.header.frame_count), ('drx_id', 8, lambda f: f.header.drx_id), ('second', 32, lambda f: f.header.second_count),
              ('decimation', 16, lambda f: f.header.decimation), ('offset', 16, lambda f: f.header.time_offset),
              ('timetag', 64, lambda f: f.payload.timetag), ('tuning', 32, lambda f: f.payload.tuning_word), ('flags', 32, lambda f: f.payload.flags)]


def drx_header(mod, build):
    def fn(ctx):
        base = dict(count=5, drx_id=0x8A, second=77, decimation=20, offset=3, timetag=123456789012345678, tuning=99, flags=1)
        for name, bits, get in DRX_FIELDS:
            for v in patterns(bits):
                for reader in (mod.read_frame, mod.read_frame_ci8):
                    with ctx.case('%s=%#x %s' % (name, v, reader.__name__)):
                        kw = dict(base)
                        kw[name] = v
                        f = reader(io.BytesIO(build(**kw)))
                        for n2, b2, g2 in DRX_FIELDS:
                            ctx.equal(g2(f), kw[n2], 'field-' + n2, n2)
                        i = kw['drx_id']
                        ctx.equal(f.id, (i & 7, (i >> 3) & 7, i >> 7), 'id', 'beam/tuning/polarization')
                        if kw['decimation']:
                            ctx.equal(f.sample_rate, 196e6/kw['decimation'], 'sample_rate')
                        ctx.check(abs(f.central_freq - kw['tuning']*196e6/2**32) <= 1e-6, 'central_freq', 'central_freq %r' % f.central_freq)
                        if mod is drx:
                            ctx.equal(f.is_drx, not (i & 0x40), 'is_drx')
                        else:
                            ctx.equal(f.is_drx8, bool(i & 0x40), 'is_drx8')
                        ctx.step()
                        ctx.state((name, v))
        for code, rate in mod.FILTER_CODES.items():
            with ctx.case('filter code %i' % code):
                f = mod.read_frame(io.BytesIO(build(decimation=196000000//rate)))
                ctx.equal(f.sample_rate, float(rate), 'sample_rate')
                ctx.equal(f.filter_code, code, 'filter_code')
        for g in (None, 1, 7):
            with ctx.case('gain %r' % (g,)):
                for reader in (mod.read_frame, mod.read_frame_ci8):
                    ctx.equal(reader(io.BytesIO(build()), gain=g).gain, g, 'gain')
    return fn


# ---- TBX

TBX_MODES = [(s, c) for s in (64, 128, 256) for c in (4, 8, 12, 16)]


def check_tbx(ctx, f, kw, payload, ci8):
    want = F.unpack44(payload).reshape(kw['nchan'], kw['nstand'], 2, 2)
    d = f.payload.data
    if ci8:
        same(ctx, ci8_to_int(d), want, 'samples-ci8', 'TBX ci8 samples')
    else:
        same(ctx, cplx_to_int(d), want, 'samples', 'TBX samples')
    ctx.equal((f.header.frame_id, f.header.frame_count, f.header.second_count, f.header.first_chan, f.header.nstand, f.header.nchan, f.payload.timetag),
              (kw['frame_id'], kw['count'], kw['second'], kw['first_chan'], kw['nstand'], kw['nchan'], kw['timetag']), 'header', 'TBX header')
    ctx.equal((f.nstand, f.nchan, f.is_tbx), (kw['nstand'], kw['nchan'], kw['frame_id'] == 8), 'header', 'TBX frame')
    fr = f.channel_freqs
    ctx.equal(len(fr), kw['nchan'], 'channel_freqs', 'number of channel frequencies')
    w = (np.arange(kw['nchan']) + float(kw['first_chan']))*ndp.fC
    ctx.check(np.allclose(fr, w, rtol=1e-6), 'channel_freqs', lambda: 'channel frequencies %r, expected %r' % (fr, w))


def tbx_kw(mode, k=0):
    return dict(nstand=mode[0], nchan=mode[1], frame_id=8, count=k+1, second=k+2, first_chan=16*k+10, timetag=10**17+k)


def tbx_payload(mode):
    def fn(ctx):
        n = mode[0]*mode[1]*2
        for k in range(256):
            with ctx.case('TBX %r rotation %i' % (mode, k)):
                p = F.rot(n, k)
                kw = tbx_kw(mode, k)
                raw = F.tbx(payload=p, **kw)
                fh = io.BytesIO(raw + raw)
                check_tbx(ctx, tbx.read_frame(fh), kw, p, False)
                ctx.equal(fh.tell(), len(raw), 'position')
                check_tbx(ctx, tbx.read_frame_ci8(fh), kw, p, True)
                ctx.step(2)
                ctx.state((mode, k))
    return fn


def tbx_header(ctx):
    mode = (64, 4)
    for name, bits in (('frame_id', 8), ('count', 24), ('second', 32), ('first_chan', 32), ('timetag', 63)):
        for v in patterns(bits):
            with ctx.case('TBX %s=%#x' % (name, v)):
                kw = tbx_kw(mode)
                kw[name] = v
                p = F.rot(512, 3)
                check_tbx(ctx, tbx.read_frame(io.BytesIO(F.tbx(payload=p, **kw))), kw, p, False)
                ctx.step()
                ctx.state((name, v))


def tbx_modes(first):
    """All sequences of three modes, in one file and in three files, read to the end."""
    def fn(ctx):
        for a, b in itertools.product(TBX_MODES, repeat=2):
            seq = (first, a, b)
            raws = []
            for k, m in enumerate(seq):
                kw = tbx_kw(m, k)
                p = F.rot(m[0]*m[1]*2, 31*k)
                raws.append((kw, p, F.tbx(payload=p, **kw)))
            for split in (False, True):
                for ci8 in (False, True):
                    with ctx.case('TBX modes %r %s ci8=%s' % (seq, 'three files' if split else 'one file', ci8)):
                        fh = io.BytesIO(b''.join(r[2] for r in raws))
                        rd = tbx.read_frame_ci8 if ci8 else tbx.read_frame
                        for kw, p, raw in raws:
                            if split:
                                fh = io.BytesIO(raw)
                            pos = fh.tell()
                            check_tbx(ctx, rd(fh), kw, p, ci8)
                            ctx.equal(fh.tell(), pos+len(raw), 'position', 'file position after a frame')
                            ctx.step()
                        ctx.state((seq, split))
    return fn


# ---- COR

def cor_frames(nchan, n, tag):
    out = []
    for k in range(n):
        v = (np.arange(nchan*4) + 1000*k + 10*tag + 1j*(np.arange(nchan*4)+7)).astype(np.complex64).reshape(nchan, 2, 2)
        kw = dict(nchan=nchan, adp_id=2, count=k+1, second=3, first_chan=100*tag+k, gain=6, timetag=10**17+k, navg=50, stand0=k+1, stand1=2)
        w = v.copy()
        if kw['stand0'] == kw['stand1']:
            w[:, 1, 0] = np.conj(v[:, 0, 1])
        out.append((kw, w, F.cor(vis=v, **kw)))
    return out


def check_cor(ctx, f, kw, want):
    ctx.equal(f.payload.data.dtype, np.dtype(np.complex64), 'dtype')
    same(ctx, f.payload.data, want, 'visibilities', 'COR visibilities')
    ctx.equal((f.header.adp_id, f.header.frame_count, f.header.second_count, f.header.first_chan, f.header.gain, f.payload.timetag, f.payload.navg,
               f.payload.stand0, f.payload.stand1),
              tuple(kw[k] for k in ('adp_id', 'count', 'second', 'first_chan', 'gain', 'timetag', 'navg', 'stand0', 'stand1')), 'header', 'COR header')
    ctx.equal((f.id, f.gain), ((kw['stand0'], kw['stand1']), kw['gain']), 'header', 'COR frame')
    ctx.equal(f.is_cor, kw['adp_id'] in (2, 6), 'is_cor')
    ctx.check(abs(f.integration_time - kw['navg']*ndp.T2) < 1e-9*max(1, abs(kw['navg'])), 'integration_time')
    w = (np.arange(want.shape[0]) + float(kw['first_chan']))*ndp.fC
    ctx.check(np.allclose(f.channel_freqs, w, rtol=1e-6), 'channel_freqs', lambda: 'channel frequencies %r, expected %r' % (f.channel_freqs, w))


def cor_modes(ctx):
    """Files of every frame size, of 1-7 frames, in every order of three files."""
    MODES = (33, 72, 112, 192)
    counts = (2, 3, 7)
    for seq in itertools.product(MODES, repeat=3):
        for n in counts:
            with ctx.case('COR files with %r channels of %i frames' % (seq, n)):
                for tag, nchan in enumerate(seq):
                    fr = cor_frames(nchan, n, tag)
                    fh = io.BytesIO(b''.join(r for _, _, r in fr))
                    for kw, want, raw in fr:
                        pos = fh.tell()
                        check_cor(ctx, cor.read_frame(fh), kw, want)
                        ctx.equal(fh.tell(), pos+len(raw), 'position')
                        ctx.step()
                    ctx.state((nchan, n, tag))
                    try:
                        cor.read_frame(fh)
                        ctx.fail('no-eof', 'no EOFError at the end of the file')
                    except cor.EOFError:
                        pass


def cor_header(ctx):
    for name, bits in (('adp_id', 8), ('count', 24), ('second', 32), ('first_chan', 16), ('gain', 16), ('timetag', 63), ('navg', 31), ('stand0', 15), ('stand1', 15)):
        for v in patterns(bits):
            with ctx.case('COR %s=%#x' % (name, v)):
                kw, want, raw = cor_frames(33, 1, 0)[0]
                kw[name] = v
                vis = want
                raw = F.cor(vis=vis, **kw)
                w = vis.copy()
                if kw['stand0'] == kw['stand1']:
                    w[:, 1, 0] = np.conj(vis[:, 0, 1])
                check_cor(ctx, cor.read_frame(io.BytesIO(raw*2)), kw, w)
                ctx.step()
                ctx.state((name, v))


# ---- DR spectrometer

LIN = ('XX', 'XY_real', 'XY_imag', 'YY')
STO = ('I', 'Q', 'U', 'V')
FORMATS = {1: ['XX'], 2: ['XY_real'], 4: ['XY_imag'], 8: ['YY'], 9: ['XX', 'YY'], 6: ['XY_real', 'XY_imag'], 15: list(LIN),
           16: ['I'], 32: ['Q'], 64: ['U'], 128: ['V'], 0x90: ['I', 'V'], 0xF0: list(STO)}


def norm(p, t, nfreq, fills):
    x, y = fills[2*t], fills[2*t+1]
    return np.float32(nfreq*(x if p == 'XX' else y if p == 'YY' else min(x, y)))


def check_drspec(ctx, f, fmt, nfreq, fills, data, kw):
    prods = FORMATS[fmt]
    ctx.equal(f.data_products, prods, 'products', 'data products')
    ctx.equal((f.is_linear, f.is_stokes), (fmt < 16, fmt >= 16), 'kind', 'linear/Stokes')
    d = data.reshape(2, nfreq, len(prods))
    for t in (0, 1):
        for j, p in enumerate(prods):
            want = d[t, :, j]/norm(p, t, nfreq, fills)
            got = getattr(f.payload, '%s%i' % (p, t))
            same(ctx, got, want, 'spectra', 'tuning %i %s' % (t+1, p))
            same(ctx, f.payload.data['%s%i' % (p, t)], want, 'spectra-record', 'record array, tuning %i %s' % (t+1, p))
    for p in LIN+STO:
        if p not in prods:
            ctx.check(getattr(f.payload, p+'0', None) is None, 'spectra', 'product %s appeared from nowhere' % p)
    ctx.equal(f.transform_size, nfreq, 'transform_size')
    ctx.equal(f.payload.fills, list(fills), 'fills')


def drspec_formats(fmt):
    def fn(ctx):
        for nfreq in (1, 2, 5, 32):
            np_ = len(FORMATS[fmt])
            data = (np.arange(2*nfreq*np_)*3 - 5).astype(np.float32)
            for fills in itertools.product((1, 2, 3), repeat=4):
                with ctx.case('drspec format %#x nfreq %i fills %r' % (fmt, nfreq, fills)):
                    raw = F.drspec(data, fmt=fmt, nfreq=nfreq, fills=fills, nints=7, decimation=20)
                    fh = io.BytesIO(raw*2)
                    for k in (1, 2):
                        check_drspec(ctx, drspec.read_frame(fh), fmt, nfreq, fills, data, {})
                        ctx.equal(fh.tell(), k*len(raw), 'position')
                        ctx.step()
                    ctx.state((nfreq, fills))
            # a different size right afterwards
            for n2 in (1, 3, 64):
                with ctx.case('drspec format %#x nfreq %i then %i' % (fmt, nfreq, n2)):
                    d2 = (np.arange(2*n2*np_)*3 - 5).astype(np.float32)
                    fh = io.BytesIO(F.drspec(data, fmt=fmt, nfreq=nfreq) + F.drspec(d2, fmt=fmt, nfreq=n2) + F.drspec(data, fmt=fmt, nfreq=nfreq))
                    for n, d in ((nfreq, data), (n2, d2), (nfreq, data)):
                        check_drspec(ctx, drspec.read_frame(fh), fmt, n, (1, 1, 1, 1), d, {})
                        ctx.step()
    return fn


def drspec_header(ctx):
    fields = [('beam', 8), ('timetag', 64), ('offset', 16), ('decimation', 16), ('nints', 32)] + [(('tuning', i), 32) for i in range(2)] \
        + [(('errors', i), 8) for i in range(4)] + [(('sat', i), 32) for i in range(4)] + [(('fills', i), 20) for i in range(4)]
    data = np.arange(16).astype(np.float32)
    for name, bits in fields:
        for v in patterns(bits):
            with ctx.case('drspec %r=%#x' % (name, v)):
                kw = dict(beam=2, timetag=10**17, offset=5, decimation=20, nints=9, tuning=[1, 2], errors=[3, 4, 5, 6], sat=[7, 8, 9, 10], fills=[1, 2, 3, 4])
                if isinstance(name, tuple):
                    kw[name[0]][name[1]] = v
                else:
                    kw[name] = v
                f = drspec.read_frame(io.BytesIO(F.drspec(data, fmt=9, nfreq=4, **kw)))
                got = dict(beam=f.header.beam, timetag=f.payload.timetag, offset=f.header.time_offset, decimation=f.header.decimation, nints=f.header.nints,
                           tuning=list(f.payload.tuning_words), errors=list(f.payload.errors), sat=list(f.payload.saturations), fills=list(f.payload.fills))
                ctx.equal(got, kw, 'header', 'drspec header')
                ctx.equal((f.id, f.ffts_per_integration), (kw['beam'], kw['nints']), 'header', 'drspec frame')
                if kw['decimation']:
                    ctx.equal(f.sample_rate, 196e6/kw['decimation'], 'sample_rate')
                    ctx.check(abs(f.integration_time - kw['nints']*4*kw['decimation']/196e6) <= 1e-12*max(1, kw['nints']*4*kw['decimation']), 'integration_time')
                for a, b in zip(f.central_freq, kw['tuning']):
                    ctx.check(abs(a-b*196e6/2**32) < 1e-6, 'central_freq')
                ctx.step()
                ctx.state((name, v))


# ---- VDIF

def check_vdif(ctx, f, payload, bits, cplx, nchan, integer):
    want = F.vdif_samples(payload, bits, integer)
    if cplx:
        want = want[0::2] + 1j*want[1::2]
    if nchan > 1:
        want = want.reshape(-1, nchan).T
    d = np.asarray(f.payload.data)
    ctx.equal(d.shape, want.shape, 'samples-shape', 'VDIF shape')
    if cplx:
        ctx.equal(d.dtype, np.dtype(np.complex64), 'dtype')
    else:
        ctx.equal(d.dtype, np.dtype(np.int8 if integer else np.float32), 'dtype')
    if integer or bits == 1:
        ctx.check((d == want).all(), 'samples', lambda: 'VDIF %i-bit: %r, expected %r' % (bits, d, want))
    else:
        ctx.check(np.abs(d-want).max() < 1e-6, 'samples', lambda: 'VDIF %i-bit: %r, expected %r' % (bits, d, want))


def vdif_data(bits):
    def fn(ctx):
        for cplx, l2, legacy, size in itertools.product((0, 1), (0, 1, 2, 3), (0, 1), (8, 16, 64)):
            if 8*size//bits < (1 << l2)*(1+cplx):
                continue
            for k in range(256):
                with ctx.case('VDIF bits=%i complex=%i log2nchan=%i legacy=%i size=%i rot=%i' % (bits, cplx, l2, legacy, size, k)):
                    p = F.rot(size, k)
                    raw = F.vdif(p, bits=bits, is_complex=cplx, log2nchan=l2, legacy=legacy, thread=3)
                    fh = io.BytesIO(raw*2)
                    f = vdif.read_frame(fh)
                    check_vdif(ctx, f, p, bits, cplx, 1 << l2, False)
                    ctx.equal(fh.tell(), len(raw), 'position')
                    f = vdif.read_frame_i8(fh)
                    check_vdif(ctx, f, p, bits, cplx, 1 << l2, True)
                    ctx.equal(fh.tell(), 2*len(raw), 'position')
                    ctx.equal((f.header.bits_per_sample, f.header.is_complex, f.header.nchan, f.header.is_legacy), (bits, cplx, 1 << l2, legacy), 'header')
                    ctx.step(2)
                    ctx.state((cplx, l2, legacy, size, k))
        for a, b in itertools.product((0, 8, 16, 24, 72), repeat=2):
            with ctx.case('VDIF bits=%i sizes %i then %i' % (bits, a, b)):
                pa, pb = F.rot(a, 1), F.rot(b, 9)
                fh = io.BytesIO(F.vdif(pa, bits=bits) + F.vdif(pb, bits=bits, legacy=1) + F.vdif(pa, bits=bits))
                for p in (pa, pb, pa):
                    f = vdif.read_frame(fh)
                    ctx.equal(np.asarray(f.payload.data).shape, (len(p)*8//bits,), 'samples-shape')
                    if p:
                        check_vdif(ctx, f, p, bits, 0, 1, False)
                    ctx.step()
    return fn


def vdif_header(ctx):
    fields = [('invalid', 1), ('seconds', 30), ('epoch', 6), ('frame', 24), ('version', 3), ('thread', 10), ('station', 16)] + [(('ext', i), 32) for i in range(4)]
    for name, bits in fields:
        for v in patterns(bits):
            for reader in (vdif.read_frame, vdif.read_frame_i8):
                with ctx.case('VDIF %r=%#x' % (name, v)):
                    kw = dict(invalid=0, seconds=5, epoch=9, frame=17, version=1, thread=3, station=77, ext=[1, 2, 3, 4])
                    if isinstance(name, tuple):
                        kw[name[0]][name[1]] = v
                    else:
                        kw[name] = v
                    h = reader(io.BytesIO(F.vdif(bytes(8), bits=8, **kw)), sample_rate=1000.0, central_freq=2000.0).header
                    got = dict(invalid=h.is_invalid, seconds=h.seconds_from_epoch, epoch=h.ref_epoch, frame=h.frame_in_second, version=h.version,
                               thread=h.thread_id, station=h.station_id, ext=[h.extended_data_1, h.extended_data_2, h.extended_data_3, h.extended_data_4])
                    ctx.equal(got, kw, 'header', 'VDIF header')
                    ctx.equal((h.id, h.sample_rate, h.central_freq, h.frame_length), ((kw['station'], kw['thread']), 1000.0, 2000.0, 5), 'header')
                    ctx.step()
                    ctx.state((name, v))


# ---- readers of different formats interleaved in one process

def interleaved(ctx):
    p4, p8 = F.rot(4096, 5), F.rot(8192, 6)
    pt = F.rot(64*12*2, 7)
    kwt = tbx_kw((64, 12), 3)
    kwc, wc, rc = cor_frames(72, 1, 1)[0]
    dd = np.arange(2*6*4).astype(np.float32)
    pv = F.rot(24, 8)

    def r_drx():
        fh = io.BytesIO(F.drx(payload=p4)); same(ctx, cplx_to_int(drx.read_frame(fh).payload.data), F.unpack44(p4), 'samples', 'DRX')

    def r_drx8():
        fh = io.BytesIO(F.drx8(payload=p8)); same(ctx, ci8_to_int(drx8.read_frame_ci8(fh).payload.data), F.unpack88(p8), 'samples', 'DRX8')

    def r_tbx():
        check_tbx(ctx, tbx.read_frame(io.BytesIO(F.tbx(payload=pt, **kwt))), kwt, pt, False)

    def r_cor():
        check_cor(ctx, cor.read_frame(io.BytesIO(rc*2)), kwc, wc)

    def r_drspec():
        check_drspec(ctx, drspec.read_frame(io.BytesIO(F.drspec(dd, fmt=15, nfreq=6, fills=(1, 2, 3, 4)))), 15, 6, (1, 2, 3, 4), dd, {})

    def r_vdif():
        check_vdif(ctx, vdif.read_frame(io.BytesIO(F.vdif(pv, bits=2))), pv, 2, 0, 1, False)
    rds = dict(drx=r_drx, drx8=r_drx8, tbx=r_tbx, cor=r_cor, drspec=r_drspec, vdif=r_vdif)
    for seq in itertools.product(sorted(rds), repeat=4):
        with ctx.case('readers %r' % (seq,)):
            for s in seq:
                rds[s]()
                ctx.step()
            ctx.state(seq)


def units(tier):
    out = {'drx payload': drx_payload(drx, F.drx, 4096, F.unpack44), 'drx8 payload': drx_payload(drx8, F.drx8, 8192, F.unpack88),
           'drx header': drx_header(drx, F.drx), 'drx8 header': drx_header(drx8, F.drx8), 'tbx header': tbx_header, 'cor modes': cor_modes,
           'cor header': cor_header, 'drspec header': drspec_header, 'vdif header': vdif_header, 'interleaved': interleaved}
    for m in TBX_MODES:
        out['tbx payload %ix%i' % m] = tbx_payload(m)
    for m in (TBX_MODES if tier == 'thorough' else [(64, 4), (128, 12), (256, 16)]):
        out['tbx modes from %ix%i' % m] = tbx_modes(m)
    for f in FORMATS:
        out['drspec format %#x' % f] = drspec_formats(f)
    for b in (1, 2, 4, 8):
        out['vdif data %i' % b] = vdif_data(b)
    return out
