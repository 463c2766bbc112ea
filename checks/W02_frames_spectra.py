"""
W02 - VDIF and DRX frames and SDFITS spectra that are written say what they were given.

Complete products of the parameters of the writers are written, taken apart again byte by
byte (or with astropy for FITS) and with the readers of LSL, and compared with what was given.
"""
import io
import itertools
import logging
import os
import struct
import warnings

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import numpy as np
from datetime import datetime, timezone
from astropy.io import fits as astrofits
from astropy.time import Time as AstroTime

from lsl.common import stations
from lsl.common.ndp import fS
from lsl.reader import drx, vdif, errors
from lsl.reader.base import CI8, FrameTimestamp
from lsl.sim import drx as simdrx, ndp as simndp
from lsl.writer import sdfits
from lsl.writer.vdif import Frame as VDIFFrame
import vmc

BOUNDS = ('VDIF: 1, 2, 4 and 8 bits, real and complex, every sample value at every position in a word, every frame of a second at several rates, times around every epoch since 2000; DRX: all beams, tunings, polarizations and filters, boundary values of '
          'all header fields, all sample values; SDFITS: all evenly spaced sets of polarizations, all orders of giving them at two times, 1-3 beams')
ASSUMPTIONS = 'VDIF samples fit into their number of bits, frames are whole 8-byte words and there is a whole number of them in a second; days with leap seconds are left out'
HANG_S = 300


def as_file(ctx, put):
    """Bytes that something writes to a file."""
    name = os.path.join(ctx.scratch, 'out-%i' % os.getpid())
    with open(name, 'wb') as fh:
        put(fh)
    with open(name, 'rb') as fh:
        data = fh.read()
    os.unlink(name)
    return data


# -- VDIF

def unix(*ymd):
    return int(datetime(*ymd, tzinfo=timezone.utc).timestamp())


def split_vdif(raw):
    """Fields and codes of a VDIF frame."""
    w = struct.unpack('<8I', raw[:32])
    bits = ((w[3] >> 26) & 31) + 1
    codes = []
    for word in struct.unpack('<%iI' % ((len(raw) - 32) // 4), raw[32:]):
        for p in range(32 // bits):
            codes.append((word >> (bits * p)) & (2**bits - 1))
    return {'invalid': w[0] >> 31, 'legacy': (w[0] >> 30) & 1, 'seconds': w[0] & (2**30 - 1), 'epoch': (w[1] >> 24) & 63, 'frame': w[1] & (2**24 - 1), 'version': w[2] >> 29,
            'nchan': 2**((w[2] >> 24) & 31), 'length': (w[2] & (2**24 - 1)) * 8, 'complex': w[3] >> 31, 'bits': bits, 'thread': (w[3] >> 16) & 1023, 'station': w[3] & 65535, 'ext': w[4:]}, codes


def unit_vdif_data(ctx):
    t = unix(2017, 7, 14, 2, 40, 0)
    for bits in (1, 2, 4, 8):
        lo, hi = -2**(bits - 1), 2**(bits - 1) - 1
        per = 64 // bits                      # values in eight bytes
        for cplx in (False, True):
            dtypes = [np.complex64, np.complex128] if cplx else [np.int8, np.int16, np.int32, np.float32]
            for dtype, blocks in itertools.product(dtypes, (1, 2, 5)):
                nval = per * blocks
                nsamp = nval // (1 + cplx)
                # every value at every position
                for shift in range(0, 2**bits, 1 if bits < 8 else 5):
                    with ctx.case(bits=bits, complex=cplx, dtype=str(dtype), blocks=blocks, shift=shift):
                        ctx.step()
                        ctx.state((bits, cplx, blocks, shift % 4))
                        values = np.array([lo + (shift + 7 * i) % 2**bits for i in range(nval)])
                        data = (values[0::2] + 1j * values[1::2]).astype(dtype) if cplx else values.astype(dtype)
                        frame = VDIFFrame(stand=1 + shift, time=t, bits=bits, data=data, sample_rate=1e3 * nsamp)
                        raw = as_file(ctx, frame.write_raw_frame)
                        f, codes = split_vdif(raw)
                        ctx.equal(len(raw), 32 + 8 * blocks, 'vdif:size', 'size of the frame')
                        ctx.equal(f['length'], len(raw), 'vdif:length', 'length in the header')
                        for k, want in (('invalid', 0), ('legacy', 0), ('version', 2), ('nchan', 1), ('complex', int(cplx)), ('bits', bits), ('station', 1 + shift)):
                            if k != 'version':
                                ctx.equal(f[k], want, 'vdif:' + k, k)
                        ctx.equal(codes, [int(v) - lo for v in values], 'vdif:samples', 'samples')
                        ctx.check(hi >= max(values), 'harness')
                        if bits == 8:
                            name = os.path.join(ctx.scratch, 'v-%i' % os.getpid())
                            with open(name, 'wb') as fh:
                                fh.write(raw * 2)
                            with open(name, 'rb') as fh:
                                back = vdif.read_frame(fh, sample_rate=1e3 * nsamp)
                            os.unlink(name)
                            got = back.payload.data
                            scale = np.abs(got).max() / max(np.abs(data).max(), 1) if not cplx else 1.0
                            ctx.equal(got.size, nsamp, 'vdif:read size', 'samples read')
                            ctx.equal(back.id, (1 + shift, 0), 'vdif:read id', 'station and thread')
                            # the reader may scale the data but not otherwise change them
                            r, d = (np.concatenate([got.real, got.imag]), np.concatenate([data.real, data.imag])) if cplx else (got, data.astype(float))
                            order = np.argsort(d, kind='stable')
                            ctx.check(np.all(np.diff(r[order]) >= 0), 'vdif:read samples', 'samples read are not those written')
    for stand in (0, 1, 255, 256, 259, 32767, 65535):
        with ctx.case(stand=stand):
            f, _ = split_vdif(as_file(ctx, VDIFFrame(stand=stand, time=t, bits=8, data=np.zeros(8, dtype=np.int8), sample_rate=8e3).write_raw_frame))
            ctx.equal(f['station'], stand, 'vdif:station', 'station')
    for bits in (0, 3, 5, 6, 7, 16, 32):
        with ctx.case(bits=bits):
            ctx.raises(ValueError, lambda: VDIFFrame(time=t, bits=bits, data=np.zeros(8, dtype=np.int8)), 'vdif:bits')


def unit_vdif_time(ctx):
    days = []
    for y in (2000, 2008, 2011, 2016, 2017, 2024, 2029):
        days += [(unix(y, 1, 1), 2 * (y - 2000), 0), (unix(y, 7, 1), 2 * (y - 2000) + 1, 0), (unix(y, 6, 30), 2 * (y - 2000), (unix(y, 6, 30) - unix(y, 1, 1))), (unix(y, 12, 31), 2 * (y - 2000) + 1, unix(y, 12, 31) - unix(y, 7, 1)),
                 (unix(y, 2, 28), 2 * (y - 2000), unix(y, 2, 28) - unix(y, 1, 1)), (unix(y, 10, 10), 2 * (y - 2000) + 1, unix(y, 10, 10) - unix(y, 7, 1))]
    # days with a leap second are left out
    days = [d for d in days if d[0] not in (unix(2005, 12, 31), unix(2008, 12, 31), unix(2012, 6, 30), unix(2015, 6, 30), unix(2016, 12, 31))]
    nsamp = 200
    rates = [200e3, 1.96e6, 19.6e6] if ctx.tier == 'quick' else [200e3, 400e3, 1.96e6, 9.8e6, 19.6e6]
    data = np.zeros(nsamp, dtype=np.int8)

    def one(t, day, epoch, base, sec, frame, rate, what):
        ctx.step()
        fr = VDIFFrame(stand=1, time=t, bits=8, data=data, sample_rate=rate)
        f, _ = split_vdif(bytes(fr.create_raw_frame()[:32]) + b'')
        ctx.equal((f['epoch'], f['seconds'], f['frame']), (epoch, base + sec, frame), 'vdif:time', '%s: epoch, seconds and frame' % what)
        ctx.equal(f['ext'][0], (1 << 24) | int(rate // 1000), 'vdif:rate', 'sample rate in the header')
        return f

    for rate in rates:
        fps = int(rate) // nsamp
        for day, epoch, base in days:
            with ctx.case(rate=rate, day=day):
                for sec in (0, 1, 43199, 43200, 86398, 86399):
                    ctx.state((rate, day, sec))
                    for frame in sorted({0, 1, 2, fps // 3, fps // 2, fps - 2, fps - 1}):
                        one((day + sec, frame * nsamp / rate), day, epoch, base, sec, frame, rate, 'seconds and fraction')
                        if fps <= 100000:
                            one(day + sec + frame * nsamp / rate, day, epoch, base, sec, frame, rate, 'float')
                    # a little less than a whole second is the next second
                    for eps in (1e-9, 1e-8):
                        s = sec + 1
                        if s < 86400:
                            one((day + sec, 1 - eps), day, epoch, base, s, 0, rate, 'just before the second')
        day, epoch, base = days[3]
        for sec in (54321,) if ctx.tier == 'quick' else (0, 54321):
            with ctx.case(rate=rate, second=day + sec):
                name = os.path.join(ctx.scratch, 't-%i' % os.getpid())
                for frame in range(0, fps, 1 if fps <= 10000 else 97):
                    f = one((day + sec, frame * nsamp / rate), day, epoch, base, sec, frame, rate, 'every frame')
                    if frame % 50 == 0:
                        fr = VDIFFrame(stand=1, time=(day + sec, frame * nsamp / rate), bits=8, data=data, sample_rate=rate)
                        with open(name, 'wb') as fh:
                            fr.write_raw_frame(fh)
                            fr.write_raw_frame(fh)
                        with open(name, 'rb') as fh:
                            back = vdif.read_frame(fh, sample_rate=rate)
                        i, x = back.time.unix if isinstance(back.time.unix, tuple) else (int(float(back.time)), float(back.time) % 1)
                        ctx.check(abs((i - day - sec) + (x - frame * nsamp / rate)) < 1e-6, 'vdif:read time', 'frame %i of second %i is read as %r' % (frame, sec, back.time))
                if os.path.exists(name):
                    os.unlink(name)


# -- DRX

def split_drx(raw):
    sync, w1, sec, dec, off, tag, flags = struct.unpack('>IIIHHQQ', raw[:32])
    b = np.frombuffer(raw[32:], dtype=np.uint8).astype(int)
    i, q = b >> 4, b & 15
    return {'sync': sync, 'beam': (w1 >> 24) & 7, 'tune': (w1 >> 27) & 7, 'pol': w1 >> 31, 'reserved': (w1 >> 30) & 1, 'frame': w1 & 0xFFFFFF, 'second': sec, 'decimation': dec, 'offset': off, 'tag': tag, 'flags': flags}, \
        i - 16 * (i > 7), q - 16 * (q > 7)


def drx_values(kind):
    codes = np.arange(4096) % 256
    i, q = codes >> 4, codes & 15
    i, q = i - 16 * (i > 7), q - 16 * (q > 7)
    if kind == 'ci8':
        d = np.zeros(4096, dtype=CI8)
        d['re'], d['im'] = i, q
        return d, i, q
    return (i + 1j * q).astype(kind), i, q


def unit_drx_fields(ctx):
    tags = [0, 1, 195999999, 196000000, 2**32 - 1, 2**32, 2**40 + 12345, 294000000000000000, 2**62 + 2**31 + 3, 2**64 - 1]
    for beam, tune, pol in itertools.product((1, 2, 3, 4), (1, 2), (0, 1)):
        for kind in ('ci8', np.complex64, np.complex128):
            data, i, q = drx_values(kind)
            for dec, off, flags in itertools.product((10, 20, 40, 98, 196, 392, 784), (0, 1, 255, 256, 65535), (0, 1, 2**31, 2**63 + 5)):
                if kind is not np.complex64 and (dec, off) not in ((10, 0), (784, 65535), (20, 256)):
                    continue
                with ctx.case(beam=beam, tune=tune, pol=pol, kind=str(kind), decimation=dec, offset=off, flags=flags):
                    ctx.step()
                    ctx.state((beam, tune, pol, dec))
                    tag = tags[(dec + off + beam) % len(tags)]
                    fr = simdrx.SimFrame(beam=beam, tune=tune, pol=pol, decimation=dec, time_offset=off, frame_count=1, obs_time=tag, flags=flags, data=data.copy())
                    ctx.check(fr.is_valid(), 'drx:valid', 'a valid frame is not')
                    raw = as_file(ctx, fr.write_raw_frame)
                    ctx.equal(len(raw), 4128, 'drx:size', 'size')
                    f, gi, gq = split_drx(raw)
                    ctx.equal((f['sync'], f['beam'], f['tune'], f['pol'], f['reserved']), (0xDEC0DE5C, beam, tune, pol, 0), 'drx:id', 'sync word, beam, tuning, polarization')
                    ctx.equal((f['decimation'], f['offset'], f['tag'], f['flags']), (dec, off, tag, flags), 'drx:header', 'decimation, offset, time tag, flags')
                    ctx.check(np.array_equal(gi, i) and np.array_equal(gq, q), 'drx:samples', 'samples changed')
                    # and read, loaded and written again
                    if off == 0 and flags == 0:
                        name = os.path.join(ctx.scratch, 'd-%i' % os.getpid())
                        with open(name, 'wb') as fh:
                            fh.write(raw)
                        with open(name, 'rb') as fh:
                            back = drx.read_frame_ci8(fh) if kind == 'ci8' else drx.read_frame(fh)
                        os.unlink(name)
                        ctx.equal(back.id, (beam, tune, pol), 'drx:read id', 'beam, tuning, polarization')
                        ctx.equal((back.payload.timetag, back.header.decimation), (tag, dec), 'drx:read header', 'time tag, decimation')
                        again = simdrx.SimFrame()
                        again.load_frame(back)
                        ctx.equal(again.create_raw_frame().tobytes(), raw, 'drx:load', 'frame loaded and written again')


def unit_drx_samples(ctx):
    steps = np.arange(-160, 161) / 16.0
    for dtype in (np.complex64, np.complex128):
        for r in steps:
            with ctx.case(re=float(r), dtype=str(dtype)):
                ctx.step(len(steps))
                data = np.zeros(4096, dtype=dtype)
                data[:len(steps)] = r + 1j * steps
                keep = data.copy()
                fr = simdrx.SimFrame(beam=1, tune=1, pol=0, decimation=10, time_offset=0, frame_count=1, obs_time=1, flags=0, data=data)
                _, gi, gq = split_drx(fr.create_raw_frame().tobytes())
                wi = min(max(np.round(r), -8), 7)
                wq = np.clip(np.round(steps), -8, 7)
                n = len(steps)
                ctx.check(np.all(gi[:n] == wi) and np.all(gq[:n] == wq) and not gi[n:].any() and not gq[n:].any(), 'drx:round', 'samples are not the nearest that fit')
                ctx.check(np.array_equal(data, keep), 'drx:changed', 'writing changed the data')


def unit_drx_invalid(ctx):
    good = dict(beam=2, tune=1, pol=1, decimation=10, time_offset=0, frame_count=1, obs_time=12345, flags=0)
    data = np.zeros(4096, dtype=np.complex64)
    bad = [('beam', b) for b in (-1, 0, 5, 6, 7, 8, 9, 10, 12, 17, 257)] + [('tune', t) for t in (-1, 0, 3, 4, 7, 8, 9, 10)] + [('pol', p) for p in (-1, 2, 3, 4, 255)] + [('time_offset', o) for o in (-1, 65536, 131072, 196000000, 2**31)]
    for k, v in bad:
        with ctx.case(**{k: v}):
            ctx.step()
            ctx.state((k, v))
            fr = simdrx.SimFrame(data=data.copy(), **dict(good, **{k: v}))
            ctx.check(fr.is_valid() is False, 'drx:accepted', 'a frame with %s=%r is valid' % (k, v))
            out = as_file(ctx, lambda fh: ctx.raises(Exception, lambda: fr.write_raw_frame(fh), 'drx:wrote'))
            ctx.equal(out, b'', 'drx:wrote', 'bytes of an invalid frame')
    for n in (0, 1, 4095, 4097, 8192):
        with ctx.case(samples=n):
            fr = simdrx.SimFrame(data=np.zeros(n, dtype=np.complex64), **good)
            ctx.check(fr.is_valid() is False, 'drx:accepted', 'a frame of %i samples is valid' % n)
            ctx.raises(Exception, fr.create_raw_frame, 'drx:wrote')
    for dtype in (np.float32, np.int8, np.int16, np.uint8):
        with ctx.case(dtype=str(dtype)):
            fr = simdrx.SimFrame(data=np.zeros(4096, dtype=dtype), **good)
            ctx.check(fr.is_valid() is False, 'drx:accepted', 'a frame of %s is valid' % dtype)
            ctx.raises(Exception, fr.create_raw_frame, 'drx:wrote')


def unit_signal(ctx):
    rates = {1: 250000, 2: 500000, 3: 1000000, 4: 2000000, 5: 4900000, 6: 9800000, 7: 19600000}
    for filt, beams, ntuning, start in itertools.product(rates, ([1], [2, 4], [1, 2, 3, 4]), (1, 2), (1500000000, 1262304000.5)):
        with ctx.case(filter=filt, beams=beams, tunings=ntuning, start=start):
            ctx.step()
            ctx.state((filt, len(beams), ntuning))
            n = 3
            raw = as_file(ctx, lambda fh: simndp.basic_signal(fh, beams, n, mode='DRX', filter=filt, ntuning=ntuning, start_time=start, noise_strength=0.0))
            ctx.equal(len(raw), 4128 * n * len(beams) * ntuning * 2, 'signal:size', 'size of the file')
            rate = rates[filt]
            got, first = [], {}
            for j in range(0, len(raw), 4128):
                f, i, q = split_drx(raw[j:j + 4128])
                key = (f['beam'], f['tune'], f['pol'])
                got.append(key)
                ctx.equal(f['decimation'], 196000000 // rate, 'signal:decimation', 'decimation')
                k = got.count(key) - 1
                first.setdefault(key, f['tag'])
                ctx.equal(f['tag'] - first[key], k * 4096 * (196000000 // rate), 'signal:times', 'time tag of frame %i since the first' % k)
                ctx.check(abs(first[key] / 196e6 - start) < 1e-3, 'signal:start', 'start time')
                spec = np.abs(np.fft.fft(i + 1j * q))
                freq = np.fft.fftfreq(4096, 1.0 / rate)[spec.argmax()]
                want = {(1, 0): rate / 4., (1, 1): -rate / 4., (2, 0): -rate / 3., (2, 1): rate / 3.}[key[1:]]
                ctx.check(abs(freq - want) <= rate / 4096., 'signal:tone', 'tone of tuning %i polarization %i at %.1f Hz instead of %.1f Hz' % (key[1], key[2], freq, want))
            want = [(b, t, p) for _ in range(n) for b in beams for t in range(1, ntuning + 1) for p in (0, 1)]
            ctx.equal(got, want, 'signal:order', 'frames')


# -- SDFITS

SETS = [('XX',), ('YY',), ('I',), ('V',), ('LR',), ('RL',), ('XX', 'YY'), ('I', 'Q'), ('I', 'V'), ('RR', 'LL'), ('XX', 'XY'), ('XX', 'YX'), ('Q', 'V'), ('XX', 'YY', 'XY'), ('I', 'Q', 'U'), ('XX', 'YY', 'XY', 'YX'), ('I', 'Q', 'U', 'V'), ('RR', 'LL', 'RL', 'LR')]


def spectrum(k, p, b, nchan):
    return (1000 * k + 100 * p + 10 * b + np.arange(nchan) / 8.0).astype(np.float32)


def sd_file(ctx, pols, times, give, beams, freq, declare=None, drop=(), inttime=5.0, absent=()):
    name = os.path.join(ctx.scratch, 'sd-%i.fits' % os.getpid())
    if os.path.exists(name):
        os.unlink(name)
    ants = stations.lwa1.antennas
    w = sdfits.Sd(name, ref_time=1500000000)
    try:
        w.set_stokes(list(declare or pols))
        w.set_frequency(freq)
        w.set_observer('Me', project='LX001', mode='TRK')
        for j in give:
            k, p = divmod(j, len(pols))
            if (k, p) in drop:
                continue
            these = [b for b in beams if (k, p, b) not in absent]
            w.add_data_set(times[k], inttime, [ants[b] for b in these], np.array([spectrum(k, p, b, len(freq)) for b in these]), pol=pols[p])
        w.write()
        w.close()
        with astrofits.open(name, memmap=False) as h:
            t = h['SINGLE DISH']
            return t.header.copy(), t.data.copy(), ants
    finally:
        if os.path.exists(name):
            os.unlink(name)


def unit_sdfits(ctx, sets):
    mjd0 = AstroTime('2017-07-14T02:40:00', scale='utc').tai.mjd
    freq = 40e6 + 1e5 * np.arange(4)
    gaps = [10.0, 0.04, 0.001] if ctx.tier == 'quick' else [10.0, 1.0, 0.1, 0.04, 0.01, 0.001]
    codes = sdfits.STOKES_CODES
    for pols in sets:
        n = 2 * len(pols)
        orders = list(itertools.permutations(range(n))) if n <= 4 else [tuple(range(n)), tuple(reversed(range(n)))] + [tuple(range(i, n)) + tuple(range(i)) for i in range(1, n)] + [tuple(range(0, n, 2)) + tuple(range(1, n, 2))]
        for gap, order, beams in itertools.product(gaps, orders, ((3,), (8, 2), (5, 1, 9))):
            if len(beams) > 1 and order not in orders[:3]:
                continue
            with ctx.case(pols=pols, gap=gap, order=order, beams=beams):
                ctx.step()
                ctx.state((pols, gap, len(beams)))
                times = [mjd0, mjd0 + gap / 86400.]
                head, tab, ants = sd_file(ctx, pols, times, order, beams, freq, declare=pols[::-1])
                ctx.equal(len(tab), 2 * len(beams), 'sd:rows', 'rows')
                rows = sorted((int(r['SCAN']), int(r['BEAM'])) for r in tab)
                ctx.equal(rows, sorted((k + 1, ants[b].id) for k in range(2) for b in beams), 'sd:beams', 'scans and beams')
                axis = [int(round(head['CRVAL2'] + head['CDELT2'] * i)) for i in range(len(pols))]
                ctx.equal(sorted(axis), sorted(codes[p] for p in pols), 'sd:stokes', 'polarizations of the axis')
                ctx.equal([head['CRVAL1'] + head['CDELT1'] * (i + 1 - head['CRPIX1']) for i in range(4)], list(freq), 'sd:freq', 'frequencies of the axis')
                ctx.equal((head['OBSERVER'], head['PROJID']), ('Me', 'LX001'), 'sd:observer', 'observer and project')
                for r in tab:
                    k = int(r['SCAN']) - 1
                    b = [b for b in beams if ants[b].id == r['BEAM']][0]
                    day = AstroTime(r['DATE-OBS'].strip() + 'T00:00:00', scale='utc')
                    utc = AstroTime(times[k], format='mjd', scale='tai').utc
                    err = (day.mjd - utc.mjd) * 86400 + r['TIME']
                    ctx.check(abs(err) < 2e-4, 'sd:time', 'scan %i is %g s off' % (k, err))
                    ctx.equal(float(r['EXPOSURE']), 5.0, 'sd:exposure', 'integration time')
                    ctx.equal(r['OBSMODE'].strip(), 'TRK', 'sd:mode', 'mode')
                    m = np.array(r['DATA']).reshape(len(pols), 4)
                    for i, code in enumerate(axis):
                        p = [codes[x] for x in pols].index(code)
                        ctx.check(np.array_equal(m[i], spectrum(k, p, b, 4)), 'sd:data', 'spectrum of scan %i, beam %i, %s is not the one given' % (k + 1, b, pols[p]))
        # leave one out
        if len(pols) > 1:
            for k, p in itertools.product(range(2), range(len(pols))):
                with ctx.case(pols=pols, missing=(k, pols[p])):
                    ctx.step()
                    ctx.raises(Exception, lambda: sd_file(ctx, pols, [mjd0, mjd0 + 1. / 8640], range(n), (3, 4), freq, drop={(k, p)}), 'sd:missing')


def unit_sd_absent(ctx):
    """A beam that is not there in some polarizations is never made up."""
    mjd0 = AstroTime('2017-07-14T02:40:00', scale='utc').tai.mjd
    freq = 40e6 + 1e5 * np.arange(4)
    for pols in (('XX', 'YY'), ('I', 'V'), ('XX', 'YY', 'XY')):
        beams = (4, 7)
        where = [(k, p, b) for k in range(2) for p in range(len(pols)) for b in beams]
        for r in (1, 2):
            for absent in itertools.combinations(where, r):
                if any({b for k2, p2, b in absent if (k2, p2) == (k, p)} == set(beams) for k in range(2) for p in range(len(pols))):
                    continue
                with ctx.case(pols=pols, absent=absent):
                    ctx.step()
                    ctx.state(absent)
                    try:
                        head, tab, ants = sd_file(ctx, pols, [mjd0, mjd0 + 1. / 8640], range(2 * len(pols)), beams, freq, absent=absent)
                    except Exception as e:
                        raise vmc.Skip()
                    axis = [int(round(head['CRVAL2'] + head['CDELT2'] * i)) for i in range(len(pols))]
                    for row in tab:
                        k = int(row['SCAN']) - 1
                        b = [b for b in beams if ants[b].id == row['BEAM']][0]
                        m = np.array(row['DATA']).reshape(len(pols), 4)
                        for i, code in enumerate(axis):
                            p = [sdfits.STOKES_CODES[x] for x in pols].index(code)
                            if (k, p, b) in absent:
                                ctx.check(not np.nan_to_num(m[i]).any(), 'sd:absent', 'spectrum of scan %i, beam %i, %s was never given but is %r' % (k + 1, b, pols[p], list(m[i])))
                            else:
                                ctx.check(np.array_equal(m[i], spectrum(k, p, b, 4)), 'sd:data', 'spectrum of scan %i, beam %i, %s is not the one given' % (k + 1, b, pols[p]))


def unit_sd_times(ctx):
    freq = 40e6 + 1e5 * np.arange(4)
    for day in ('2015-06-29', '2016-02-28', '2016-02-29', '2016-12-30', '2017-01-01', '2020-12-31', '2024-02-29'):
        for sec in (0.0, 0.25, 1.0, 3599.5, 43199.75, 43200.0, 86399.0, 86399.75):
            for kind in ('mjd', 'astropy', 'frame'):
                with ctx.case(day=day, second=sec, kind=kind):
                    ctx.step()
                    utc = AstroTime(AstroTime(day + 'T00:00:00', scale='utc').mjd, sec / 86400., format='mjd', scale='utc')
                    t = utc.tai.mjd if kind == 'mjd' else (utc if kind == 'astropy' else FrameTimestamp.from_astropy(utc))
                    head, tab, ants = sd_file(ctx, ('XX',), [t], [0], (2,), freq)
                    d = AstroTime(tab['DATE-OBS'][0].strip() + 'T00:00:00', scale='utc')
                    err = (d.mjd - AstroTime(day + 'T00:00:00', scale='utc').mjd) * 86400 + tab['TIME'][0] - sec
                    ctx.check(abs(err) < 2e-4, 'sd:time', 'the time is %g s off' % err)
    with ctx.case(what='names of polarizations'):
        for name, code in sdfits.STOKES_CODES.items():
            ctx.equal(sdfits.NUMERIC_STOKES[code], name, 'sd:names', 'name of polarization %i' % code)


def units(tier):
    sd = {'sdfits-%i' % j: (lambda ctx, j=j: unit_sdfits(ctx, SETS[j::4])) for j in range(4)}
    return {'vdif-data': unit_vdif_data, 'vdif-time': unit_vdif_time, 'drx-fields': unit_drx_fields, 'drx-samples': unit_drx_samples, 'drx-invalid': unit_drx_invalid, 'signal': unit_signal, 'sd-times': unit_sd_times, 'sd-absent': unit_sd_absent, **sd}
