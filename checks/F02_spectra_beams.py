"""
F02 - spectra, filter banks and beams are those of the signals they are made from.

Every combination of data type, transform length, number of samples, window, clipping
and order of antennas within the bounds is compared with the definition of the power
spectrum; every set of antennas, statuses and directions with that of the beam.
"""
import math
import itertools
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import ephem
import numpy as np
from astropy import units as astrounits
from astropy.coordinates import Angle

from lsl.common.stations import Antenna, Stand, Cable, FEE
from lsl.correlator import fx, filterbank
from lsl.misc import beamformer
from lsl.reader.base import CI8

BOUNDS = ('9 data types, 1-9 (thorough 1-17) channels, every number of samples from one to three windows, no window, a lopsided window and the filter bank, every position of one strong sample; '
          'all orders of 4 antennas; 2-32 taps; all status and polarization assignments of 4 antennas, a lattice of directions, 1-65 samples')
ASSUMPTIONS = ('spectra are compared to 1e-5 and beams to 1e-5 of the largest value (single precision); X and Y antennas are given in the same order of stands; '
               'a window is left out when a sample (or, for complex data, its magnitude) reaches the clip level; spectra with no window left are not numbers')
HANG_S = 300

C = 299792458.0
FS = 100e6
FC = 68.3e6
REAL = {'int8': np.int8, 'int16': np.int16, 'int32': np.int32, 'int64': np.int64, 'float32': np.float32, 'float64': np.float64}
CPLX = {'ci8': CI8, 'complex64': np.complex64, 'complex128': np.complex128}


def signal(n, nsamp, cplx):
    out = np.zeros((n, nsamp), dtype=np.complex128 if cplx else np.float64)
    s = 4711
    for a in range(n):
        for t in range(nsamp):
            s = (s*1103515245 + 12345) % (1 << 31)
            re = (s >> 16) % 13 - 6
            s = (s*1103515245 + 12345) % (1 << 31)
            im = (s >> 16) % 13 - 6
            out[a, t] = re + 1j*im if cplx else re
    # Both polarizations of a stand have something in common
    for a in range(1, n, 2):
        out[a] += np.roll(out[a-1], 1)
    return out


def cast(data, name):
    if name == 'ci8':
        out = np.zeros(data.shape, dtype=CI8)
        out['re'], out['im'] = data.real, data.imag
        return out
    return data.astype(REAL.get(name, CPLX.get(name)))


def lopsided(n):
    return np.arange(1, n+1)/(n+1.0)


def weights(n, window):
    if window == 'pfb':
        t = np.arange(4*n)
        return np.sinc((t - 2.0*n + 0.5)/n)*(0.54 - 0.46*np.cos(2*np.pi*t/(4*n)))
    return lopsided(n) if window == 'lopsided' else np.ones(n)


def windows(x, lfft, cplx, window, clip):
    """Channels of every window and whether it is unclipped."""
    n = lfft if cplx else 2*lfft
    taps = 4 if window == 'pfb' else 1
    w = weights(n, window)
    out, ok = [], []
    for j in range(x.size//n):
        seg = np.zeros(n*taps, dtype=x.dtype)
        lo = n*(j+1-taps)
        seg[max(0, -lo):] = x[max(0, lo):n*(j+1)]
        ok.append(not (clip and (np.abs(seg) >= clip).any()))
        spec = np.fft.fft((seg*w).reshape(taps, n).sum(axis=0))
        out.append((np.fft.fftshift(spec) if cplx else spec[:lfft])/math.sqrt(n))
    return np.array(out).reshape(-1, lfft), np.array(ok, dtype=bool)


def close(ctx, got, want, key, what, tol=1e-5):
    ctx.step()
    if got.shape != want.shape:
        ctx.fail(key, '%s: shape is %s, not %s' % (what, got.shape, want.shape))
    use = np.isfinite(want)
    scale = np.abs(want[use]).max() if use.any() else 1.0
    with np.errstate(invalid='ignore'):
        bad = ~(np.abs(got - want) <= tol*max(scale, 1e-3)) & use
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.fail(key, '%s: element %s is %s, not %s' % (what, i, got[i], want[i]))


def stokes_of(X, Y):
    xx, yy, xy = np.abs(X)**2, np.abs(Y)**2, X*np.conj(Y)
    return np.array([xx+yy, xx-yy, 2*xy.real, 2*xy.imag])


def spectrum_case(ctx, data, dtype, lfft, window, clip, order):
    cplx = dtype in CPLX
    kw = {'LFFT': lfft, 'sample_rate': FS, 'clip_level': clip}
    if cplx:
        kw['central_freq'] = FC
    if window == 'pfb':
        kw['pfb'] = True
    elif window == 'lopsided':
        kw['window'] = lopsided
    given = cast(data, dtype)
    freq = np.array([FC + (k - lfft//2)*FS/lfft for k in range(lfft)]) if cplx else np.array([k*FS/(2*lfft) for k in range(lfft)])
    W = [windows(x, lfft, cplx, window, clip) for x in data]
    with np.errstate(invalid='ignore'):
        want = np.array([(np.abs(f[ok])**2).mean(axis=0) if ok.any() else np.full(lfft, np.nan) for f, ok in W])
    fr, psd = fx.SpecMaster(given, **kw)
    ctx.check(fr.shape == freq.shape and np.allclose(fr, freq, rtol=0, atol=1e-3), 'freq', 'frequencies are %s, not %s' % (fr, freq))
    close(ctx, psd, want, 'spectrum', 'spectra')
    ants = [Antenna(k+1, stand=Stand(k//2+1, 0, 0, 0), pol=k % 2) for k in range(len(data))]
    listed = [ants[k] for k in order]
    fr, st = fx.StokesMaster(given, listed, **kw)
    ctx.check(fr.shape == freq.shape and np.allclose(fr, freq, rtol=0, atol=1e-3), 'freq', 'frequencies of the Stokes spectra are %s, not %s' % (fr, freq))
    xs = [i for i, k in enumerate(order) if k % 2 == 0]
    ys = [i for i, k in enumerate(order) if k % 2 == 1]
    want = np.full((4, len(xs), lfft), np.nan)
    for n, (i, j) in enumerate(zip(xs, ys)):
        ok = W[i][1] & W[j][1]
        if ok.any():
            want[:, n] = stokes_of(W[i][0][ok], W[j][0][ok]).mean(axis=1)
    close(ctx, st, want, 'stokes', 'Stokes spectra')


IN_ORDER = [o for o in itertools.permutations(range(4)) if [k//2 for k in o if k % 2 == 0] == [k//2 for k in o if k % 2 == 1]]


def spectra(dtype, tier):
    def run(ctx):
        cplx = dtype in CPLX
        for lfft in range(1, 10 if tier == 'quick' else 18):
            n = lfft if cplx else 2*lfft
            full = signal(4, 6*n, cplx)
            for nsamp in sorted(set(list(range(n, 3*n+1)) + [4*n, 6*n-1, 6*n])):
                for window in ('none', 'lopsided', 'pfb'):
                    desc = dict(lfft=lfft, nsamp=nsamp, window=window)
                    with ctx.case(**desc):
                        spectrum_case(ctx, full[:, :nsamp], dtype, lfft, window, 0, (0, 1, 2, 3))
                        ctx.state(repr(desc))
        for order in IN_ORDER:
            desc = dict(order=order)
            with ctx.case(**desc):
                spectrum_case(ctx, signal(4, 48, cplx), dtype, 4, 'none', 0, order)
                ctx.state(repr(desc))
    return run


def clipping(dtype, tier):
    """One strong sample at every position of every signal."""
    def run(ctx):
        cplx = dtype in CPLX
        for lfft in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 8):
            n = lfft if cplx else 2*lfft
            base = signal(4, 3*n, cplx)
            for where in range(3*n):
                for who in range(4):
                    for value in ((50, -50) if not cplx else (50, -50j)):
                        data = base.copy()
                        data[who, where] = value
                        for window in ('none', 'lopsided', 'pfb'):
                            for clip in (49, 50, 51):
                                desc = dict(lfft=lfft, where=where, who=who, value=str(value), window=window, clip=clip)
                                with ctx.case(**desc):
                                    spectrum_case(ctx, data, dtype, lfft, window, clip, (0, 1, 2, 3))
                                    ctx.state(repr(desc))
    return run


def conflict(ctx):
    data = signal(4, 64, True)
    ants = [Antenna(k+1, stand=Stand(k//2+1, 0, 0, 0), pol=k % 2) for k in range(4)]
    for fn, args in ((fx.SpecMaster, (data,)), (fx.StokesMaster, (data, ants))):
        with ctx.case(function=fn.__name__):
            ctx.raises((RuntimeError,), lambda: fn(*args, LFFT=4, pfb=True, window=lopsided), 'conflict')
            ctx.raises((Exception,), lambda: fn(*args, LFFT=4, window=[1, 2, 3, 4]), 'not-callable')
            ctx.state(fn.__name__)
    with ctx.case(function='StokesMaster', what='one polarization short'):
        ctx.raises((RuntimeError,), lambda: fx.StokesMaster(data[:3], ants[:3], LFFT=4), 'unequal')


def banks(ctx):
    for n in range(1, 10):
        for name, taps in (('fft2', 2), ('fft4', 4), ('fft8', 8), ('fft16', 16), ('fft32', 32), ('fft', 1), ('fft', 3)):
            for window in (None, lopsided):
                for cplx in (False, True):
                    for extra in (0, 3):
                        desc = dict(n=n, name=name, taps=taps, window=window is not None, cplx=cplx, extra=extra)
                        with ctx.case(**desc):
                            x = signal(1, n*taps + extra, cplx)[0]
                            before = x.copy()
                            kw = {} if window is None else {'window': window}
                            fn = getattr(filterbank, name)
                            got = fn(x, n, P=taps, **kw) if name == 'fft' else fn(x, n, **kw)
                            t = np.arange(n*taps)
                            w = np.sinc((t - n*taps/2.0 + 0.5)/n)*(lopsided(n*taps) if window else 1.0)
                            y = (x[:n*taps]*w).reshape(taps, n).sum(axis=0)
                            want = np.array([sum(y[m]*np.exp(-2j*np.pi*k*m/n) for m in range(n)) for k in range(n)])
                            close(ctx, got, want, 'bank', 'filter bank output', tol=1e-9)
                            ctx.check(np.array_equal(x, before), 'bank-input', 'the signal was changed')
                            ctx.state(repr(desc))


XYZ = [(0.0, 0.0, 0.0), (31.5, -13.25, 1.5), (-20.25, 44.0, -3.0), (60.0, 5.0, -3.0), (-300.0, 120.0, 9.0)]
LENGTH = [50.0, 68.0, 52.5, 90.0, 410.0]


def antenna(k, pol=0, status=3, fee=3, stand=None):
    cb = Cable('c%i' % k, LENGTH[k], vf=0.83, dd=2.4e-9)
    cb.clock_offset = 3e-9*k
    a = Antenna(10*k+pol+1, stand=Stand(stand or k+1, *XYZ[k]), pol=pol, cable=cb, fee=FEE('f%i' % k, k, status=fee), status=status)
    return a


def delay_of(k, f, center, az, alt):
    s = np.array([math.cos(alt)*math.sin(az), math.cos(alt)*math.cos(az), math.sin(alt)])
    f = np.asarray(f, dtype=float)
    return LENGTH[k]/(0.83*C) + 2.4e-9*LENGTH[k]/100/np.sqrt(f/10e6) + 3e-9*k - np.dot(s, np.array(XYZ[k]) - center)/C


def delays(ctx):
    for ks in [c for n in range(1, 6) for c in itertools.combinations(range(5), n)]:
        for outrigger in (False, True):
            # An outrigger does not count for the center of the array
            numbers = {k: (258 if (outrigger and k == ks[-1]) else k+1) for k in ks}
            inner = [k for k in ks if numbers[k] <= 256] or list(ks)
            center = np.mean([XYZ[k] for k in inner], axis=0)
            ants = [antenna(k, stand=numbers[k]) for k in ks]
            for az in (0.0, 90.0, 133.5, 270.0, 360.0):
                for alt in (0.0, 12.5, 90.0):
                    for freq in (49e6, [49e6], [20e6, 60e6], np.array([20e6, 40e6, 80e6])):
                        desc = dict(antennas=ks, outrigger=outrigger, az=az, alt=alt, freq=str(freq))
                        with ctx.case(**desc):
                            for a, e in ((az, alt), (Angle(az*astrounits.deg), Angle(alt*astrounits.deg)), (ephem.degrees(math.radians(az)), ephem.degrees(math.radians(alt)))):
                                got = beamformer.calc_delay(ants, freq=freq, azimuth=a, altitude=e)
                                want = np.array([delay_of(k, freq, center, math.radians(az), math.radians(alt)) for k in ks])
                                ctx.check(got.shape == want.shape and np.abs(got - want).max() < 1e-13, 'delay', 'delays are %s, not %s' % (got, want))
                            ctx.state(repr(desc))
    ants = [antenna(k) for k in range(3)]
    for az, alt in ((-1.0, 45.0), (361.0, 45.0), (0.0, -0.5), (0.0, 90.5)):
        with ctx.case(az=az, alt=alt):
            ctx.raises((ValueError,), lambda: beamformer.calc_delay(ants, azimuth=az, altitude=alt), 'range')


def beams(ctx):
    TYPES = {'int8': np.int8, 'int16': np.int16, 'int32': np.int32, 'int64': np.int64, 'float32': np.float32, 'float64': np.float64, 'complex64': np.complex64, 'complex128': np.complex128}
    kinds = [(p, s) for p in (0, 1) for s in ((3, 3), (3, 2), (0, 3))]
    for n in (1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            ants = [antenna(k, pol=p, status=s[0], fee=s[1]) for k, (p, s) in enumerate(combo)]
            sets = [('complex64', 3, 2, False)]
            if n == 2 and combo in ((kinds[0], kinds[3]), (kinds[0], kinds[0]), (kinds[0], kinds[1])):
                sets = [(t, nt, nc, sc) for t in TYPES for nt in (1, 31, 32, 33, 64, 65) for nc in (1, 2) for sc in ((False, True) if nc == 1 else (False,))]
            for dtype, ntime, nchan, scalar in sets:
                for az, alt in ((0.0, 90.0), (77.0, 33.0)):
                    desc = dict(antennas=combo, dtype=dtype, ntime=ntime, nchan=nchan, scalar=scalar, az=az, alt=alt)
                    with ctx.case(**desc):
                        freq = np.array([38e6, 74e6][:nchan])
                        base = signal(n, nchan*ntime, dtype.startswith('complex')).reshape(n, nchan, ntime)
                        data = base.astype(TYPES[dtype])
                        if scalar:
                            got = beamformer.phase_and_sum(ants, data[:, 0, :], central_freq=float(freq[0]), azimuth=az, altitude=alt)
                        else:
                            got = beamformer.phase_and_sum(ants, data, central_freq=freq, azimuth=az, altitude=alt)
                        center = np.mean([XYZ[k] for k in range(n)], axis=0)
                        d = np.array([delay_of(k, freq, center, math.radians(az), math.radians(alt)) for k in range(n)])
                        d -= d.min()
                        want = []
                        for p in (0, 1):
                            use = [k for k, (q, s) in enumerate(combo) if q == p and s == (3, 3)]
                            if use:
                                want.append(sum(base[k]*np.exp(2j*np.pi*freq*d[k])[:, None] for k in use)/len(use))
                        if not want:
                            ctx.check((np.asarray(got) == 0).all(), 'beam-none', 'there is a signal without any good antenna')
                        else:
                            want = np.array(want)
                            close(ctx, got, want[:, 0] if scalar else want, 'beam', 'beam')
                        ctx.state(repr(desc))


def circular(ctx):
    for iau in (True, False):
        for x, y in itertools.product((0, 1, -2, 1j, 1+2j, 3-1j), repeat=2):
            with ctx.case(iau=iau, x=str(x), y=str(y)):
                ax, ay = np.array([x, 2*x]), np.array([y, -y])
                l, r = beamformer.circularize(ax, ay, iau=iau)
                # Power is conserved and the difference of the powers is V
                V = 2*(ax*np.conj(ay)).imag
                ctx.check(np.allclose(np.abs(l)**2 + np.abs(r)**2, np.abs(ax)**2 + np.abs(ay)**2), 'circular-power', 'the total power changed')
                ctx.check(np.allclose(np.abs(l)**2 - np.abs(r)**2, V if iau else -V), 'circular-v', 'L - R is not the circular polarization')
                ctx.check(np.allclose((l+r)/math.sqrt(2), ax), 'circular-x', 'L + R does not give X back')
                ctx.state((iau, str(x), str(y)))


def units(tier):
    u = {'conflict': conflict, 'banks': banks, 'delays': delays, 'beams': beams, 'circular': circular}
    for d in list(REAL) + list(CPLX):
        u['spectra-' + d] = spectra(d, tier)
        if tier != 'quick' or d in ('int8', 'float32', 'ci8', 'complex64'):
            u['clipping-' + d] = clipping(d, tier)
    return u
