"""
F01 - visibilities, baselines and (u,v,w) are those of the antennas they are given for.

Every combination of data type, transform length, overlap, window, product, clipping,
gains, phase center, number of samples and order of the antennas within the bounds is
correlated with the real code and compared with the definition of the visibility.
"""
import math
import itertools
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import ephem
import numpy as np
from astropy import units as astrounits
from astropy.coordinates import AltAz, SkyCoord, EarthLocation, Angle

from lsl import astro
from lsl.common.stations import LWAStation, Antenna, Stand, Cable
from lsl.correlator import fx, uvutils
from lsl.reader.base import CI8

BOUNDS = ('2-3 stands with two polarizations, all orders of 4 antennas; 9 data types, 4-8 channels, 1-5 overlapped transforms, no window, a lopsided window and the filter bank, all products, '
          'with and without clipping, gains and auto-correlations, 5 kinds of phase center, every number of samples over one window; (u,v,w) on a lattice of hour angle, declination and latitude')
ASSUMPTIONS = ('delays are applied to the nearest sample and the rest as a phase at the frequency of each channel; windows of both antennas start at the same time; '
               'X and Y antennas in the same order of stands for Stokes parameters; U and V are those of the XY product of the baseline and its conjugate, as in the tests of the package; visibilities are compared to 2e-5 of the largest one (single precision); frequencies are positive')
HANG_S = 300

C = 299792458.0
XYZ = [(0.0, 0.0, 0.0), (31.5, -13.25, 1.5), (-20.25, 44.0, -3.0), (60.0, 5.0, -3.0)]
STANDS = [7, 258, 3, 42]
# (length, velocity factor, dispersion, stretch, clock offset, ASP attenuation)
CABLES = [(50.0, 0.83, 2.4e-9, 1.0, 0.0, 0.0), (68.0, 0.83, 3.1e-9, 1.02, 11e-9, 2.0), (52.5, 0.83, 2.4e-9, 1.0, 0.0, 4.0),
          (90.0, 0.81, 2.4e-9, 0.98, -7e-9, 0.0), (61.0, 0.83, 0.0, 1.0, 0.0, 6.0), (120.0, 0.85, 2.4e-9, 1.01, 0.0, 2.0)]
FS = 100e6
FC = 68.3e6


def array(n):
    ants = []
    for s in range(n):
        for p in (0, 1):
            k = 2*s + p
            cb = Cable('C%i' % k, CABLES[k][0], vf=CABLES[k][1], dd=CABLES[k][2], stretch=CABLES[k][3])
            cb.clock_offset = CABLES[k][4]
            cb.asp_atten_db = CABLES[k][5]
            ants.append(Antenna(k+1, stand=Stand(STANDS[s], *XYZ[s]), pol=p, cable=cb))
    return ants


def cable_delay(k, freq):
    length, vf, dd, stretch, clock, _ = CABLES[k]
    with np.errstate(divide='ignore'):
        return length*stretch/(vf*C) + dd*length*stretch/100.0/np.sqrt(freq/10e6) + clock


def cable_gain(k, freq):
    length, vf, dd, stretch, _, asp = CABLES[k]
    return 1.0/(np.exp(2*0.00428*length*stretch*np.sqrt(freq/10e6))*10**(asp/10))


DIRS = {'z': (0.0, 90.0), 'tuple': (135.0, 41.0), 'altaz': (250.5, 12.0), 'sky': (359.0, 66.0), 'body': (33.0, 20.0)}


def direction(kind):
    """The phase center as it is given to the correlator and its unit vector."""
    az, alt = DIRS[kind]
    if kind == 'z':
        given = 'z'
    elif kind == 'tuple':
        given = (az, alt)
    elif kind == 'altaz':
        given = AltAz(az=az*astrounits.deg, alt=alt*astrounits.deg)
    elif kind == 'sky':
        given = SkyCoord(AltAz(az=az*astrounits.deg, alt=alt*astrounits.deg))
    else:
        obs = ephem.Observer()
        obs.lat, obs.lon, obs.date = '34.07', '-107.63', '2017/7/14 03:00:00'
        given = ephem.FixedBody()
        given._ra, given._dec = obs.radec_of(math.radians(az), math.radians(alt))
        given._epoch = obs.date
        given.compute(obs)
        az, alt = math.degrees(given.az), math.degrees(given.alt)
    az, alt = math.radians(az), math.radians(alt)
    return given, np.array([math.cos(alt)*math.sin(az), math.cos(alt)*math.cos(az), math.sin(alt)])


def signal(nants, nsamp, cplx, big=False):
    """Small whole numbers, a different and correlated set for each antenna."""
    out = np.zeros((nants, nsamp), dtype=np.complex128 if cplx else np.float64)
    common = np.zeros(nsamp+64)
    s = 12345
    for t in range(nsamp+64):
        s = (s*1103515245 + 12345) % (1 << 31)
        common[t] = (s >> 16) % 9 - 4
    for a in range(nants):
        s = 777 + 31*a
        for t in range(nsamp):
            s = (s*1103515245 + 12345) % (1 << 31)
            re = (s >> 16) % 7 - 3 + common[t+5*a]
            s = (s*1103515245 + 12345) % (1 << 31)
            im = (s >> 16) % 7 - 3 + common[t+5*a+3]
            out[a, t] = re + 1j*im if cplx else re
    if big:
        # One strong sample in each antenna but the first, each at its own time
        for a in range(1, nants):
            out[a, (17*a) % nsamp] = 40
    return out


_signals = {}


def signals_of(n, nsamp, cplx, big):
    key = (n, nsamp, cplx, big)
    if key not in _signals:
        _signals[key] = signal(n, nsamp, cplx, big)
    return _signals[key]


REAL = {'int8': np.int8, 'int16': np.int16, 'int32': np.int32, 'int64': np.int64, 'float32': np.float32, 'float64': np.float64}
CPLX = {'ci8': CI8, 'complex64': np.complex64, 'complex128': np.complex128}


def cast(data, name):
    if name == 'ci8':
        out = np.zeros(data.shape, dtype=CI8)
        out['re'], out['im'] = data.real, data.imag
        return out
    return data.astype(REAL.get(name, CPLX.get(name)))


def lopsided(n):
    return np.arange(1, n+1)/(n+1.0)


def frequencies(lfft, cplx):
    if cplx:
        return np.array([FC + (k - lfft//2)*FS/lfft for k in range(lfft)])
    return np.array([k*FS/(2*lfft) for k in range(lfft)])


def transform(x, delay, freq, lfft, overlap, cplx, window, clip):
    """The channels of every window of a signal after its delay, and which are unclipped."""
    n = lfft if cplx else 2*lfft
    mid = delay[lfft//2]
    shift = int(math.floor(mid*FS + 0.5))
    taps = 4 if window == 'pfb' else 1
    if window == 'pfb':
        t = np.arange(n*taps)
        w = np.sinc((t - n*taps/2.0 + 0.5)/n)*(0.54 - 0.46*np.cos(2*np.pi*t/(n*taps)))
    elif window == 'lopsided':
        w = lopsided(n)
    else:
        w = np.ones(n)
    out, ok = [], []
    j = 0
    while shift + (n*j)//overlap + n <= x.size:
        start = shift + (n*j)//overlap
        seg = np.zeros(n*taps, dtype=x.dtype)
        lo = start - n*(taps-1)
        seg[max(0, -lo):] = x[max(0, lo):start+n]
        ok.append(not (clip and (np.abs(seg) >= clip).any()))
        spec = np.fft.fft((seg*w).reshape(taps, n).sum(axis=0))
        spec = np.fft.fftshift(spec) if cplx else spec[:lfft]
        out.append(spec/math.sqrt(n))
        j += 1
    out = np.array(out).reshape(-1, lfft)
    # The shift already is a delay at the frequencies of the sampled band; the rest is a phase
    phase = freq*(np.where(freq == 0, 0.0, delay) - shift/FS)
    if cplx:
        phase = phase + FC*shift/FS
    with np.errstate(invalid='ignore'):
        out = out*np.exp(2j*np.pi*phase)
    return out, np.array(ok, dtype=bool)


def expected(ants, order, data, freq, lfft, overlap, cplx, window, clip, gain, source, pols):
    """{(stand index of X side, ...)}: the channels of every signal, delays counted from the shortest one."""
    ks = [k for k in order if (k % 2) in pols]
    delays = {}
    for k in ks:
        delays[k] = cable_delay(k, freq) - np.dot(source, np.array(XYZ[k//2]))/C
    dmin = min(d[lfft//2] for d in delays.values())
    F = {}
    for i, k in enumerate(order):
        if k in delays:
            d = np.where(np.isfinite(delays[k]), delays[k], 0.0) - dmin
            f, ok = transform(data[i], d, freq, lfft, overlap, cplx, window, clip)
            if gain:
                f = f/np.sqrt(cable_gain(k, freq))
            F[k] = (f, ok)
    return F


def product(F, a, b, nwin):
    fa, oka = F[a]
    fb, okb = F[b]
    ok = (oka & okb[:oka.size])[:nwin] if oka.size <= okb.size else (oka[:okb.size] & okb)[:nwin]
    if not ok.any():
        return None
    return (fa[:nwin][ok]*np.conj(fb[:nwin][ok])).mean(axis=0)


def close(ctx, got, want, key, what):
    ctx.step()
    if got.shape != want.shape:
        ctx.fail(key, '%s: shape is %s, not %s' % (what, got.shape, want.shape))
    # Where no window is left there is no visibility
    use = np.isfinite(want)
    scale = np.abs(want[use]).max() if use.any() else 1.0
    with np.errstate(invalid='ignore'):
        bad = ~(np.abs(got - want) <= 2e-5*max(scale, 1e-3)) & use
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.fail(key, '%s: element %s is %s, not %s' % (what, i, got[i], want[i]))


POLS = {'XX': (0, 0), 'XY': (0, 1), 'YX': (1, 0), 'YY': (1, 1), 'RR': (0, 0), 'LR': (1, 0)}


def fx_case(ctx, nstand=2, order=None, dtype='int8', lfft=4, overlap=1, window='none', pol='XX', auto=True, clip=0, gain=False, center='z', nsamp=200, big=False, stokes=False):
    ants = array(nstand)
    if order is None:
        order = list(range(2*nstand))
    listed = [ants[k] for k in order]
    cplx = dtype in CPLX
    data = signals_of(2*nstand, nsamp, cplx, big)[:len(order)]
    freq = frequencies(lfft, cplx)
    given, source = direction(center)
    p1, p2 = (0, 1) if stokes else POLS[pol]
    F = expected(ants, order, data, freq, lfft, overlap, cplx, window, clip, gain, source, (p1, p2))
    nwin = min(f.shape[0] for f, _ in F.values())
    kw = {'LFFT': lfft, 'overlap': overlap, 'include_auto': auto, 'sample_rate': FS, 'gain_correct': gain, 'return_baselines': True, 'clip_level': clip, 'phase_center': given}
    if cplx:
        kw['central_freq'] = FC
    if window == 'pfb':
        kw['pfb'] = True
    elif window == 'lopsided':
        kw['window'] = lopsided
    given_data = cast(data, dtype)
    before = given_data.copy()
    if nwin < 1:
        return
    if stokes:
        bls, fr, vis = fx.FXStokes(given_data, listed, **kw)
    else:
        bls, fr, vis = fx.FXMaster(given_data, listed, pol=pol, **kw)
    ctx.check(np.array_equal(given_data, before), 'input', 'the signals were changed')
    ctx.check(fr.shape == freq.shape and np.allclose(fr, freq, rtol=0, atol=1e-3), 'freq', 'frequencies are %s, not %s' % (fr, freq))
    k1 = [k for k in order if k % 2 == p1]
    k2 = [k for k in order if k % 2 == p2]
    pairs = [(k1[i], k2[j]) for i in range(nstand) for j in range(i if auto else i+1, nstand)]
    got = [(a.id-1, b.id-1) for a, b in bls]
    ctx.equal(got, pairs, 'baselines', 'list of baselines')
    vis = np.asarray(vis)
    nan = np.full(lfft, np.nan + 0j)
    if not stokes:
        want = [product(F, a, b, nwin) for a, b in pairs]
        want = np.array([nan if w is None else w for w in want]).reshape(-1, lfft)
        close(ctx, vis, want, 'visibilities', 'visibilities')
        ctx.outcome(pol)
    else:
        want = np.zeros((4, len(pairs), lfft), dtype=np.complex128)
        for n, (a, b) in enumerate(pairs):
            s1, s2 = k1.index(a), k2.index(b)
            prod = {}
            for name, u, v in (('XX', k1[s1], k1[s2]), ('XY', k1[s1], k2[s2]), ('YY', k2[s1], k2[s2])):
                prod[name] = product(F, u, v, nwin)
                if prod[name] is None:
                    prod[name] = nan
            want[0, n] = prod['XX'] + prod['YY']
            want[1, n] = prod['XX'] - prod['YY']
            want[2, n] = prod['XY'] + np.conj(prod['XY'])
            want[3, n] = (prod['XY'] - np.conj(prod['XY']))/1j
        for n, name in enumerate('IQUV'):
            close(ctx, vis[n], want[n], 'stokes', 'Stokes %s visibilities' % name)
        ctx.outcome('stokes')


def grid(part, parts, **axes):
    """All combinations of the axes, split over the units."""
    names = list(axes)

    def run(ctx):
        for n, combo in enumerate(itertools.product(*[axes[k] for k in names])):
            if n % parts != part:
                continue
            kw = dict(zip(names, combo))
            desc = dict(**kw)
            with ctx.case(**desc):
                fx_case(ctx, **kw)
                ctx.state(repr(desc))
    return run


def orders(stokes):
    def run(ctx):
        for order in itertools.permutations(range(4)):
            if stokes and [k//2 for k in order if k % 2 == 0] != [k//2 for k in order if k % 2 == 1]:
                continue        # Stokes parameters need both polarizations in the same order
            for pol in (('XX',) if stokes else POLS):
                for auto in (True, False):
                    for gain in (False, True):
                        desc = dict(order=list(order), pol=pol, auto=auto, gain=gain)
                        with ctx.case(**desc):
                            fx_case(ctx, order=list(order), pol=pol, auto=auto, gain=gain, dtype='complex64', lfft=8, stokes=stokes, center='tuple')
                            ctx.state(repr(desc))
        # Three stands, every order of the stands
        for st in itertools.permutations(range(3)):
            order = [2*s+p for s in st for p in (0, 1)]
            split = [2*s for s in st] + [2*s+1 for s in st]
            for o in (order, split):
                for auto in (True, False):
                    for gain in (False, True):
                        for pol in (('XX',) if stokes else ('XX', 'XY', 'YX')):
                            desc = dict(order=o, auto=auto, gain=gain, pol=pol)
                            with ctx.case(**desc):
                                fx_case(ctx, nstand=3, order=o, auto=auto, gain=gain, pol=pol, dtype='int16', lfft=4, stokes=stokes, center='altaz')
                                ctx.state(repr(desc))
    return run


def lengths(stokes):
    """Every number of samples over more than one window, where the polarizations have different delays."""
    def run(ctx):
        for nsamp in range(100, 134):
            for dtype in ('int8', 'complex64'):
                for overlap in (1, 2, 3):
                    for pol in (('XX',) if stokes else ('XX', 'XY', 'YX')):
                        desc = dict(nsamp=nsamp, dtype=dtype, overlap=overlap, pol=pol)
                        with ctx.case(**desc):
                            fx_case(ctx, nsamp=nsamp, dtype=dtype, overlap=overlap, pol=pol, stokes=stokes, lfft=8, center='tuple')
                            ctx.state(repr(desc))
    return run


def xmaster(ctx):
    """Channelized data."""
    for nstand, nchan, ntime in itertools.product((1, 2, 3), (1, 3, 4), (1, 2, 5)):
        ants = array(nstand)
        orders = list(itertools.permutations(range(2*nstand))) if nstand < 3 else [tuple(2*s+p for s in st for p in (0, 1)) for st in itertools.permutations(range(3))]
        if nstand == 2 and (nchan, ntime) != (3, 5):
            orders = orders[::5]
        freq = 30e6 + 7.5e6*np.arange(nchan)
        base = signal(2*nstand, nchan*ntime, True).reshape(2*nstand, nchan, ntime)
        for order in orders:
            for center in DIRS:
                given, source = direction(center)
                for gain in (False, True):
                    for dtype in (np.complex64, np.complex128, np.int8):
                        data = base.astype(dtype) if dtype is not np.int8 else np.stack([base.real, base.imag], axis=-1).astype(dtype)
                        before = data.copy()
                        F = {}
                        for i, k in enumerate(order):
                            d = cable_delay(k, freq) - np.dot(source, np.array(XYZ[k//2]))/C
                            f = base[i]*np.exp(2j*np.pi*freq*d)[:, None]
                            if gain:
                                f = f/np.sqrt(cable_gain(k, freq))[:, None]
                            F[k] = f
                        for auto in (True, False):
                            for pol in POLS:
                                desc = dict(nstand=nstand, nchan=nchan, ntime=ntime, order=list(order), center=center, gain=gain, dtype=dtype.__name__, auto=auto, pol=pol)
                                with ctx.case(**desc):
                                    p1, p2 = POLS[pol]
                                    k1, k2 = [k for k in order if k % 2 == p1], [k for k in order if k % 2 == p2]
                                    pairs = [(k1[i], k2[j]) for i in range(nstand) for j in range(i if auto else i+1, nstand)]
                                    bls, vis = fx.XMaster(freq, data, [ants[k] for k in order], include_auto=auto, pol=pol, gain_correct=gain, return_baselines=True, phase_center=given)
                                    ctx.equal([(a.id-1, b.id-1) for a, b in bls], pairs, 'x-baselines', 'list of baselines')
                                    want = np.array([(F[a]*np.conj(F[b])).mean(axis=1) for a, b in pairs]).reshape(-1, nchan)
                                    close(ctx, np.asarray(vis), want, 'x-visibilities', 'visibilities')
                                    ctx.state(repr(desc))
                            if dtype is np.int8 or [k//2 for k in order if k % 2 == 0] != [k//2 for k in order if k % 2 == 1]:
                                continue
                            desc = dict(nstand=nstand, nchan=nchan, ntime=ntime, order=list(order), center=center, gain=gain, dtype=dtype.__name__, auto=auto, stokes=True)
                            with ctx.case(**desc):
                                k1, k2 = [k for k in order if k % 2 == 0], [k for k in order if k % 2 == 1]
                                idx = [(i, j) for i in range(nstand) for j in range(i if auto else i+1, nstand)]
                                bls, vis = fx.XStokes(freq, data, [ants[k] for k in order], include_auto=auto, gain_correct=gain, return_baselines=True, phase_center=given)
                                ctx.equal([(a.id-1, b.id-1) for a, b in bls], [(k1[i], k2[j]) for i, j in idx], 'x-baselines', 'list of baselines')
                                want = np.zeros((4, len(idx), nchan), dtype=np.complex128)
                                for n, (i, j) in enumerate(idx):
                                    xx, xy, yy = [(F[u]*np.conj(F[v])).mean(axis=1) for u, v in ((k1[i], k1[j]), (k1[i], k2[j]), (k2[i], k2[j]))]
                                    yx = np.conj(xy)
                                    want[:, n] = xx+yy, xx-yy, xy+yx, (xy-yx)/1j
                                close(ctx, np.asarray(vis), want, 'x-stokes', 'Stokes visibilities')
                                ctx.check(np.array_equal(data, before), 'x-input', 'the signals were changed')
                                ctx.state(repr(desc))


def baselines(ctx):
    ants = [Antenna(k+1, stand=Stand(k+1, 10.0*k, 3.0*k*k, -1.0*k), pol=0) for k in range(6)]
    others = [Antenna(k+101, stand=Stand(k+1, 10.0*k, 3.0*k*k, -1.0*k), pol=1) for k in range(6)]
    for n in range(1, 7):
        for auto in (True, False):
            for second in (False, True):
                desc = dict(n=n, auto=auto, second=second)
                with ctx.case(**desc):
                    a1 = ants[:n]
                    a2 = others[:n] if second else a1
                    kw = {'include_auto': auto}
                    if second:
                        kw['antennas2'] = a2
                    bls = uvutils.get_baselines(a1, **kw)
                    want = [(a1[i].id, a2[j].id) for i in range(n) for j in range(i if auto else i+1, n)]
                    ctx.equal([(a.id, b.id) for a, b in bls], want, 'baselines', 'list of baselines')
                    for b in range(len(want)):
                        x, y = uvutils.baseline_to_antennas(b, a1, **kw)
                        ctx.equal((x.id, y.id), want[b], 'to-antennas', 'antennas of baseline %i' % b)
                        x, y = uvutils.baseline_to_antennas(b, a1, baseline_list=bls[::-1], **kw)
                        ctx.equal((x.id, y.id), want[::-1][b], 'to-antennas', 'antennas of baseline %i of a list' % b)
                    for x in a1:
                        for y in a2:
                            i = [k for k, w in enumerate(want) if sorted(w) == sorted((x.id, y.id))]
                            got = uvutils.antennas_to_baseline(x, y, a1, **kw)
                            ctx.equal(got, i[0] if i else -1, 'to-baseline', 'baseline of antennas %i and %i' % (x.id, y.id))
                            got = uvutils.antennas_to_baseline(y, x, a1, **kw)
                            ctx.equal(got, i[0] if i else -1, 'to-baseline', 'baseline of antennas %i and %i' % (y.id, x.id))
                    ctx.state(repr(desc))


def rad(v):
    return math.radians(v)


def uvw(ctx):
    sites = []
    for lat in (-60.0, 0.0, 34.07, 89.0):
        s = LWAStation('x', lat, -107.6, 1000.0)
        sites.append((lat, s))
        sites.append((lat, EarthLocation.from_geodetic(-107.6*astrounits.deg, lat*astrounits.deg, 1000*astrounits.m)))
    ants = [Antenna(k+1, stand=Stand(STANDS[k], *XYZ[k])) for k in range(4)]
    allbl = [(a, b) for a in ants for b in ants]
    freqs = [49e6, [49e6], [30e6, 60e6], np.array([30e6, 60e6, 88e6]), np.array([[30e6, 60e6], [40e6, 80e6]])]
    for ha in (-11.5, -6.0, -1.25, 0.0, 3.5, 6.0, 12.0):
        hforms = [ha, Angle(ha*15*astrounits.deg), ephem.hours(rad(ha*15)), astro.deg_to_hms(ha*15) if ha >= 0 else ha, astro.deg_to_dms(ha*15)]
        for dec in (-89.5, -40.0, 0.0, 34.07, 71.5):
            dforms = [dec, Angle(dec*astrounits.deg), ephem.degrees(rad(dec)), astro.deg_to_dms(dec)]
            for lat, site in sites:
                h, d, l = rad(ha*15), rad(dec), rad(lat)
                # The source from the north and the zenith
                s = np.array([-math.cos(d)*math.sin(h),
                              math.sin(d)*math.cos(l) - math.cos(d)*math.cos(h)*math.sin(l),
                              math.sin(d)*math.sin(l) + math.cos(d)*math.cos(h)*math.cos(l)])
                pole = np.array([0.0, math.cos(l), math.sin(l)])
                u = np.cross(pole, s)
                u = u/np.linalg.norm(u)
                v = np.cross(s, u)
                basis = np.array([u, v, s])
                for hf, df in [(x, dforms[0]) for x in hforms] + [(hforms[0], x) for x in dforms[1:]]:
                    for f in freqs if (hf is hforms[0] and df is dforms[0]) else freqs[:1]:
                        desc = dict(ha=str(hf), dec=str(df), lat=lat, site=type(site).__name__, freq=str(f))
                        with ctx.case(**desc):
                            fr = np.array(f, ndmin=1)
                            for bl, auto in ((None, False), (None, True), (allbl, False)):
                                if bl is None:
                                    pairs = [(ants[i], ants[j]) for i in range(4) for j in range(i if auto else i+1, 4)]
                                    got = uvutils.compute_uvw(ants, HA=hf, dec=df, freq=f, site=site, include_auto=auto)
                                else:
                                    pairs = bl
                                    got = uvutils.compute_uvw(bl, HA=hf, dec=df, freq=f, site=site)
                                want = np.zeros((len(pairs), 3) + fr.shape)
                                for n, (a, b) in enumerate(pairs):
                                    diff = np.array([a.stand.x - b.stand.x, a.stand.y - b.stand.y, a.stand.z - b.stand.z])
                                    c = basis @ diff
                                    for m in range(3):
                                        want[n, m] = c[m]*fr/C
                                ctx.check(got.shape == want.shape, 'uvw-shape', 'shape is %s, not %s' % (got.shape, want.shape))
                                ctx.check(np.abs(got - want).max() < 1e-5, 'uvw', '(u,v,w) are off by %g wavelengths' % np.abs(got - want).max())
                            ctx.state(repr(desc))


def tracks(ctx):
    """All of a track lies on the ellipse of its baseline."""
    positions = [(x, y, z) for x in (0.0, 0.1, 13.3) for y in (-7.7, 0.0, 101.0) for z in (0.0, 1.7)]
    ants = [Antenna(k+1, stand=Stand(k+1, *p)) for k, p in enumerate(positions)]
    for lat in (-60.0, 0.0, 34.07, 89.0):
        for site in (LWAStation('x', lat, -107.6, 1000.0), EarthLocation.from_geodetic(-107.6*astrounits.deg, lat*astrounits.deg, 1000*astrounits.m)):
            for dec in (-89.5, -40.0, 0.0, 34.07, 71.5):
                for df in (dec, Angle(dec*astrounits.deg), ephem.degrees(rad(dec))):
                    for freq in (30e6, 88e6):
                        desc = dict(lat=lat, dec=str(df), freq=freq)
                        with ctx.case(**desc):
                            got = uvutils.compute_uv_track(ants, dec=df, freq=freq, site=site)
                            pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i+1:]]
                            ctx.check(got.shape == (len(pairs), 2, 512), 'track-shape', 'shape is %s' % (got.shape,))
                            ctx.check(np.isfinite(got).all(), 'track-finite', 'the track has values that are not numbers')
                            for n, (a, b) in enumerate(pairs):
                                east, north, up = [(getattr(a.stand, k) - getattr(b.stand, k))*freq/C for k in 'xyz']
                                l, d = rad(lat), rad(dec)
                                x = up*math.cos(l) - north*math.sin(l)
                                z = up*math.sin(l) + north*math.cos(l)
                                r2 = x*x + east*east
                                v0 = z*math.cos(d)
                                err = got[n, 0]**2*math.sin(d)**2 + (got[n, 1] - v0)**2 - r2*math.sin(d)**2
                                ctx.check(np.abs(err).max() <= 1e-7*max(1.0, r2) and (got[n, 0]**2).max() <= r2*(1+1e-9) + 1e-12, 'track', 'baseline %i is off its ellipse' % n)
                            ctx.state(repr(desc))


ALLTYPES = list(REAL) + list(CPLX)


def units(tier):
    u = {'baselines': baselines, 'uvw': uvw, 'tracks': tracks, 'channelized': xmaster}
    for stokes in (False, True):
        tag = 'stokes-' if stokes else ''
        u[tag + 'orders'] = orders(stokes)
        u[tag + 'lengths'] = lengths(stokes)
        pols = ['XX'] if stokes else ['XX', 'XY', 'YX', 'YY']
        parts = 2 if stokes else 4
        lffts = [4, 5, 8] if tier == 'quick' else [2, 3, 4, 5, 6, 7, 8, 16]
        overlaps = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 5, 6]
        for i in range(parts):
            u[f'{tag}transforms-{i}'] = grid(i, parts, dtype=ALLTYPES, lfft=lffts, overlap=overlaps, window=['none', 'lopsided', 'pfb'], pol=pols, stokes=[stokes], center=['tuple'], gain=[True])
            u[f'{tag}clipping-{i}'] = grid(i, parts, dtype=['int8', 'float32', 'ci8', 'complex64'] if tier == 'quick' else ALLTYPES, lfft=[4, 8], overlap=[1, 2], window=['none', 'lopsided', 'pfb'], pol=pols, clip=[11, 30, 60],
                                           big=[True], nstand=[2, 3], stokes=[stokes], center=['z'], auto=[True, False])
        u[f'{tag}centers'] = grid(0, 1, dtype=['int8', 'complex64'], center=list(DIRS), pol=pols, gain=[False, True], auto=[True, False], nstand=[2, 3], nsamp=[400], stokes=[stokes])
    return u
