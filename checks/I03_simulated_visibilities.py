"""
I03 - simulated visibilities are those of the sources, baselines and time asked for.

The visibilities that the real simulator returns are compared with the sum over the
sources, evaluated directly from the positions of the antennas, for all small sets
of sources, polarizations, baselines, channels, phase centers and times, and for all
short histories of simulations on one array; the operations on simulated data are
compared with what they say they do.
"""
import copy
import itertools
import math
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import ephem
import numpy as np
from scipy.special import j1

from astropy.coordinates import AltAz, FK5, SkyCoord
from astropy.time import Time as AstroTime
import astropy.units as U

from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.sim.vis import build_sim_array, build_sim_data, scale_data, shift_data, add_baseline_noise, RadioFixedBody
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData

BOUNDS = ('all sets of 4 sources (one below the horizon) x 4 phase centers; all orders of all sets of polarizations with 3 beams; all sets of up to 3 of 10 baselines and ranges of 3 channels; '
          'all sequences of up to 3 (thorough 4) of 5 simulations on one array; all pairs of times; all gains of 3 antennas out of 4 values')
ASSUMPTIONS = 'positions of sources are those of the aipy/ephem body at the time of the data; visibilities are compared to 0.3% of the flux; the scatter of noise is compared to 8% over 4000 channels, with a fixed seed'
HANG_S = 600

JD = 2457948.611111111
LAT, LON = 34.07, -107.63
C = 299792458.0
FREQ = np.array([40e6, 41e6, 43e6])
XYZ = [(0.0, 0.0, 0.0), (11.5, -3.25, 0.5), (-20.25, 14.0, -1.0), (60.0, 5.0, -3.0), (7.0, -41.0, 2.0)]
ALL_POLS = ['xx', 'yy', 'xy', 'yx']


def station(xyz=XYZ):
    site = LWAStation('verif', LAT, LON, 2133.6)
    site.antennas = [Antenna(2*i+1, stand=Stand(i+1, *p), pol=0) for i, p in enumerate(xyz)]
    return site


_AA = {}


def array(beam='flat', xyz=XYZ, freq=FREQ):
    site = station(xyz)
    kwds = {'force_flat': True} if beam == 'flat' else ({'force_gaussian': beam} if beam != 'alm' else {})
    if beam == 'alm':
        if 'alm' not in _AA:
            _AA['alm'] = build_sim_array(site, site.antennas, freq/1e9, jd=JD)
        aa = copy.copy(_AA['alm'])
        aa.set_jultime(JD)
        return aa
    return build_sim_array(site, site.antennas, freq/1e9, jd=JD, **kwds)


def body(aa, az, alt, jys=0.0, index=0.0, shape=(0.0, 0.0, 0.0), jd=JD):
    ot = AstroTime(jd, format='jd', scale='utc')
    c = AltAz(az*U.deg, alt*U.deg, location=aa.earth_location, obstime=ot).transform_to(FK5(equinox=ot))
    b = RadioFixedBody(c.ra.rad, c.dec.rad, jys=jys, index=index, mfreq=0.041, name='b%d-%d' % (az, alt), epoch=ephem.Date(jd-2415020.0), srcshape=shape)
    aa.set_jultime(jd)
    b.compute(aa)
    return b


SOURCES = {'a': (40, 60, 10.0, 0.0), 'b': (200, 40, 4.0, -1.5), 'c': (300, 80, 2.5, 0.7), 'below': (120, -20, 50.0, 0.0)}
CENTERS = ['z', (90, 70), (250, 50), 'skycoord']


def sources(aa, names):
    return {n: body(aa, *SOURCES[n]) for n in names}


def center(aa, which):
    if which == 'z':
        return 'z'
    if which == 'skycoord':
        b = body(aa, 150, 65)
        return SkyCoord(float(b.ra)*U.rad, float(b.dec)*U.rad, frame='fk5', equinox=AstroTime(JD, format='jd', scale='utc'))
    return body(aa, *which)


def direction(az, alt):
    return np.array([math.cos(alt)*math.sin(az), math.cos(alt)*math.cos(az), math.sin(alt)])


def frame(s):
    """Axes of u, v, and w in (east, north, up) for the direction s."""
    lat = math.radians(LAT)
    pole = np.array([0.0, math.cos(lat), math.sin(lat)])
    e = np.cross(pole, s)
    e /= np.linalg.norm(e)
    return np.array([e, np.cross(s, e), s])


def where(ds):
    """Direction of the phase center of a data set at its time."""
    aa = copy.copy(ds.antennaarray)
    aa.set_jultime(ds.jd)
    p = ds.phase_center
    p.compute(aa)
    return direction(float(p.az), float(p.alt))


def model(ds, srcs, jd=None, xyz=XYZ, gain=None, resolve=False, s0=None):
    """uvw and visibilities of a data set, from scratch."""
    aa = copy.copy(ds.antennaarray)
    aa.set_jultime(ds.jd if jd is None else jd)
    s0 = where(ds) if s0 is None else s0
    axes = frame(s0)
    xyz = np.array(xyz)
    freq = np.asarray(ds.freq, dtype=float)
    uvw, vis = [], []
    for i, j in ds.baselines:
        d = xyz[i]-xyz[j]
        uvw.append((axes @ d)[:, None]*freq/C)
        total = np.zeros(freq.size, dtype=complex)
        for name, src in srcs.items():
            src.compute(aa)
            if float(src.alt) < 0:
                continue
            top = np.array(src.get_crds('top', ncrd=3)).ravel()
            flux = float(src._jys)*(freq/1e9/float(src.mfreq))**float(src.index)
            if gain is not None:
                flux = flux*gain(top)
            if resolve and src.srcshape[0]:
                a = (frame(top) @ d)[:, None]*freq/C
                th = src.srcshape[2]
                x = 2*math.pi*np.hypot(src.srcshape[0]*(a[0]*math.cos(th)-a[1]*math.sin(th)), src.srcshape[1]*(a[0]*math.sin(th)+a[1]*math.cos(th)))
                flux = flux*np.where(x == 0, 1.0, 2*j1(x)/np.where(x == 0, 1.0, x))
            total += flux*np.exp(2j*np.pi*freq/C*(d @ (top-s0)))
        vis.append(total)
    return np.array(uvw), np.array(vis)


def matches(ctx, ds, srcs, key, pols=None, **kwds):
    uvw, vis = model(ds, srcs, **kwds)
    flux = max(1.0, sum(abs(float(s._jys)) for s in srcs.values()))
    ctx.check(ds.uvw.shape == uvw.shape and np.abs(ds.uvw-uvw).max() < 3e-4*max(1.0, np.abs(uvw).max()), key+'-uvw', 'uvw differ by %g' % (np.abs(ds.uvw-uvw).max() if ds.uvw.shape == uvw.shape else -1))
    for pds in ds:
        ctx.check(pds.data.shape == vis.shape, key, '%s: shape %r instead of %r' % (pds.polarization, pds.data.shape, vis.shape))
        ctx.check(np.abs(pds.data-vis).max() < 3e-3*flux, key, '%s: visibilities differ by %g of %g Jy' % (pds.polarization, np.abs(pds.data-vis).max(), flux))
    if pols is not None:
        ctx.equal(list(ds.pols), [p.upper() for p in pols], key, 'the polarizations')
    ctx.step()


def u_sources(ctx):
    names = sorted(SOURCES)
    for n in range(1, 5):
        for sel in itertools.permutations(names, n) if ctx.tier != 'quick' else itertools.combinations(names, n):
            for ci, pc in enumerate(CENTERS):
                for flat in (True, False):
                    with ctx.case(unit='sources', sources=list(sel), phase_center=repr(pc), flat=flat):
                        ctx.state(('sources', sel, ci, flat))
                        aa = array()
                        srcs = sources(aa, sel)
                        go = lambda: build_sim_data(aa, srcs, phase_center=center(aa, pc), jd=JD, flat_response=flat)
                        if sel == ('below',):
                            ctx.raises(RuntimeError, go, 'below')
                            continue
                        ds = go()
                        ctx.check(isinstance(ds, VisibilityDataSet) and ds.jd == JD, 'type', 'one time gives %s' % type(ds).__name__)
                        ctx.equal([tuple(int(q) for q in b) for b in ds.baselines], [(i, j) for i in range(5) for j in range(i+1, 5)], 'baselines', 'the baselines')
                        ctx.check(np.allclose(ds.freq, FREQ), 'freq', 'frequencies %r' % (ds.freq,))
                        matches(ctx, ds, srcs, 'vis', ALL_POLS)
    with ctx.case(unit='refused'):
        aa = array()
        ctx.raises(ValueError, lambda: build_sim_data(aa, sources(aa, 'a'), phase_center='zenith', jd=JD), 'center')
        ctx.raises(RuntimeError, lambda: build_sim_data(aa, {}, jd=JD), 'empty')


def u_pols(ctx):
    """The order of the polarizations does not matter, nor which others there are."""
    for beam in ('flat', (60.0, 100.0), 'alm'):
        aa = array(beam)
        ref = {}
        for p in ALL_POLS:
            ds = build_sim_data(aa, sources(aa, 'abc'), pols=[p], jd=JD)
            ref[p] = getattr(ds, p.upper()).data.copy()
        with ctx.case(unit='beam', beam=repr(beam)):
            for p in ALL_POLS:
                def gain(top):
                    b1 = np.ravel(aa[0].bm_response(top, pol=p[0]))
                    b2 = np.ravel(aa[1].bm_response(top, pol=p[1]))
                    return np.sqrt(b1*b2.conj())
                ds = build_sim_data(aa, sources(aa, 'abc'), pols=[p], jd=JD)
                matches(ctx, ds, sources(aa, 'abc'), 'beam', [p], gain=gain)
        for n in range(1, 5):
            for pols in itertools.permutations(ALL_POLS, n):
                if ctx.tier == 'quick' and n == 3:
                    continue
                with ctx.case(unit='pols', beam=repr(beam), pols=list(pols)):
                    ctx.state(('pols', repr(beam), pols))
                    ds = build_sim_data(aa, sources(aa, 'abc'), pols=list(pols), jd=JD)
                    ctx.equal(list(ds.pols), [p.upper() for p in pols], 'pols', 'the polarizations')
                    for p in pols:
                        got = getattr(ds, p.upper()).data
                        ctx.check(np.abs(got-ref[p]).max() < 2e-4*17, 'pols', '%s simulated with %r differs by %g' % (p, pols, np.abs(got-ref[p]).max()))
                    # their data are their own
                    first = getattr(ds, pols[0].upper())
                    others = [getattr(ds, p.upper()).data.copy() for p in pols[1:]]
                    first.data *= 0
                    ctx.check(all(np.array_equal(a, getattr(ds, p.upper()).data) for a, p in zip(others, pols[1:])), 'shared', 'a change of %s changes another polarization' % pols[0])
                    flat = build_sim_data(aa, sources(aa, 'abc'), pols=list(pols), jd=JD, flat_response=True)
                    others = [getattr(flat, p.upper()).data.copy() for p in pols[1:]]
                    getattr(flat, pols[0].upper()).data *= 0
                    ctx.check(all(np.array_equal(a, getattr(flat, p.upper()).data) for a, p in zip(others, pols[1:])), 'shared', 'flat response: a change of %s changes another polarization' % pols[0])
                    ctx.step()


def u_select(ctx):
    aa = array()
    every = [(i, j) for i in range(5) for j in range(5)]
    srcs = sources(aa, 'ab')
    # sets of baselines, of either order and with auto-correlations
    picks = [list(c) for n in (1, 2) for c in itertools.permutations([(0, 1), (1, 0), (3, 4), (2, 2), (0, 4), (4, 1)], n)]
    picks += [every, [(3, 4), (0, 2), (1, 1)], [(2, 0)]*3]
    for pick in picks:
        with ctx.case(unit='baselines', baselines=pick):
            ctx.state(('baselines', tuple(pick)))
            ds = build_sim_data(aa, srcs, pols=['xx'], baselines=pick, jd=JD, phase_center=center(aa, (90, 70)))
            ctx.equal([tuple(b) for b in ds.baselines], pick, 'baselines', 'the baselines')
            matches(ctx, ds, srcs, 'baselines')
    # channels
    full = build_sim_data(aa, srcs, pols=['xx'], jd=JD)
    for lo in range(3):
        for hi in range(lo, 3):
            with ctx.case(unit='channels', chan=[lo, hi]):
                ctx.state(('channels', lo, hi))
                ds = build_sim_data(aa, srcs, pols=['xx'], jd=JD, chan=list(range(lo, hi+1)))
                ctx.check(np.allclose(ds.XX.data[:, lo:hi+1], full.XX.data[:, lo:hi+1], atol=1e-4) and np.allclose(ds.uvw[:, :, lo:hi+1], full.uvw[:, :, lo:hi+1]), 'channels', 'channels %d to %d differ' % (lo, hi))
                rest = [c for c in range(3) if c < lo or c > hi]
                ctx.check(ds.XX.data.shape == full.XX.data.shape and not ds.XX.data[:, rest].any(), 'channels', 'channels that were not asked for are not empty')
                ctx.step()
    # what the array does not have
    for kwds in [{'chan': c} for c in ([0, 3], [3], [-1], [-2, 1], [0, 100000], [5, 6])] + [{'baselines': b} for b in ([(0, 5)], [(5, 0)], [(-1, 2)], [(0, 1), (2, 100000)], [(0, 1), (-3, 1)])]:
        with ctx.case(unit='outside', **{k: repr(v) for k, v in kwds.items()}):
            ctx.state(('outside', repr(kwds)))
            try:
                ds = build_sim_data(aa, srcs, pols=['xx'], jd=JD, **kwds)
            except (ValueError, IndexError, RuntimeError):
                continue
            ctx.fail('outside', '%r is accepted for an array of 5 antennas and 3 channels' % (kwds,))
    # what was simulated before that is still fine
    with ctx.case(unit='after'):
        matches(ctx, build_sim_data(aa, srcs, pols=['xx'], jd=JD), srcs, 'after')


def u_history(ctx):
    """Simulations on one array and with one set of sources do not depend on those before."""
    later = JD + 0.04
    calls = [dict(jd=JD), dict(jd=later), dict(jd=JD, flat_response=True), dict(jd=later, pols=['yx', 'xx'], phase_center='body'), dict(jd=[JD, later], pols=['yy'])]
    which = [(0, 'ab'), (1, 'ab'), (2, 'c'), (3, 'abc'), (4, 'a')]
    for beam in ('flat', (60.0, 100.0)):
        def run(aa, srcs, k):
            kwds = dict(calls[k])
            if kwds.get('phase_center') == 'body':
                kwds['phase_center'] = body(aa, 90, 70)
            out = build_sim_data(aa, {n: srcs[n] for n in which[k][1]}, **kwds)
            return [([p.polarization for p in ds], ds.jd, ds.uvw.copy(), [p.data.copy() for p in ds]) for ds in (out if isinstance(out, VisibilityData) else [out])]
        fresh = []
        for k in range(len(calls)):
            aa = array(beam)
            fresh.append(run(aa, sources(aa, 'abc'), k))
        for n in (2, 3) if ctx.tier == 'quick' else (2, 3, 4):
            for seq in itertools.product(range(len(calls)), repeat=n):
                with ctx.case(unit='history', beam=repr(beam), sequence=list(seq)):
                    ctx.state(('history', repr(beam), seq))
                    aa = array(beam)
                    srcs = sources(aa, 'abc')
                    for k in seq:
                        got = run(aa, srcs, k)
                        ctx.equal(len(got), len(fresh[k]), 'history', 'the number of integrations')
                        for a, b in zip(got, fresh[k]):
                            ctx.equal(a[:2], b[:2], 'history', 'polarizations and time')
                            ctx.check(np.abs(a[2]-b[2]).max() < 3e-4 and all(np.abs(x-y).max() < 5e-3 for x, y in zip(a[3], b[3])), 'history', 'simulation %d differs after %r' % (k, seq))
                        ctx.step()


def u_times(ctx):
    jds = [JD, JD+0.01, JD+0.05, JD-0.03]
    for n in (1, 2, 3):
        for seq in itertools.permutations(jds, n):
            for pc in ('z', 'body'):
                with ctx.case(unit='times', times=[j-JD for j in seq], phase_center=pc):
                    ctx.state(('times', seq, pc))
                    aa = array()
                    srcs = sources(aa, 'ab')
                    b = 'z' if pc == 'z' else body(aa, 90, 70)
                    out = build_sim_data(aa, srcs, pols=['xx', 'yx'], jd=list(seq), phase_center=b)
                    if n == 1:
                        ctx.check(isinstance(out, VisibilityDataSet), 'type', 'one time gives %s' % type(out).__name__)
                        out = [out]
                    else:
                        ctx.check(isinstance(out, VisibilityData), 'type', 'several times give %s' % type(out).__name__)
                    ctx.equal(sorted(ds.jd for ds in out), sorted(seq), 'times', 'the times')
                    for ds in out:
                        matches(ctx, ds, srcs, 'times')
                        ctx.check(abs(ds.antennaarray.get_jultime()-ds.jd) < 1e-8 or n > 1, 'array', 'the array of the data is at %r' % ds.antennaarray.get_jultime())
                    # moved to the array they were made with, nothing changes
                    data = out[0] if n == 1 else out
                    before = [ds.uvw.copy() for ds in out]
                    moved = shift_data(data, aa)
                    for ds, old, src in zip([moved] if n == 1 else moved, before, out):
                        ctx.check(np.abs(ds.uvw-old).max() < 1e-3, 'shift', 'uvw move by %g with an array that is the same' % np.abs(ds.uvw-old).max())
                        ctx.check(np.array_equal(src.uvw, old), 'shift', 'the original was changed')
                    # and to another one
                    xyz = [(x+3.0*k, y-2.0*k*k, z+0.5*k) for k, (x, y, z) in enumerate(XYZ)]
                    moved = shift_data(data, array(xyz=xyz))
                    for ds, src in zip([moved] if n == 1 else moved, out):
                        uvw, _ = model(src, {}, xyz=xyz)
                        ctx.check(np.abs(ds.uvw-uvw).max() < 1e-3, 'shift', 'uvw of the other array are off by %g' % np.abs(ds.uvw-uvw).max())
                        ctx.check(np.array_equal(ds.XX.data, src.XX.data), 'shift', 'the visibilities were changed')


def u_shapes(ctx):
    for a, b, th in itertools.product((0.0, 0.002, 0.02), (0.001, 0.015), (0.0, 0.5, 1.7)):
        for resolve in (True, False):
            with ctx.case(unit='shapes', shape=[a, b, th], resolve=resolve):
                ctx.state(('shapes', a, b, th, resolve))
                aa = array()
                srcs = {'x': body(aa, 40, 60, 10.0, shape=(a, b, th)), 'y': body(aa, 200, 40, 4.0)}
                ds = build_sim_data(aa, srcs, pols=['xx'], jd=JD, resolve_src=resolve, baselines=[(i, j) for i in range(5) for j in range(i, 5)])
                matches(ctx, ds, srcs, 'shape', resolve=resolve)


def u_gains(ctx):
    aa = array(xyz=XYZ[:3])
    one = build_sim_data(aa, sources(aa, 'ab'), pols=['xx', 'xy'], jd=JD, baselines=[(0, 0), (0, 1), (2, 0), (1, 2)])
    two = build_sim_data(aa, sources(aa, 'ab'), pols=['xx', 'xy'], jd=[JD, JD+0.01], baselines=[(0, 0), (0, 1), (2, 0), (1, 2)])
    values = [(1.0, 0.0, 0.0), (0.5, 3.0, 0.0), (2.0, -7.5, 1.2), (1.0, 0.0, -0.4)]
    fq = FREQ/1e9
    for combo in itertools.product(range(len(values)), repeat=3):
        for phases in (True, False):
            with ctx.case(unit='gains', gains=list(combo), phases=phases):
                ctx.state(('gains', combo, phases))
                amps, delays, offs = [np.array([values[k][q] for k in combo]) for q in range(3)]
                g = [amps[k]*np.exp(2j*np.pi*fq*delays[k] + (1j*offs[k] if phases else 0)) for k in range(3)]
                for data in (one, two):
                    sets = [data] if data is one else list(data)
                    before = [[p.data.copy() for p in ds] for ds in sets]
                    out = scale_data(data, amps, delays, phase_offsets=offs if phases else None)
                    for old, ds, new in zip(before, sets, [out] if data is one else out):
                        ctx.check(all(np.array_equal(x, p.data) for x, p in zip(old, ds)), 'scale', 'the original was changed')
                        for x, p in zip(old, new):
                            want = np.array([x[k]*g[i]*g[j].conj() for k, (i, j) in enumerate(ds.baselines)])
                            ctx.check(np.abs(p.data-want).max() < 1e-4*max(1, np.abs(want).max()), 'scale', '%s does not have the gains of its antennas' % p.polarization)
                    ctx.step()
    for bad in (None, 5, np.zeros((3, 3)), one.XX):
        with ctx.case(unit='type', bad=type(bad).__name__):
            ctx.raises(TypeError, lambda: scale_data(bad, [1]*3, [0]*3), 'type')
            ctx.raises(TypeError, lambda: shift_data(bad, aa), 'type')
            ctx.raises(TypeError, lambda: add_baseline_noise(bad, 1.0, 1.0), 'type')


def u_noise(ctx):
    freq = 40e6 + 25e3*np.arange(4000)
    rng = np.random.RandomState(5)
    aa = array(xyz=XYZ[:4])
    for bl in ([(0, 1)], [(2, 3)], [(1, 3), (3, 0)], [(0, 1), (0, 2), (1, 2)], [(3, 1), (1, 1)], [(0, 3), (2, 1)]):
        ants = sorted(set(i for b in bl for i in b))
        for per in (False, True):
            for tint, bw, eff in ((5.0, None, 1.0), (0.1, 1e4, 0.5)):
                with ctx.case(unit='noise', baselines=bl, per_antenna=per, tint=tint, bandwidth=bw, efficiency=eff):
                    ctx.state(('noise', tuple(bl), per, tint))
                    np.random.seed(11)
                    data = (rng.randn(len(bl), freq.size)+1j*rng.randn(len(bl), freq.size)).astype(np.complex64)
                    ds = VisibilityDataSet(JD, freq, bl, np.zeros((len(bl), 3, freq.size)), antennaarray=aa, phase_center=None)
                    ds.append(PolarizationDataSet('XX', data=data.copy()))
                    ds.append(PolarizationDataSet('YY', data=2*data))
                    # one for each antenna of the data, in order
                    sefd = [500.0*(a+1)**2 for a in ants]
                    out = add_baseline_noise(ds, np.array(sefd) if per else 2000.0, tint, bandwidth=bw, efficiency=eff)
                    ctx.check(np.array_equal(ds.XX.data, data), 'noise', 'the original was changed')
                    noise = [np.asarray(getattr(out, p).data-getattr(ds, p).data) for p in ('XX', 'YY')]
                    for k, (i, j) in enumerate(bl):
                        s = math.sqrt(sefd[ants.index(i)]*sefd[ants.index(j)]) if per else 2000.0
                        s /= eff*math.sqrt(2*(bw or 25e3)*tint)
                        for q in noise:
                            for part in (q[k].real, q[k].imag):
                                ctx.check(abs(part.std()/s-1) < 0.08 and abs(part.mean()) < 0.08*s, 'noise', 'baseline (%d, %d): noise of %.3f +- %.3f instead of %.3f' % (i, j, part.mean(), part.std(), s))
                    if len(bl) > 1:
                        ctx.check(abs(np.corrcoef(noise[0][0].real, noise[0][1].real)[0, 1]) < 0.1, 'noise', 'two baselines have the same noise')
                    ctx.check(abs(np.corrcoef(noise[0][0].real, noise[1][0].real)[0, 1]) < 0.1, 'noise', 'two polarizations have the same noise')
                    # no noise
                    quiet = add_baseline_noise(ds, 0.0, tint, bandwidth=bw)
                    ctx.check(np.array_equal(quiet.XX.data, data), 'noise', 'an SEFD of zero adds noise')
                    ctx.step()
        with ctx.case(unit='noise-refused', baselines=bl):
            ds = VisibilityDataSet(JD, freq[:1], bl, np.zeros((len(bl), 3, 1)), antennaarray=aa, phase_center=None)
            ds.append(PolarizationDataSet('XX', data=np.zeros((len(bl), 1), dtype=np.complex64)))
            ctx.raises(RuntimeError, lambda: add_baseline_noise(ds, 1.0, 1.0), 'bandwidth')
            ctx.raises(RuntimeError, lambda: add_baseline_noise(ds, [1.0]*(len(ants)+1), 1.0, bandwidth=1.0), 'sefd')


def units(tier):
    return {'sources': u_sources, 'pols': u_pols, 'select': u_select, 'history': u_history, 'times': u_times, 'shapes': u_shapes, 'gains': u_gains, 'noise': u_noise}
