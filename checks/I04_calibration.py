"""
I04 - self-calibration recovers the errors of the antennas; sources and background
of an image are found where they are.

Antenna gains, phases and delays are put on simulated visibilities in all small
combinations, and the real self-calibration has to take them out again, for each
reference antenna.  Sources are put on all sub-pixel positions of a grid on images
with known backgrounds.
"""
import itertools
import math
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import numpy as np

from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.sim.vis import build_sim_array, scale_data
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet
from lsl.imaging import selfcal, analysis

BOUNDS = ('all combinations of 3 gains, 3 phases, and 3 delays (0.4 to 2.5, +-0.6 rad, +-2 ns) for 3 antennas out of 5 x all methods, with each reference antenna, with and without auto-correlations and for sets of channels; '
          'sources at 25 sub-pixel positions x 4 places; 6 shapes of images x 3 backgrounds x 3 window sizes')
ASSUMPTIONS = 'phase errors below pi on all baselines, so that the solution is unique; no noise; gains are compared to 1%, phases to 0.05 rad and delays to 0.4 ns, the default limits of convergence with a margin; sources stand alone'
HANG_S = 600

JD = 2457948.611111111
XYZ = [(0.0, 0.0, 0.0), (11.5, -3.25, 0.5), (-20.25, 14.0, -1.0), (60.0, 5.0, -3.0), (7.0, -41.0, 2.0)]
FREQ = np.linspace(38e6, 48e6, 6)
STANDS = [7, 42, 3, 258, 19]
N = 5


def array():
    site = LWAStation('verif', 34.07, -107.63, 2133.6)
    site.antennas = [Antenna(2*i+1, stand=Stand(s, *p), pol=0) for i, (s, p) in enumerate(zip(STANDS, XYZ))]
    return build_sim_array(site, site.antennas, FREQ/1e9, jd=JD, force_flat=True)


_AA = []


def the_array():
    if not _AA:
        _AA.append(array())
    return _AA[0]


def sky(autos=False, order=1):
    bl = [(i, j) for i in range(N) for j in range(i if autos else i+1, N)][::order]
    k = np.arange(len(bl))[:, None]
    f = np.arange(FREQ.size)[None, :]
    ds = VisibilityDataSet(JD, FREQ.copy(), bl, np.zeros((len(bl), 3, FREQ.size)), antennaarray=the_array(), phase_center=None)
    vis = (10.0 + 3*np.cos(1.7*k) + 0.2*f)*np.exp(1j*(0.9*k*k + 0.3*f*k))
    for b, (i, j) in enumerate(bl):
        if i == j:
            vis[b] = np.abs(vis[b])
    for pol, scale in (('XX', 1.0), ('YY', 2.0)):
        ds.append(PolarizationDataSet(pol, data=(scale*vis).astype(np.complex64)))
    return ds


GAINS = [1.0, 0.4, 2.5]
PHASES = [0.0, 0.6, -0.6]
DELAYS = [0.0, 2.0, -2.0]
METHODS = {'phase': (False, selfcal.phase_only), 'delay': (True, selfcal.delay_only), 'both': (True, selfcal.delay_and_phase)}


def wrap(x):
    return (np.asarray(x)+np.pi) % (2*np.pi)-np.pi


def one(ctx, method, amplitude, gains, phases, delays, ref=0, chan=None, autos=False, order=1, pol='XX'):
    """Put errors on the data and take them out again."""
    model = sky(autos, order)
    gains, phases, delays = [np.array(q, dtype=float) for q in (gains, phases, delays)]
    data = scale_data(model, 1/gains, -delays, phase_offsets=-phases)
    before = {p.polarization: p.data.copy() for p in data}
    chans = list(range(FREQ.size)) if chan is None else chan
    fn = METHODS[method][1]
    out = fn(the_array(), data, model, chans, pol, ref_ant=ref, amplitude=amplitude, max_iter=60, return_convergence=True)
    parts = 3 + (1 if amplitude else 0) + (1 if method == 'both' else 0)
    ctx.equal(len(out), parts, 'output', 'the number of things returned')
    cald, converged = out[0], out[-1]
    got_g = out[1] if amplitude else np.ones(N)
    got_d = out[-3] if method == 'both' else (out[-2] if method == 'delay' else np.zeros(N))
    got_p = out[-2] if method != 'delay' else np.zeros(N)
    what = '%s%s' % (method, ' and amplitude' if amplitude else '')
    ctx.check(bool(converged), 'converged', what+' did not converge')
    ctx.check(all(np.array_equal(before[p.polarization], p.data) for p in data), 'input', what+' changes the data it is given')
    # the solution
    k = 0 if ref == 0 else STANDS.index(ref)
    ctx.check(abs(got_p[k]) < 1e-9 and abs(got_d[k]) < 1e-9, 'reference', 'the reference antenna has phase %g and delay %g' % (got_p[k], got_d[k]))
    if amplitude:
        ctx.check(np.abs(np.log(got_g/gains)).max() < 0.01, 'gains', '%s: gains %r instead of %r' % (what, np.round(got_g, 4).tolist(), gains.tolist()))
    if method == 'phase':
        want = phases-phases[k]
        ctx.check(np.abs(wrap(got_p-want)).max() < 0.05, 'phases', '%s: phases %r instead of %r' % (what, np.round(got_p, 3).tolist(), want.tolist()))
        ctx.check(bool((got_p <= np.pi+1e-9).all() and (got_p >= -np.pi-1e-9).all()), 'phases', 'phases outside of +-pi')
    elif method == 'delay':
        want = delays-delays[k]
        ctx.check(np.abs(got_d-want).max() < 0.4, 'delays', '%s: delays %r instead of %r' % (what, np.round(got_d, 3).tolist(), want.tolist()))
    # what was asked for is in the data
    fq = FREQ/1e9
    g = [got_g[a]*np.exp(2j*np.pi*fq*got_d[a]+1j*got_p[a]) for a in range(N)]
    for p in cald:
        want = np.array([before[p.polarization][b]*g[i]*g[j].conj() for b, (i, j) in enumerate(data.baselines)])
        ctx.check(np.abs(p.data-want).max() < 1e-3*np.abs(want).max(), 'applied', '%s: the data of %s do not have the solution applied' % (what, p.polarization))
    ref_vis = getattr(model, pol).data[:, chans]
    new = getattr(cald, pol).data[:, chans]
    ratio = new/ref_vis
    if amplitude:
        ctx.check(np.abs(np.log(np.abs(ratio))).max() < 0.02, 'result', '%s: amplitudes of the calibrated data are off by %.3f' % (what, np.abs(np.log(np.abs(ratio))).max()))
    ctx.check(np.abs(np.angle(ratio)).max() < 0.15, 'result', '%s: phases of the calibrated data are off by %.3f' % (what, np.abs(np.angle(ratio)).max()))
    ctx.step()


def spread(combo, values):
    """Errors for five antennas out of those of three."""
    a, b, c = [values[k] for k in combo]
    return [a, b, c, values[0], b]


def u_solve(ctx):
    for method, (has_delay, _) in METHODS.items():
        for amplitude in (False, True):
            for combo in itertools.product(range(3), repeat=3):
                for other in itertools.product(range(3), repeat=3) if ctx.tier != 'quick' else [combo[::-1], (1, 0, 2)]:
                    with ctx.case(unit='solve', method=method, amplitude=amplitude, errors=list(combo), gains=list(other)):
                        ctx.state(('solve', method, amplitude, combo, other))
                        gains = spread(other, GAINS) if amplitude else [1.0]*N
                        phases = spread(combo, PHASES) if method == 'phase' else [0.0]*N
                        delays = spread(combo, DELAYS) if method == 'delay' else [0.0]*N
                        if method == 'both':
                            delays = spread(combo, [0.0, 1.0, -1.0])
                        one(ctx, method, amplitude, gains, phases, delays)


def u_reference(ctx):
    for ref, method, amplitude in itertools.product([0]+STANDS, METHODS, (False, True)):
        for autos, order, chan, pol in itertools.product((False, True), (1, -1), (None, [0, 5], [2, 3, 4]), ('XX', 'YY')):
            if ctx.tier == 'quick' and order == -1 and pol == 'YY':
                continue
            with ctx.case(unit='reference', ref=ref, method=method, amplitude=amplitude, autos=autos, order=order, chan=chan, pol=pol):
                ctx.state(('reference', ref, method, amplitude, autos, order, repr(chan), pol))
                gains = [1.0, 0.5, 2.0, 1.2, 0.8] if amplitude else [1.0]*N
                phases = [0.3, -0.5, 0.2, 0.6, 0.0] if method == 'phase' else [0.0]*N
                delays = [1.0, -1.5, 0.0, 2.0, -0.5] if method == 'delay' else ([0.5, -0.8, 0.0, 1.0, -0.2] if method == 'both' else [0.0]*N)
                one(ctx, method, amplitude, gains, phases, delays, ref=ref, chan=chan, autos=autos, order=order, pol=pol)
    with ctx.case(unit='refused'):
        m = sky()
        for fn in (selfcal.phase_only, selfcal.delay_only, selfcal.delay_and_phase):
            ctx.raises(RuntimeError, lambda: fn(the_array(), m, m, [0, 1], 'XY'), 'refused')
            ctx.raises(RuntimeError, lambda: fn(the_array(), m, m, [0, 1], 'XX', ref_ant=99), 'refused')
            half = sky()
            half.pols.remove('YY')
            ctx.raises(RuntimeError, lambda: fn(the_array(), m, half, [0, 1], 'YY'), 'refused')
    # not enough iterations
    for method, amplitude in itertools.product(METHODS, (False, True)):
        with ctx.case(unit='early', method=method, amplitude=amplitude):
            ctx.state(('early', method, amplitude))
            model = sky()
            data = scale_data(model, [1.0, 2.0, 0.7, 0.5, 1.5] if amplitude else [1.0]*N, [0.0, 2.0, -2.0, 1.0, 0.5], phase_offsets=[0.0, 0.3, -0.3, 0.2, 0.1])
            out = METHODS[method][1](the_array(), data, model, [0, 1], 'XX', amplitude=amplitude, max_iter=1, return_convergence=True)
            ctx.check(not out[-1], 'early', '%s is said to have converged after one step' % method)


def blob(shape, x0, y0, peak, sigma):
    x, y = np.mgrid[:shape[0], :shape[1]]
    return peak*np.exp(-((x-x0)**2+(y-y0)**2)/2.0/sigma**2)


def u_points(ctx):
    shape = (64, 80)
    places = [(20, 30), (40, 12), (10, 60), (50, 70)]
    offs = [-0.4, -0.2, 0.0, 0.2, 0.4]
    for (px, py), dx, dy, size in itertools.product(places, offs, offs, (0, 16)):
        with ctx.case(unit='points', place=[px, py], offset=[dx, dy], background=size):
            ctx.state(('points', px, py, dx, dy, size))
            img = blob(shape, px+dx, py+dy, 100.0, 1.2)
            before = img.copy()
            x, y, flux, sharp, rnd = analysis.find_point_sources(img, threshold=20, fwhm=2.8, background_size=size)
            ctx.equal([len(q) for q in (x, y, flux, sharp, rnd)], [1]*5, 'count', 'the number of sources')
            ctx.check(abs(x[0]-px-dx) < 0.15 and abs(y[0]-py-dy) < 0.15, 'place', 'source at (%.1f, %.1f) found at (%.2f, %.2f)' % (px+dx, py+dy, x[0], y[0]))
            ctx.check(abs(flux[0]-before.max()) < 1e-6, 'flux', 'peak of %.3f has a flux of %.3f' % (before.max(), flux[0]))
            ctx.check(np.array_equal(img, before), 'input', 'the image was changed')
            ctx.step()
    # several, at each set of places
    for n in range(0, 5):
        for sel in itertools.combinations(range(4), n):
            with ctx.case(unit='several', sources=list(sel)):
                ctx.state(('several', sel))
                img = np.zeros(shape)
                for q in sel:
                    img += blob(shape, places[q][0], places[q][1], 50.0+20*q, 1.2)
                x, y, flux, _, _ = analysis.find_point_sources(img, threshold=15, fwhm=2.8, background_size=0)
                got = sorted((int(round(a)), int(round(b)), round(float(c), 3)) for a, b, c in zip(x, y, flux))
                ctx.equal(got, sorted((places[q][0], places[q][1], 50.0+20*q) for q in sel), 'several', 'the sources')


def u_background(ctx):
    for shape in ((64, 64), (64, 96), (96, 64), (128, 128), (80, 112), (192, 64)):
        for window in (8, 16, 32):
            for level in (0.0, 5.0, -300.0):
                for dtype in (np.float64, np.float32, np.int64):
                    with ctx.case(unit='constant', shape=list(shape), window=window, level=level, dtype=np.dtype(dtype).name):
                        ctx.state(('constant', shape, window, level, np.dtype(dtype).name))
                        img = np.full(shape, level, dtype=dtype)
                        bkg = analysis.estimate_background(img, window)
                        ctx.equal(bkg.shape, shape, 'shape', 'the shape of the background')
                        ctx.check(np.abs(bkg-level).max() < 1e-3*max(1.0, abs(level)), 'constant', 'an image of %g everywhere has a background between %g and %g' % (level, bkg.min(), bkg.max()))
                        ctx.step()
            with ctx.case(unit='sources', shape=list(shape), window=window):
                ctx.state(('bkg-sources', shape, window))
                x, y = np.mgrid[:shape[0], :shape[1]]
                ripple = 0.5*np.cos(2.3*x+0.7)*np.cos(1.9*y)
                img = 20.0 + ripple + blob(shape, shape[0]*0.4, shape[1]*0.6, 500.0, 1.0)
                bkg = analysis.estimate_background(img, window)
                far = np.hypot(x-shape[0]*0.4, y-shape[1]*0.6) > 1.5*window
                ctx.check(np.abs(bkg-20.0)[far].max() < 2.5, 'level', 'background of 20 with a source is estimated as %.2f to %.2f away from it' % (bkg[far].min(), bkg[far].max()))


def units(tier):
    return {'solve': u_solve, 'reference': u_reference, 'points': u_points, 'background': u_background}
