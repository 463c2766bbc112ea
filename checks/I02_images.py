"""
I02 - an image shows the sky that its visibilities describe.

Visibilities with chosen (u,v,w) are gridded with the real code and the images are
compared with the Fourier sum over the same visibilities, evaluated directly; the
sizes, w ranges, selections, masks, weightings and the order in which images are
made are enumerated.  Sources placed on the sky have to show up at the pixel that
the coordinates of the image give for them.
"""
import copy
import itertools
import math
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import ephem
import numpy as np

from astropy.coordinates import AltAz, FK5, SkyCoord
from astropy.time import Time as AstroTime
import astropy.units as U

from lsl import astro
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.sim.vis import build_sim_array, build_sim_data, RadioFixedBody
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData
from lsl.imaging import utils, overlay

BOUNDS = ('all of 7 image geometries (with all remainders of the number of pixels by 4) x 5 ranges of w x 9 source positions; all sequences of up to 3 geometries; all sequences of up to 2 (thorough 3) of 11 imaging calls; '
          'all 64 masks of 3 baselines x 2 channels, all sets of 3 channels; all orders of up to 3 integrations; sources at 8 (thorough 24) positions on the sky x 4 phase centers x 4 image sizes')
ASSUMPTIONS = ('sources are compared with the direct Fourier sum to 1.2% at the source, 6% of the peak in the central 40% and 15% in the central 70% of the image, which the anti-aliasing of the gridder allows for; '
               'all weights are one; uv coverages of up to 150 visibilities; the peak of an image on the sky is within one pixel of the source')
HANG_S = 600

JD = 2457948.611111111
LAT, LON = 34.07, -107.63
FREQ = np.array([40e6, 41e6, 43e6])
GEOMETRIES = [(40, 0.5), (40, 1.0), (80, 0.5), (30.5, 0.5), (20, 0.5), (31.5, 0.5), (21, 0.5)]


def spiral(n, radius, turns=7.31):
    """A fixed, irregular uv coverage."""
    k = np.arange(n)
    r = radius*np.sqrt((k+0.5)/n)
    p = 2*math.pi*((k*0.6180339887498949) % 1.0) + 0.05*turns*k
    return r*np.cos(p), r*np.sin(p)


def station(n=40):
    site = LWAStation('verif', LAT, LON, 2133.6)
    x, y = spiral(n, 75.0)
    site.antennas = [Antenna(2*i+1, stand=Stand(i+1, float(x[i]), float(y[i]), 0.2*(i % 5)), pol=0) for i in range(n)]
    return site


_AA = {}


def antenna_array(n=40):
    if n not in _AA:
        site = station(n)
        _AA[n] = build_sim_array(site, site.antennas, FREQ/1e9, jd=JD, force_flat=True)
    aa = copy.copy(_AA[n])
    aa.set_jultime(JD)
    return aa


def center_body():
    body = RadioFixedBody('13:50:00', '20:00:00', epoch=JD-2415020.0)
    body.compute(antenna_array(4))
    return body


def data_set(u, v, w, vis, pol='XX', mask=None, freq=None, jd=JD, **more):
    """u, v, w and vis are (baseline, channel)."""
    u, v, w, vis = [np.asarray(q) for q in (u, v, w, vis)]
    nb, nc = vis.shape
    bl = [(i, i+1) for i in range(nb)]
    ds = VisibilityDataSet(jd, FREQ[:nc].copy() if freq is None else freq, bl, np.array([[u[i], v[i], w[i]] for i in range(nb)], dtype=np.float64),
                           antennaarray=antenna_array(4), phase_center=center_body())
    p = PolarizationDataSet(pol, data=vis.astype(np.complex64))
    if mask is not None:
        p.mask = np.array(mask, dtype=bool)
    ds.append(p)
    for name, value in more.items():
        q = PolarizationDataSet(name, data=np.asarray(value).astype(np.complex64))
        if mask is not None:
            q.mask = np.array(mask, dtype=bool)
        ds.append(q)
    return ds


def sky_vis(u, v, w, srcs):
    out = np.zeros(np.shape(u), dtype=complex)
    for flux, l, m in srcs:
        n = math.sqrt(1-l*l-m*m)
        out += flux*np.exp(2j*np.pi*(u*l + v*m + w*(n-1)))
    return out


def orient(im):
    """(L, M) for each pixel of an image of `im`."""
    L, M = im.get_LM()
    return np.ma.filled(L, 9.0), np.ma.filled(M, 9.0)


def direct(u, v, w, vis, L, M):
    u, v, w, vis = [np.asarray(q).ravel() for q in (u, v, w, vis)]
    N = np.sqrt(np.maximum(0.0, 1-L**2-M**2)) - 1
    out = np.zeros(L.shape)
    for a, b, c, x in zip(u, v, w, vis):
        out += 2*(x*np.exp(-2j*np.pi*(a*L+b*M+c*N))).real
    return out/L.size


def inner(L, M, size, res):
    return (L**2+M**2 < 0.5) & (np.abs(L) < 0.35/res) & (np.abs(M) < 0.35/res)


def compare(ctx, im, u, v, w, vis, key, what, at=None):
    size, res = im.size, im.res
    img = im.image()
    L, M = orient(im)
    ctx.check(img.shape == L.shape and bool(np.isfinite(img).all()), key, what+': shape %r or values that are not finite' % (img.shape,))
    want = direct(u, v, w, vis, L, M)
    sel = inner(L, M, size, res)
    scale = np.abs(want).max()
    worst = np.abs(img-want)[sel].max()/scale
    ctx.check(worst < 0.15, key, '%s: differs from the Fourier sum by %.3f of the peak' % (what, worst))
    sel = sel & (np.abs(L) < 0.2/res) & (np.abs(M) < 0.2/res)
    worst = np.abs(img-want)[sel].max()/scale
    ctx.check(worst < 0.06, key, '%s: differs from the Fourier sum by %.3f of the peak near the phase center' % (what, worst))
    if at is not None:
        k = np.unravel_index(np.argmin((L-at[0])**2+(M-at[1])**2), L.shape)
        ctx.check(abs(img[k]-want[k]) < 0.012*scale, key, '%s: source of %.6f in the Fourier sum has %.6f in the image' % (what, want[k], img[k]))
    ctx.step()
    return img


W_RANGES = [(0.0, 0.0), (0.0, 0.3), (2.5, 2.5), (-4.0, 4.0), (0.0, 25.0)]


def coverage(size, n=100, wlo=-4.0, whi=4.0):
    u, v = spiral(n, 0.4*size)
    w = wlo + (whi-wlo)*((np.arange(n)*0.7548776662466927) % 1.0)
    return u, v, w


def u_point(ctx):
    positions = [(a, b) for a in (0, 1, -1) for b in (0, 1, -1)]
    for gi, (size, res) in enumerate(GEOMETRIES):
        npix = int(round(size/res))
        for wi, (wlo, whi) in enumerate(W_RANGES):
            for pi, (a, b) in enumerate(positions):
                if ctx.tier == 'quick' and (gi+wi+pi) % 3 and not (wi == 0 and pi == 1):
                    continue
                # on a pixel
                l, m = a*int(0.2*npix)/size*0.5, b*int(0.15*npix)/size*0.5
                l, m = round(l*size)/size, round(m*size)/size
                if l*l+m*m > 0.45:
                    l, m = l/2, m/2
                    l, m = round(l*size)/size, round(m*size)/size
                with ctx.case(unit='point', size=size, res=res, w=[wlo, whi], position=[l, m]):
                    ctx.state(('point', gi, wi, pi))
                    u, v, w = coverage(size, wlo=wlo, whi=whi)
                    vis = sky_vis(u, v, w, [(3.0, l, m)])
                    ds = data_set(u[:, None], v[:, None], w[:, None], vis[:, None])
                    im = utils.build_gridded_image(ds, size=size, res=res, wres=0.1)
                    img = compare(ctx, im, u, v, w, vis, 'image', 'image of a source at (%.3f, %.3f)' % (l, m), at=(l, m))
                    ctx.equal(img.shape, (npix, npix), 'shape', 'the shape of the image')


def u_many(ctx):
    """Several sources, several channels; w planes that are fine or many."""
    srcs = [(3.0, 0.0, 0.0), (1.5, 0.2, -0.1), (2.0, -0.25, 0.15)]
    for (size, res), wres, wmax in itertools.product([(40, 0.5), (80, 0.5)], (0.02, 0.1, 0.5), (1.0, 30.0)):
        with ctx.case(unit='many', size=size, res=res, wres=wres, wmax=wmax):
            ctx.state(('many', size, res, wres, wmax))
            u, v, w = coverage(size, 120, -wmax, wmax)
            u, v, w = [q.reshape(40, 3) for q in (u, v, w)]
            vis = sky_vis(u, v, w, srcs)
            im = utils.build_gridded_image(data_set(u, v, w, vis), size=size, res=res, wres=wres)
            if wres <= 0.1:
                compare(ctx, im, u, v, w, vis, 'image', 'image of three sources')
            else:
                ctx.check(bool(np.isfinite(im.image()).all()), 'image', 'image of three sources is not finite')
    # the planes of w that a long baseline may need
    for n in (200, 1000, 1100, 1500) if ctx.tier == 'quick' else (200, 1000, 1020, 1024, 1025, 1100, 1500, 3000):
        with ctx.case(unit='planes', n=n):
            ctx.state(('planes', n))
            u, v = spiral(n, 8.0)
            w = (np.arange(n)-n/2+0.5)*0.3*6
            vis = sky_vis(u, v, w, [(1.0, 0.0, 0.0)])
            im = utils.build_gridded_image(data_set(u[:, None], v[:, None], w[:, None], vis[:, None]), size=20, res=0.5, wres=0.1)
            L, M = orient(im)
            img = im.image()
            ctx.check(abs(img[0, 0]*img.size/(2*n) - 1.0) < 0.012, 'planes', '%d w planes: flux of %.3f instead of 1' % (2*n, img[0, 0]*img.size/(2*n)))


def u_order(ctx):
    """The image does not depend on the images that were made before."""
    geoms = [(40, 0.5), (20, 0.5), (30.5, 0.5)]
    for n in (1, 2, 3):
        for seq in itertools.product(range(len(geoms)), repeat=n):
            with ctx.case(unit='order', sequence=[geoms[i] for i in seq]):
                for i in seq:
                    size, res = geoms[i]
                    ctx.state(('order', seq))
                    u, v, w = coverage(size, 60)
                    vis = sky_vis(u, v, w, [(2.0, 0.1, -0.15)])
                    im = utils.build_gridded_image(data_set(u[:, None], v[:, None], w[:, None], vis[:, None]), size=size, res=res, wres=0.1)
                    compare(ctx, im, u, v, w, vis, 'order', 'image %r of the sequence' % ((size, res),), at=(0.1, -0.15))


CALLS = [('image', {}), ('image', {'weighting': 'uniform'}), ('image', {'weighting': 'briggs', 'robust': 0.0}), ('image', {'weighting': 'briggs', 'robust': -2.0}),
         ('image', {'taper': (10.0, 0.0)}), ('image', {'taper': (0.0, 10.0)}), ('image', {'taper': 12.0}), ('image', {'weighting': 'uniform', 'taper': (8.0, 14.0)}),
         ('image', {'center': (40, 40), 'weighting': 'uniform'}), ('bm_image', {'term': 0}), ('bm_image', {'term': 0, 'weighting': 'uniform'})]


def expected(im, uv, bm, call, kwds):
    data = (uv if call == 'image' else bm).copy().astype(complex)
    wgt = bm.real.astype(float)
    if kwds.get('weighting') == 'uniform':
        data = np.where(wgt == 0, 0, data/np.where(wgt == 0, 1, wgt))
    elif kwds.get('weighting') == 'briggs':
        s2 = 25*10**(-2*kwds['robust'])/((wgt**2).sum()/wgt.sum())
        data = np.where(wgt == 0, 0, data/(1+wgt*s2))
    t = kwds.get('taper', (0, 0))
    tu, tv = t if isinstance(t, tuple) else (t, t)
    n = uv.shape[0]
    k = np.fft.fftfreq(n, 1.0/n)*im.res
    if tu:
        data = data*np.exp(math.log(0.3)*(k[None, :]/tu)**2)
    if tv:
        data = data*np.exp(math.log(0.3)*(k[:, None]/tv)**2)
    img = np.fft.ifft2(data).real/im.kern_corr
    a, b = kwds.get('center', (0, 0))
    return np.roll(np.roll(img, a, axis=0), b, axis=1)


def u_weighting(ctx):
    size, res = 40, 0.5
    u, v, w = coverage(size, 80)
    # not symmetric in u and v
    v = v*0.6
    vis = sky_vis(u, v, w, [(2.0, 0.1, -0.15), (1.0, 0.0, 0.2)])
    ds = data_set(u[:, None], v[:, None], w[:, None], vis[:, None])
    for n in (1, 2) if ctx.tier == 'quick' else (1, 2, 3):
        for seq in itertools.product(range(len(CALLS)), repeat=n):
            with ctx.case(unit='weighting', sequence=[[CALLS[i][0], repr(CALLS[i][1])] for i in seq]):
                im = utils.build_gridded_image(ds, size=size, res=res, wres=0.1)
                uv, bm = im.uv.copy(), im.bm[0].copy()
                for i in seq:
                    ctx.state(('weighting', seq))
                    call, kwds = CALLS[i]
                    got = getattr(im, call)(**kwds)
                    want = expected(im, uv, bm, call, kwds)
                    ctx.check(got.shape == want.shape and np.abs(got-want).max() < 2e-3*np.abs(want).max(), 'weighting',
                              '%s(%r) is not the transform of the weighted data (%.2g of its peak)' % (call, kwds, np.abs(got-want).max()/np.abs(want).max()))
                    ctx.check(np.array_equal(im.uv, uv) and np.array_equal(im.bm[0], bm), 'unchanged', '%s(%r) changes the gridded data' % (call, kwds))
                    ctx.step()
    # a taper in u leaves the resolution in v alone
    with ctx.case(unit='taper-axis'):
        im = utils.build_gridded_image(ds, size=size, res=res, wres=0.1)
        plain = im.bm_image(term=0)
        for axis, taper in ((1, (3.0, 0.0)), (0, (0.0, 3.0))):
            b = im.bm_image(term=0, taper=taper)
            widths = []
            for q in (plain, b):
                q = q/q[0, 0]
                row = [q[0, 1], q[1, 0]]
                widths.append(row)
            other = 0 if axis == 1 else 1
            ctx.check(abs(widths[1][axis^1]-widths[0][axis^1]) > 0.02 and widths[1][axis^1] > widths[0][axis^1], 'taper', 'taper %r does not widen the beam along axis %d' % (taper, axis))
    with ctx.case(unit='weighting-name'):
        im = utils.build_gridded_image(ds, size=size, res=res, wres=0.1)
        ctx.raises(ValueError, lambda: im.image(weighting='unifrom'), 'weighting')
        ctx.raises(ValueError, lambda: im.bm_image(weighting=''), 'weighting')
        ctx.equal(len(im.bm_image()), len(im.bm), 'beam', 'the number of terms of the beam')


def same_grid(ctx, im, want, key, what):
    scale = max(np.abs(want.uv).max(), 1e-20)
    ctx.check(im.uv.shape == want.uv.shape and np.abs(im.uv-want.uv).max() <= 1e-4*scale, key, what+': gridded visibilities differ')
    ctx.check(np.abs(im.bm[0]-want.bm[0]).max() <= 1e-4*max(np.abs(want.bm[0]).max(), 1e-20), key, what+': gridded weights differ')


def small():
    u, v = spiral(9, 7.0)
    w = np.linspace(-1.0, 1.0, 9)
    u, v, w = [q.reshape(3, 3) for q in (u, v, w)]
    return u, v, w


G = dict(size=20, res=0.5, wres=0.1)


def u_select(ctx):
    u, v, w = small()
    xx = sky_vis(u, v, w, [(2.0, 0.1, -0.15)])
    yy = sky_vis(u, v, w, [(5.0, -0.2, 0.05)])
    # channels
    chans = [None, 0, 1, 2, np.int64(1)] + [list(c) for k in (1, 2, 3) for c in itertools.combinations(range(3), k)] + [[2, 0], (0, 1), np.array([1, 2])]
    for ci, chan in enumerate(chans):
        for pol, vis in (('XX', xx), ('YY', yy)):
            with ctx.case(unit='channels', chan=repr(chan), pol=pol):
                ctx.state(('channels', ci, pol))
                ds = data_set(u, v, w, xx, YY=yy)
                before = [ds.uvw.copy(), ds.XX.data.copy(), ds.YY.data.copy()]
                got = utils.build_gridded_image(ds, pol=pol, chan=chan, **G)
                pick = [0, 1, 2] if chan is None else ([int(chan)] if np.ndim(chan) == 0 else [int(q) for q in chan])
                want = utils.build_gridded_image(data_set(u[:, pick], v[:, pick], w[:, pick], vis[:, pick]), **G)
                same_grid(ctx, got, want, 'select', 'channels %r of %s' % (chan, pol))
                ctx.check(all(np.array_equal(a, b) for a, b in zip(before, [ds.uvw, ds.XX.data, ds.YY.data])), 'input', 'the data were changed by imaging them')
                ctx.step()
    # masks
    u, v, w, xx = [q[:, :2] for q in (u, v, w, xx)]
    for bits in itertools.product((0, 1), repeat=6):
        with ctx.case(unit='mask', mask=list(bits)):
            mask = np.array(bits, dtype=bool).reshape(3, 2)
            ctx.state(('mask', bits))
            bad = np.where(mask, np.nan, xx)
            ds = data_set(u, v, w, bad, mask=mask)
            if mask.all():
                try:
                    got = utils.build_gridded_image(ds, **G)
                except Exception:
                    continue
                ctx.check(not np.abs(got.uv).any(), 'mask', 'data that are all masked show up in the image')
                continue
            got = utils.build_gridded_image(ds, **G)
            keep = ~mask
            want = utils.build_gridded_image(data_set(u[keep][:, None], v[keep][:, None], w[keep][:, None], xx[keep][:, None]), **G)
            same_grid(ctx, got, want, 'mask', 'mask %r' % (bits,))
            ctx.step()


def u_outside(ctx):
    """Visibilities that the uv plane has no room for."""
    size, res = 20, 0.5
    u, v, w = coverage(size, 30)
    vis = sky_vis(u, v, w, [(2.0, 0.1, -0.15)])
    far = [10.6, 11.0, 15.0, 20.0, 1e3, 1e5, 3e9, 1e12]
    for a, (sx, sy) in itertools.product(far, [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)]):
        for ww in (0.0, 3.0):
            with ctx.case(unit='outside', u=a*sx, v=a*sy, w=ww):
                ctx.state(('outside', a, sx, sy, ww))
                # w of zero leaves the planes alone; otherwise in the plane of an existing one
                wx = w[0] if ww else w[1]
                u2, v2, w2, vis2 = np.r_[u, a*sx], np.r_[v, a*sy], np.r_[w, wx], np.r_[vis, 20.0]
                got = utils.build_gridded_image(data_set(u2[:, None], v2[:, None], w2[:, None], vis2[:, None]), size=size, res=res, wres=0.1)
                img = got.image()
                L, M = orient(got)
                sel = inner(L, M, size, res) & (np.abs(L) < 0.2/res) & (np.abs(M) < 0.2/res)
                ctx.check(bool(np.isfinite(img).all()), 'outside', 'a baseline outside of the uv plane leads to values that are not finite')
                # left out, or with the spatial frequency it has at the pixels
                ref = direct(u, v, w, vis, L, M)
                both = ref + direct([a*sx], [a*sy], [wx], [20.0], L, M)
                off = min(np.abs(img-ref)[sel].max()/np.abs(ref).max(), np.abs(img-both)[sel].max()/np.abs(both).max())
                ctx.check(off < 0.15, 'outside', 'a baseline at (%g, %g) of a uv plane of +-10 changes the image by %.3f of its peak' % (a*sx, a*sy, off))
                ctx.step()


def u_integrations(ctx):
    u, v, w = small()
    sets = []
    for k in range(3):
        uu, vv, ww = u*(1-0.2*k), v*(1-0.1*k), w*(1+0.3*k)
        sets.append((uu, vv, ww, (k+1)*sky_vis(uu, vv, ww, [(1.0, 0.1*k, -0.15)])))
    for n in (1, 2, 3):
        for order in itertools.permutations(range(3), n):
            with ctx.case(unit='integrations', order=list(order)):
                ctx.state(('integrations', order))
                parts = [data_set(*sets[k], jd=JD+k/24.0/60) for k in order]
                whole = utils.build_gridded_image(VisibilityData(parts), **G)
                each = [utils.build_gridded_image(p, **G) for p in parts]
                total, weight = sum(e.uv for e in each), sum(e.bm[0] for e in each)
                ctx.check(np.abs(whole.uv-total).max() <= 1e-4*np.abs(total).max(), 'integrations', 'image of integrations %r is not the sum of their images' % (order,))
                ctx.check(np.abs(whole.bm[0]-weight).max() <= 1e-4*np.abs(weight).max(), 'integrations', 'beam of integrations %r is not the sum of their beams' % (order,))
                # added to an image that is there already
                im = None
                for p in parts:
                    im = utils.build_gridded_image(p, im=im, **G)
                ctx.check(np.abs(im.uv-total).max() <= 1e-4*np.abs(total).max(), 'integrations', 'integrations %r added to one image are not the sum' % (order,))
                # += of images
                acc = utils.build_gridded_image(parts[0], **G)
                for p in parts[1:]:
                    acc += utils.build_gridded_image(p, **G)
                ctx.check(np.abs(acc.uv-total).max() <= 1e-4*np.abs(total).max() and np.abs(acc.bm[0]-weight).max() <= 1e-4*np.abs(weight).max(), 'add', 'images of %r added up are not the sum' % (order,))
                ctx.check(abs(whole.mjd - (parts[-1].jd-astro.MJD_OFFSET)) < 1e-6, 'mjd', 'the image is not dated with its last integration')
                ctx.step()
    with ctx.case(unit='add-refused'):
        a = utils.build_gridded_image(data_set(*sets[0]), **G)
        b = utils.build_gridded_image(data_set(*sets[0]), size=40, res=0.5, wres=0.1)
        before = a.uv.copy()

        def add(x, y):
            x += y
        ctx.raises(ValueError, lambda: add(a, b), 'add')
        ctx.raises(TypeError, lambda: add(a, 5), 'add')
        ctx.check(np.array_equal(a.uv, before), 'add', 'a refused addition changes the image')


def u_refused(ctx):
    u, v, w = small()
    ds = data_set(u, v, w, sky_vis(u, v, w, [(1.0, 0.0, 0.0)]))
    with ctx.case(unit='refused'):
        im = utils.build_gridded_image(ds, **G)
        for kwds, exc in (({'pol': 'YY'}, RuntimeError), ({'pol': 'xx'}, RuntimeError), ({'pol': 'I'}, RuntimeError), ({'im': 5}, TypeError), ({'im': np.zeros((40, 40))}, TypeError)):
            ctx.raises(exc, lambda: utils.build_gridded_image(ds, **dict(G, **kwds)), 'refused')
            ctx.raises(exc, lambda: utils.build_gridded_image(VisibilityData([ds]), **dict(G, **kwds)), 'refused')
        before = im.uv.copy()
        for name, value in (('size', 40), ('res', 0.25), ('wres', 0.2)):
            ctx.raises(ValueError, lambda: utils.build_gridded_image(ds, im=im, **dict(G, **{name: value})), 'refused')
        ctx.check(np.array_equal(im.uv, before), 'refused', 'a refused image was changed')
        for what in (None, 5, 'file', ds.XX, [ds]):
            ctx.raises(TypeError, lambda: utils.build_gridded_image(what, **G), 'refused')
    with ctx.case(unit='wcs-unknown'):
        im = utils.ImgWPlus(size=20, res=0.5)
        ctx.raises(RuntimeError, lambda: im.wcs, 'wcs')
        im.mjd = 57000
        ctx.raises(RuntimeError, lambda: im.wcs, 'wcs')
        for attr, values in (('mjd', ['57000', None, [57000.0]]), ('phase_center', ['z', None, (1, 2)]), ('antennaarray', [None, 5, 'aa'])):
            for value in values:
                ctx.raises(TypeError, lambda: setattr(im, attr, value), attr)


class Axes(object):
    def __init__(self):
        self.points, self.texts, self.images = [], [], []

    def plot(self, x, y, **kwds):
        self.points.append((np.array(x, dtype=float), np.array(y, dtype=float)))

    def text(self, x, y, s, **kwds):
        self.texts.append((float(x), float(y), s))

    def imshow(self, img, **kwds):
        self.images.append((np.array(img), kwds))
        return img


def sky_body(aa, az, alt, jys=0.0):
    ot = AstroTime(JD, format='jd', scale='utc')
    c = AltAz(az*U.deg, alt*U.deg, location=aa.earth_location, obstime=ot).transform_to(FK5(equinox=ot))
    b = RadioFixedBody(c.ra.rad, c.dec.rad, jys=jys, index=0, name='s%d-%d' % (az, alt), epoch=ephem.Date(JD-2415020.0))
    b.compute(aa)
    return b


def u_sky(ctx):
    aa = antenna_array()
    places = [(az, alt) for az in (20, 110, 200, 290) for alt in (75, 45)]
    if ctx.tier != 'quick':
        places = [(az, alt) for az in range(0, 360, 45) for alt in (80, 60, 40)]
    ot = AstroTime(JD, format='jd', scale='utc')
    for pi, (az, alt) in enumerate(places):
        for ci, where in enumerate(['z', (90, 70), (250, 80), 'skycoord']):
            for size, res in ((60, 0.5), (60.5, 0.5), (80, 1.0), (61.5, 0.5)) if ctx.tier != 'quick' else [((60, 0.5), (60.5, 0.5), (80, 1.0), (61.5, 0.5))[(pi//2+ci) % 4]]:
                with ctx.case(unit='sky', az=az, alt=alt, phase_center=repr(where), size=size, res=res):
                    ctx.state(('sky', az, alt, ci, size, res))
                    src = sky_body(aa, az, alt, 10.0)
                    if where == 'z':
                        pc = 'z'
                    elif where == 'skycoord':
                        body = sky_body(aa, 150, 65)
                        pc = SkyCoord(float(body.ra)*U.rad, float(body.dec)*U.rad, frame='fk5', equinox=ot)
                    else:
                        pc = sky_body(aa, *where)
                    ds = build_sim_data(aa, {src.src_name: src}, pols=['xx'], phase_center=pc, jd=JD)
                    im = utils.build_gridded_image(ds, size=size, res=res, wres=0.1)
                    img = im.image()
                    n = img.shape[0]
                    img = np.roll(np.roll(img, n//2, axis=0), n//2, axis=1)
                    # where is it?
                    ax = Axes()
                    overlay.sources(ax, im, {'here': src})
                    ctx.equal(len(ax.points), 1, 'overlay', 'the number of sources drawn')
                    x, y = float(ax.points[0][0]), float(ax.points[0][1])
                    edge = 0.35*n
                    if not (abs(x-n//2) < edge and abs(y-n//2) < edge):
                        continue    # outside of the image
                    row, col = np.unravel_index(np.argmax(img), img.shape)
                    ctx.check(abs(x-col) <= 1 and abs(y-row) <= 1, 'place', 'source at az %d alt %d: peak at (%d, %d), drawn at (%.2f, %.2f)' % (az, alt, col, row, x, y))
                    ctx.equal(ax.texts and ax.texts[0][2], 'here', 'overlay', 'the label')
                    # its flux
                    flux = img.max()*img.size/(2*ds.XX.data.size)
                    ctx.check(abs(flux-10.0) < 1.6, 'flux', 'source of 10 Jy: %.2f Jy' % flux)
                    # the coordinates of the pixels
                    for shifted in (True, False):
                        ra, dec = utils.get_image_radec(im, shifted=shifted)
                        a, e = utils.get_image_azalt(im, shifted=shifted)
                        k = (row, col) if shifted else ((row-n//2) % n, (col-n//2) % n)
                        tol = 1.5*1.5/size/max(0.3, math.sin(math.radians(alt)))
                        sep = math.acos(min(1.0, math.sin(dec[k])*math.sin(src.dec)+math.cos(dec[k])*math.cos(src.dec)*math.cos(ra[k]-src.ra)))
                        ctx.check(sep < tol, 'radec', 'shifted=%s: peak at RA %.4f dec. %.4f, source at %.4f, %.4f' % (shifted, ra[k], dec[k], src.ra, src.dec))
                        sep = math.acos(min(1.0, math.sin(e[k])*math.sin(math.radians(alt))+math.cos(e[k])*math.cos(math.radians(alt))*math.cos(a[k]-math.radians(az))))
                        ctx.check(sep < tol, 'azalt', 'shifted=%s: peak at az %.2f alt %.2f, source at %d, %d' % (shifted, math.degrees(a[k]), math.degrees(e[k]), az, alt))
                    # the plot
                    for shifted in (True, False):
                        ax = Axes()
                        utils.plot_gridded_image(ax, im, shifted=shifted)
                        got = ax.images[0][0]
                        want = img if shifted else im.image()
                        ctx.check(np.array_equal(got, want) and ax.images[0][1].get('origin') == 'lower', 'plot', 'the picture drawn is not that of the image (shifted=%s)' % shifted)
                    ctx.step()


def u_wcs(ctx):
    """One phase center, given in each of the ways there are."""
    aa = antenna_array(4)
    ot = AstroTime(JD, format='jd', scale='utc')
    for ra, dec in ((200.0, 30.0), (10.0, -20.0), (350.0, 75.0)):
        now = FK5(ra*U.deg, dec*U.deg, equinox=ot)
        j2000 = now.transform_to(FK5(equinox='J2000'))
        body = RadioFixedBody(now.ra.rad, now.dec.rad, epoch=ephem.Date(JD-2415020.0))
        body.compute(aa)
        forms = {'fk5-now': now, 'fk5-2000': j2000, 'skycoord': SkyCoord(j2000), 'icrs': SkyCoord(now).icrs, 'posn': astro.equ_posn(j2000.ra.deg, j2000.dec.deg), 'body': body}
        for name, pc in forms.items():
            for size, res in ((40, 0.5), (30.5, 0.5), (31.5, 0.5), (41, 0.5), (80, 1.0)):
                with ctx.case(unit='wcs', center=[ra, dec], form=name, size=size, res=res):
                    ctx.state(('wcs', ra, dec, name, size, res))
                    im = utils.ImgWPlus(size=size, res=res)
                    im.mjd = JD - astro.MJD_OFFSET
                    im.phase_center = pc
                    wcs = im.wcs
                    n = int(round(size/res))
                    r, d = wcs.all_pix2world([[n//2, n//2]], 0)[0]
                    ctx.check(abs((r-ra+180) % 360-180)*math.cos(math.radians(dec)) < 0.01 and abs(d-dec) < 0.01, 'center', '%s: center of the image is at %.4f, %.4f instead of %.4f, %.4f' % (name, r, d, ra, dec))
                    # one pixel to the left is to the east, one up to the north
                    r1, d1 = wcs.all_pix2world([[n//2-1, n//2]], 0)[0]
                    r2, d2 = wcs.all_pix2world([[n//2, n//2+1]], 0)[0]
                    step = math.degrees(1.0/size)
                    de = ((r1-r+180) % 360-180)*math.cos(math.radians(dec))
                    ctx.check(abs(de-step) < 0.02*step and abs(d2-d-step) < 0.02*step, 'scale', '%s: pixels of %.4f x %.4f deg instead of %.4f' % (name, de, d2-d, step))
                    ctx.check(abs(im.pixel_size-1.0/size) < 0.01/size, 'scale', 'pixel size of %.5f rad for a uv plane of %g' % (im.pixel_size, size))
                    ctx.step()


def units(tier):
    return {'point': u_point, 'many': u_many, 'order': u_order, 'weighting': u_weighting, 'select': u_select, 'outside': u_outside,
            'integrations': u_integrations, 'refused': u_refused, 'sky': u_sky, 'wcs': u_wcs}
