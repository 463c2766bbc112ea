"""
W01 - visibilities written to FITS IDI, UVFITS and measurement sets are read back
as they were given.

Every choice of stands, baseline order, order of data sets, sequence of sources,
set of polarizations, set of bands and kind of reference time within the bounds is
written with the real writers and read back with the real readers.
"""
import os
import copy
import math
import shutil
import itertools
import warnings
from datetime import datetime, timedelta, timezone

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import ephem
import numpy as np
from astropy.time import Time as AstroTime

from lsl import astro
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.writer import fitsidi, uvfits, measurementset
from lsl.writer.virtual import VirtualWriter
from lsl.imaging import utils
from lsl.reader.base import FrameTimestamp

try:
    import casacore.tables
    MS = True
except ImportError:
    MS = False

BOUNDS = ('3-4 stands out of 7 (numbers on both sides of 99, 255, 999 and 2047) in every order; all orders and orientations of 3 baselines; all orders of giving 4 data sets; '
          'all sequences of up to 3 pointings out of zenith and two sources; all sets of linear, circular and Stokes products; 1-3 bands; all ways of leaving out or repeating a data set')
ASSUMPTIONS = ('times are kept to 1 ms in FITS IDI and measurement sets and to 10 ms in UVFITS; measurement sets give the middle of the integration; only FITS IDI keeps weights; '
               'frequencies are ascending and evenly spaced; (u,v,w) agree with those of the apparent position of the source to 5e-4 of the baseline length')
HANG_S = 600

UNIX0 = 1500000000                       # 2017-07-14 02:40:00 UTC
MIDNIGHT = 1499990400                    # 2017-07-14 00:00:00 UTC
LAT, LON, ELEV = 34.07, -107.63, 2133.6
C = 299792458.0

XYZ = {1: (0.0, 0.0, 0.0), 7: (11.5, -3.25, 0.5), 42: (-20.25, 14.0, -1.0), 99: (3.0, 33.0, 2.0), 100: (-47.5, -8.0, 0.25), 255: (60.0, 5.0, -3.0),
       256: (-5.5, -61.0, 1.5), 258: (120.0, -30.0, 4.0), 999: (25.0, 25.5, 0.0), 1000: (-33.0, 2.0, 0.75), 2047: (9.0, 71.0, -0.5), 2048: (-80.0, 44.0, 1.25)}

WRITERS = {'idi': fitsidi.Idi, 'aips': fitsidi.Aips, 'ext': fitsidi.ExtendedIdi, 'uv': uvfits.Uv}
if MS:
    WRITERS['ms'] = measurementset.Ms
ALL = list(WRITERS)
CODES = dict(fitsidi.NUMERIC_STOKES)

SKY = {'A': ('13:50:00', '20:00:00'), 'B': ('15:10:30.5', '61:30:00'), 'C': ('12:00:00', '-10:00:00')}


def array(stands):
    site = LWAStation('verif', LAT, LON, ELEV)
    ants = [Antenna(2*s-1, stand=Stand(s, *XYZ[s]), pol=0) for s in stands]
    site.antennas = ants
    return site, ants


def tai(unix):
    return astro.unix_to_taimjd(unix)


def body(name):
    s = ephem.FixedBody()
    s._ra, s._dec = SKY[name]
    s._epoch = ephem.J2000
    s.name = 'SRC'+name
    return s


def observer(jd):
    o = ephem.Observer()
    o.lat, o.lon, o.elevation = math.radians(LAT), math.radians(LON), ELEV
    o.pressure = 0
    o.date = jd - 2415020.0
    return o


def true_uvw(name, jd, d):
    """
    (u,v,w) in m of the baseline d (east, north, up) for a source from its
    apparent coordinates.
    """
    o = observer(jd)
    if name == 'z':
        ha, dec = 0.0, math.radians(LAT)
    else:
        s = body(name)
        s.compute(o)
        ha, dec = float(o.sidereal_time()) - float(s.ra), float(s.dec)
    lat = math.radians(LAT)
    x = -math.sin(lat)*d[1] + math.cos(lat)*d[2]
    y = d[0]
    z = math.cos(lat)*d[1] + math.sin(lat)*d[2]
    u = math.sin(ha)*x + math.cos(ha)*y
    v = -math.sin(dec)*math.cos(ha)*x + math.sin(dec)*math.sin(ha)*y + math.cos(dec)*z
    w = math.cos(dec)*math.cos(ha)*x - math.cos(dec)*math.sin(ha)*y + math.sin(dec)*z
    return np.array([u, v, w])


def bands(n, chans, gap=1):
    width = 25e3
    return [np.arange(chans)*width + 40e6 + b*gap*chans*width for b in range(n)]


def value(k, p, bl, c):
    """A different number for each time, polarization, baseline and channel."""
    return complex(1 + c + 8*p + 64*k, bl[0] + bl[1]/4096 + (0.125 if p % 2 else 0.0))


class Spec:
    """What is to be written."""
    
    def __init__(self, stands=(7, 42, 1), times=(0,), pols=('XX',), sources=None, autos=True, chans=2, nband=1, gap=1, inttime=5.0, orders=None, give=None,
                 weights=None, ref_time=UNIX0, flip=None, base=UNIX0, drop=(), repeat=()):
        self.stands, self.times, self.pols = list(stands), list(times), list(pols)
        self.sources = list(sources) if sources else ['z']*len(self.times)
        self.chans, self.nband, self.gap, self.inttime = chans, nband, gap, inttime
        self.orders, self.give, self.weights, self.ref_time, self.base = orders, give, weights, ref_time, base
        self.drop, self.repeat = drop, repeat
        n = len(self.stands)
        self.pairs = [(i, j) for i in range(n) for j in range(i if autos else i+1, n)]
        if flip:
            self.pairs = [(j, i) if (i, j) in flip else (i, j) for i, j in self.pairs]
        self.autos = autos
        
    def order(self, k, p):
        if self.orders is None:
            return self.pairs
        return [self.pairs[i] for i in self.orders[k, p]]
        
    def vis(self, k, p, pair):
        return np.array([value(k, p, (self.stands[pair[0]], self.stands[pair[1]]), c) for c in range(self.chans*self.nband)], dtype=np.complex64)
        
    def wgt(self, k, p, pair):
        if self.weights is None or not self.weights[(k+p) % len(self.weights)]:
            return np.ones(self.chans*self.nband, dtype=np.float32)
        return np.array([0.25 + c + 4*p + 16*k + 64*pair[0] + 512*pair[1] for c in range(self.chans*self.nband)], dtype=np.float32)
        
    def jd(self, k):
        t = self.base + self.times[k]
        return t/86400.0 + 2440587.5


def write(fmt, path, spec):
    site, ants = array(spec.stands)
    w = WRITERS[fmt](path, ref_time=spec.ref_time)
    w.set_stokes(list(spec.pols))
    for f in bands(spec.nband, spec.chans, spec.gap):
        w.set_frequency(f)
    w.set_geometry(site, ants)
    bodies = {}
    todo = [(k, p) for k in range(len(spec.times)) for p in range(len(spec.pols))]
    if spec.give is not None:
        todo = [todo[i] for i in spec.give]
    todo = [kp for kp in todo if kp not in spec.drop]
    todo += list(spec.repeat)
    for k, p in todo:
        pairs = spec.order(k, p)
        vis = np.array([spec.vis(k, p, b) for b in pairs])
        src = spec.sources[k]
        if src != 'z':
            if src not in bodies:
                bodies[src] = body(src)
            bodies[src].compute(observer(spec.jd(k)))
            src = bodies[src]
        kw = {}
        if spec.weights is not None and spec.weights[(k+p) % len(spec.weights)]:
            kw['weights'] = np.array([spec.wgt(k, p, b) for b in pairs])
        w.add_data_set(tai(spec.base + spec.times[k]), spec.inttime, [(ants[i], ants[j]) for i, j in pairs], vis, pol=spec.pols[p], source=src, **kw)
    w.write()
    w.close()
    return site, ants


def compare_set(ctx, fmt, spec, ds, k, ants, include_auto=True, sort=True, names=None):
    """One integration."""
    where = dict(format=fmt, integration=k)
    pairs = spec.pairs if include_auto else [b for b in spec.pairs if b[0] != b[1]]
    freq = np.concatenate(bands(spec.nband, spec.chans, spec.gap))
    ctx.check(np.allclose(ds.freq, freq, rtol=0, atol=1e-3), 'frequencies of a data set', **where)
    shift = spec.inttime/2 if fmt == 'ms' else 0.0
    tol = 0.010 if fmt == 'uv' else 0.001
    off = (ds.jd - spec.jd(k))*86400 - shift
    ctx.check(abs(off) < tol, 'time of a data set', off_by=off, **where)
    ctx.check(abs(ds.int_time - spec.inttime) < 1e-6*max(1.0, spec.inttime), 'integration time', got=float(ds.int_time), **where)
    bls = [(int(a), int(b)) for a, b in ds.baselines]
    ctx.equal(sorted(bls), sorted(pairs), 'baselines of a data set', **where)
    if sort:
        ctx.equal(bls, sorted(bls), 'order of the baselines', **where)
    # Phase center
    src = spec.sources[k]
    pc = ds.phase_center
    if src != 'z':
        ctx.equal(str(getattr(pc, 'src_name', None) or pc.name).strip(), 'SRC'+src, 'name of the phase center', **where)
        b = body(src)
        ctx.check(abs(float(pc._ra)-float(b._ra)) < 1e-6 and abs(float(pc._dec)-float(b._dec)) < 1e-6, 'phase center',
                  got=(float(pc._ra), float(pc._dec)), want=(float(b._ra), float(b._dec)), **where)
    else:
        o = observer(spec.jd(k))
        b = ephem.FixedBody()
        b._ra, b._dec, b._epoch = pc._ra, pc._dec, ephem.J2000
        b.compute(o)
        ctx.check(float(b.alt) > math.radians(89.98), 'the zenith is the phase center', alt=math.degrees(float(b.alt)), **where)
    # Data
    pols = [str(p) for p in ds.pols]
    ctx.equal(sorted(pols), sorted(spec.pols), 'polarizations of a data set', **where)
    for p, name in enumerate(spec.pols):
        pds = getattr(ds, name)
        for row, bl in enumerate(bls):
            if not np.array_equal(pds.data[row], spec.vis(k, p, bl)):
                ctx.check(False, 'visibilities', pol=name, baseline=bl, got=[complex(x) for x in pds.data[row][:3]], want=[complex(x) for x in spec.vis(k, p, bl)[:3]], **where)
            if fmt in ('idi', 'aips', 'ext'):
                if not np.array_equal(pds.weight[row], spec.wgt(k, p, bl)):
                    ctx.check(False, 'weights', pol=name, baseline=bl, got=[float(x) for x in pds.weight[row][:3]], want=[float(x) for x in spec.wgt(k, p, bl)[:3]], **where)
        ctx.check(not pds.mask.any(), 'nothing is masked', **where)
    # (u,v,w)
    for row, (i, j) in enumerate(bls):
        d = np.array(XYZ[spec.stands[i]]) - np.array(XYZ[spec.stands[j]])
        want = true_uvw(src, spec.jd(k), d)[:, None] * freq[None, :]/C
        got = np.array(ds.uvw[row], dtype=np.float64)
        ctx.equal(got.shape, want.shape, 'shape of the (u,v,w)', **where)
        err = np.abs(got-want).max()
        ctx.check(err <= 5e-4*np.linalg.norm(d)*freq[-1]/C + 1e-5, '(u,v,w)', baseline=(i, j), got=got[:, 0].tolist(), want=want[:, 0].tolist(), **where)
    ctx.step()


def compare(ctx, fmt, spec, path, ants, full=True):
    r = utils.CorrelatedData(path)
    try:
        codes = [str(x) for x in spec.pols]
        names = utils.NUMERIC_STOKESMS if fmt == 'ms' else CODES
        ctx.equal(sorted(names[int(x)] for x in r.pols), sorted(codes), 'polarizations of a file', format=fmt)
        freq = np.concatenate(bands(spec.nband, spec.chans, spec.gap))
        ctx.check(len(r.freq) == len(freq) and np.allclose(r.freq, freq, rtol=0, atol=1e-3), 'frequencies of a file', format=fmt, got=[float(f) for f in r.freq])
        ctx.equal([int(s) for s in r.stands], spec.stands, 'stands of a file', format=fmt)
        ctx.equal([a.stand.id for a in r.antennas], spec.stands, 'antennas of a file', format=fmt)
        ctx.equal([a.id for a in r.antennas], [2*s-1 for s in spec.stands], 'antenna numbers of a file', format=fmt)
        ctx.equal(r.integration_count, len(spec.times), 'number of integrations', format=fmt)
        ctx.equal(r.total_baseline_count, len(spec.times)*len(spec.pairs)*(spec.nband if fmt == 'ms' else 1), 'number of visibilities', format=fmt)
        for a, b in zip(r.antennas, ants):
            g = np.array([x.to('m').value for x in a.stand.earth_location.to_geocentric()])
            h = np.array([x.to('m').value for x in b.stand.earth_location.to_geocentric()])
            ctx.check(np.abs(g-h).max() < 0.02, 'position of an antenna', format=fmt, stand=b.stand.id, got=g.tolist(), want=h.tolist())
        order = sorted(range(len(spec.times)), key=lambda k: spec.times[k])
        if full:
            for n, k in enumerate(order):
                compare_set(ctx, fmt, spec, r.get_data_set(n+1, include_auto=True), k, ants)
        return r, order
    except BaseException:
        r.close()
        raise


def path_of(ctx, fmt):
    p = os.path.join(ctx.scratch, 'x.'+fmt)
    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        os.unlink(p)
    return p


def trip(ctx, fmt, spec):
    path = path_of(ctx, fmt)
    site, ants = write(fmt, path, spec)
    r, order = compare(ctx, fmt, spec, path, ants)
    r.close()


def formats(fn):
    """A unit for every format."""
    return {f: (lambda ctx, f=f: fn(ctx, f)) for f in ALL}


# Units

def stands(ctx, fmt):
    pool = {'idi': (7, 255, 256, 258), 'aips': (7, 99, 100, 258), 'ext': (7, 256, 999, 1000), 'uv': (7, 255, 256, 2047, 2048), 'ms': (7, 256, 1000, 2048)}[fmt]
    for n in (2, 3):
        for sel in itertools.permutations(pool, n):
            with ctx.case(format=fmt, stands=sel):
                trip(ctx, fmt, Spec(stands=sel, autos=(n == 3)))
                ctx.state((fmt, sel))


def orders(ctx, fmt):
    pairs = [(0, 1), (0, 2), (1, 2)]
    perms = list(itertools.permutations(range(3)))
    base = perms[0]
    # Each integration in its own order
    for a, b in itertools.product(perms, repeat=2):
        with ctx.case(format=fmt, first=a, second=b):
            trip(ctx, fmt, Spec(autos=False, times=(0, 10), orders={(0, 0): a, (1, 0): b}))
            ctx.state((fmt, 'time', a, b))
    # Each polarization in its own order
    few = (perms[0], perms[3], perms[5])
    for a, b, c in itertools.product(few, repeat=3):
        with ctx.case(format=fmt, orders=(a, b, c)):
            trip(ctx, fmt, Spec(autos=False, times=(0, 10), pols=('XX', 'YY'), orders={(0, 0): a, (0, 1): b, (1, 0): c, (1, 1): a}))
            ctx.state((fmt, 'pol', a, b, c))
    # Each baseline either way round
    for n in range(4):
        for flip in itertools.combinations(pairs, n):
            with ctx.case(format=fmt, flipped=flip):
                trip(ctx, fmt, Spec(autos=False, times=(0,), flip=flip, sources=('A',)))
                ctx.state((fmt, 'flip', flip))


def given(ctx, fmt):
    for perm in itertools.permutations(range(4)):
        with ctx.case(format=fmt, given=perm):
            trip(ctx, fmt, Spec(times=(0, 10), pols=('XX', 'YY'), give=perm, autos=False))
            ctx.state((fmt, perm))
    for times in itertools.permutations((-5.5, 0.25, 3600)):
        with ctx.case(format=fmt, around_midnight=times):
            trip(ctx, fmt, Spec(times=times, base=MIDNIGHT, ref_time=MIDNIGHT-5, autos=False, inttime=0.25))
            ctx.state((fmt, times))
    if fmt != 'uv':
        with ctx.case(format=fmt, short=True):
            trip(ctx, fmt, Spec(times=[0.03*i for i in range(6)], autos=False, inttime=0.03))
    else:
        with ctx.case(format=fmt, short=True):
            trip(ctx, fmt, Spec(times=[0.05*i for i in range(6)], autos=False, inttime=0.05))
    # The names of the zenith pointings change every 0.1 s of right ascension: all ms around that
    with ctx.case(format=fmt, naming=True):
        trip(ctx, fmt, Spec(stands=(1, 7), times=[1000.0*i + 0.0001*i for i in range(12)], autos=False, inttime=1.0))


def naming(ctx, fmt):
    """Times at which the name of the zenith is just changing."""
    from astropy.coordinates import EarthLocation, AltAz, FK5
    from astropy import units as U
    site, ants = array((1, 7))
    el = site.earth_location
    
    def tenth(t):
        date = AstroTime(tai(t), format='mjd', scale='tai')
        ra = AltAz(0*U.deg, 90*U.deg, location=el, obstime=date).transform_to(FK5(equinox=date)).ra.deg
        return math.floor(ra*2400.0)
    times = []
    t = float(UNIX0)
    for i in range(3 if ctx.tier == 'quick' else 12):
        lo = UNIX0 + 60.0*i
        hi = lo + 0.11
        n = tenth(lo)
        if tenth(hi) == n:
            continue
        while hi - lo > 4e-7:
            mid = (lo+hi)/2
            if tenth(mid) == n:
                lo = mid
            else:
                hi = mid
        times.append(lo)
    for t in times:
        for d in range(-40, 45, 8):
            with ctx.case(format=fmt, at=t, microseconds=d):
                trip(ctx, fmt, Spec(stands=(1, 7), times=(t + d*1e-6 - UNIX0, t + 60 - UNIX0), autos=False, inttime=1.0))
                ctx.state((fmt, t, d))


def sources(ctx, fmt):
    for n in (1, 2, 3):
        for seq in itertools.product('zAB', repeat=n):
            with ctx.case(format=fmt, sources=seq):
                trip(ctx, fmt, Spec(stands=(258, 42), sources=seq, times=[10*i for i in range(n)], autos=False))
                ctx.state((fmt, seq))
    for src in 'zABC':
        for hour in range(0, 4):
            if src == 'C' and hour > 2:
                continue
            with ctx.case(format=fmt, source=src, hour=hour):
                trip(ctx, fmt, Spec(stands=(258, 42, 100), sources=(src,), times=(3600*hour,), autos=False))


FAMILIES = (('XX', 'YY', 'XY', 'YX'), ('RR', 'LL', 'RL', 'LR'), ('I', 'Q', 'U', 'V'))


def pols(ctx, fmt):
    for fam in FAMILIES:
        for n in range(1, 5):
            for sel in itertools.combinations(fam, n):
                idx = [fam.index(s) for s in sel]
                even = len({b-a for a, b in zip(idx, idx[1:])}) <= 1
                with ctx.case(format=fmt, pols=sel):
                    spec = Spec(stands=(7, 42), pols=sel[::-1], times=(0, 10), autos=True)
                    if fmt == 'ms' or even:
                        trip(ctx, fmt, spec)
                    else:
                        ctx.raises(RuntimeError, lambda: write(fmt, path_of(ctx, fmt), spec), 'polarizations a FITS axis cannot describe')
                    ctx.state((fmt, sel))


def frequencies(ctx, fmt):
    for nband, chans, gap in itertools.product((1, 2, 3), (2, 3), (1, 3)):
        with ctx.case(format=fmt, bands=nband, channels=chans, gap=gap):
            spec = Spec(stands=(7, 42, 1), nband=nband, chans=chans, gap=gap, pols=('XX', 'YY'), times=(0, 10), autos=True)
            if fmt == 'uv' and nband > 1:
                ctx.raises(RuntimeError, lambda: write(fmt, path_of(ctx, fmt), spec), 'several bands in a UVFITS file')
            else:
                trip(ctx, fmt, spec)
            ctx.state((fmt, nband, chans, gap))


def missing(ctx, fmt):
    every = [(k, p) for k in range(2) for p in range(2)]
    for n in range(5):
        for drop in itertools.combinations(every, n):
            for rep in ((),) + tuple((e,) for e in every):
                left = sorted([e for e in every if e not in drop] + list(rep))
                # Complete if both polarizations are there once at each time
                good = len(left) > 0 and left in ([(0, 0), (0, 1)], [(1, 0), (1, 1)], every)
                with ctx.case(format=fmt, dropped=drop, repeated=rep):
                    spec = Spec(stands=(7, 42), pols=('XX', 'YY'), times=(0, 10), autos=False, drop=drop, repeat=rep)
                    if good:
                        path = path_of(ctx, fmt)
                        site, ants = write(fmt, path, spec)
                        r = utils.CorrelatedData(path)
                        try:
                            ks = sorted({k for k, p in left})
                            ctx.equal(r.integration_count, len(ks), 'number of integrations')
                            for i, k in enumerate(ks):
                                compare_set(ctx, fmt, spec, r.get_data_set(i+1, include_auto=True), k, ants)
                        finally:
                            r.close()
                    else:
                        ctx.raises(RuntimeError, lambda: write(fmt, path_of(ctx, fmt), spec), 'incomplete data')
                    ctx.state((fmt, drop, rep))
    # Different baselines in the two polarizations
    for cut in range(3):
        with ctx.case(format=fmt, baseline_missing=cut):
            o = [i for i in range(3) if i != cut]
            spec = Spec(autos=False, times=(0,), pols=('XX', 'YY'), orders={(0, 0): [0, 1, 2], (0, 1): o})
            ctx.raises(RuntimeError, lambda: write(fmt, path_of(ctx, fmt), spec), 'a baseline without all of its polarizations')


def weights(ctx, fmt):
    if fmt not in ('idi', 'aips', 'ext'):
        return
    for pat in itertools.product((0, 1), repeat=3):
        for nband in (1, 2):
            with ctx.case(format=fmt, weighted=pat, bands=nband):
                trip(ctx, fmt, Spec(stands=(7, 42, 1), pols=('XX', 'YY'), times=(0, 10, 20), nband=nband, weights=pat, autos=True))
                ctx.state((fmt, pat, nband))


def asking(ctx, fmt):
    """Every way of asking for the data in a file."""
    spec = Spec(stands=(42, 258, 7), pols=('XX', 'YY'), times=(0, 10, 20), sources=('A', 'z', 'A'), autos=True)
    path = path_of(ctx, fmt)
    site, ants = write(fmt, path, spec)
    r, order = compare(ctx, fmt, spec, path, ants, full=False)
    for n in (1, 2, 3):
        for sel in itertools.permutations((1, 2, 3), n):
            for auto, sort in itertools.product((True, False), repeat=2):
                with ctx.case(format=fmt, sets=sel, include_auto=auto, sort=sort):
                    got = r.get_data_set(list(sel), include_auto=auto, sort=sort)
                    got = [got] if n == 1 else list(got)
                    ctx.equal(len(got), n, 'number of data sets')
                    want = sorted(sel) if sort else list(sel)
                    for ds, s in zip(got, want):
                        compare_set(ctx, fmt, spec, ds, s-1, ants, include_auto=auto, sort=sort)
                    ctx.state((fmt, sel, auto, sort))
    for auto in (True, False):
        with ctx.case(format=fmt, sequence=True, include_auto=auto):
            got = list(r.data_set_sequence(include_auto=auto))
            ctx.equal(len(got), 3, 'number of data sets in the sequence')
            for k, ds in enumerate(got):
                compare_set(ctx, fmt, spec, ds, k, ants, include_auto=auto)
    # Ranges of (u,v): every limit between the lengths of two baselines
    ds = r.get_data_set(1, include_auto=True)
    mid = ds.uvw[:, :2, len(ds.freq)//2]
    length = np.sqrt((mid**2).sum(axis=1))
    cuts = [0.0] + [float(x) for x in (np.unique(np.round(length, 3)) + 0.25)] + [np.inf]
    for lo, hi in itertools.combinations(cuts, 2):
        with ctx.case(format=fmt, min_uv=lo, max_uv=hi):
            sub = r.get_data_set(1, include_auto=True, min_uv=lo, max_uv=hi)
            want = [tuple(map(int, b)) for b, x in zip(ds.baselines, length) if lo <= x < hi]
            ctx.equal([tuple(map(int, b)) for b in sub.baselines], want, 'baselines within a range of lengths')
            for p in (0, 1):
                pds = getattr(sub, spec.pols[p])
                for row, bl in enumerate(want):
                    ctx.check(np.array_equal(pds.data[row], spec.vis(0, p, bl)), 'visibilities within a range of lengths', baseline=bl)
            ctx.state((fmt, lo, hi))
    r.close()


def references(ctx, fmt):
    dt = datetime(2017, 7, 14, 2, 40, 0, tzinfo=timezone.utc)
    forms = {'int': UNIX0, 'float': float(UNIX0), 'text': '2017-07-14T02:40:00', 'blank': '2017-07-14 02:40:00', 'fraction': '2017-07-14T02:40:00.25', 'aware': dt,
             'astropy': AstroTime(dt.replace(tzinfo=None), format='datetime', scale='utc'), 'frame': FrameTimestamp(UNIX0, 0.0)}
    for name, ref in forms.items():
        with ctx.case(format=fmt, reference=name):
            path = path_of(ctx, fmt)
            spec = Spec(stands=(7, 42), autos=False, ref_time=ref, inttime=0.5)
            site, ants = write(fmt, path, spec)
            r, order = compare(ctx, fmt, spec, path, ants)
            off = (r.utc_date_obs - dt).total_seconds()
            ctx.check(abs(off) < 1.0, 'reference date of a file', off_by=off)
            ctx.equal(r.date_obs, r.utc_date_obs.replace(tzinfo=None), 'naive reference date')
            r.close()
            ctx.state((fmt, name))
    for bad in ('2017-07-14', 'yesterday', None, [2017]):
        with ctx.case(format=fmt, bad_reference=str(bad)):
            ctx.raises(RuntimeError, lambda: WRITERS[fmt](path_of(ctx, fmt), ref_time=bad), 'a reference time that is not a time')
    # Times of the data sets
    t = tai(UNIX0)
    for name, when in (('mjd', t), ('astropy', AstroTime(t, format='mjd', scale='tai')), ('utc', AstroTime(UNIX0, format='unix', scale='utc')), ('frame', FrameTimestamp(UNIX0, 0.0))):
        with ctx.case(format=fmt, time_given_as=name):
            path = path_of(ctx, fmt)
            spec = Spec(stands=(7, 42), autos=False)
            site, ants = array(spec.stands)
            w = WRITERS[fmt](path, ref_time=UNIX0)
            w.set_stokes(['XX'])
            w.set_frequency(bands(1, 2)[0])
            w.set_geometry(site, ants)
            w.add_data_set(when, 5.0, [(ants[0], ants[1])], np.array([spec.vis(0, 0, (0, 1))]), pol='XX')
            w.write()
            w.close()
            r, order = compare(ctx, fmt, spec, path, ants)
            r.close()
    # Existing files
    with ctx.case(format=fmt, overwrite=True):
        path = path_of(ctx, fmt)
        spec = Spec(stands=(7, 42), autos=False)
        write(fmt, path, spec)
        ctx.raises(IOError, lambda: WRITERS[fmt](path, ref_time=UNIX0), 'a file that is already there')
        r = utils.CorrelatedData(path)
        compare_set(ctx, fmt, spec, r.get_data_set(1, include_auto=True), 0, None)
        r.close()
    # Nothing set
    for left in ('stokes', 'frequency', 'geometry', 'data'):
        with ctx.case(format=fmt, not_set=left):
            path = path_of(ctx, fmt)
            site, ants = array((7, 42))
            w = WRITERS[fmt](path, ref_time=UNIX0)
            if left != 'stokes':
                w.set_stokes(['XX'])
            if left != 'frequency':
                w.set_frequency(bands(1, 2)[0])
            if left != 'geometry':
                w.set_geometry(site, ants)
            if left != 'data':
                w.add_data_set(tai(UNIX0), 5.0, [(ants[0], ants[1])], np.ones((1, 2), dtype=np.complex64), pol='XX')
            ctx.raises(RuntimeError, w.write, 'an incomplete file')


def virtual(ctx):
    """Data sets that are never written to a file."""
    for seq in itertools.product('zAB', repeat=2):
        for sel in ((7, 42), (258, 42, 1)):
            with ctx.case(virtual=True, sources=seq, stands=sel):
                spec = Spec(stands=sel, sources=seq, times=(0, 10), autos=True)
                site, ants = array(sel)
                w = VirtualWriter(ref_time='2017-07-14T02:40:00.25') if seq[0] == 'A' else VirtualWriter(ref_time=UNIX0)
                w.set_stokes(['XX'])
                w.set_frequency(bands(1, 2)[0])
                w.set_geometry(site, ants)
                for k in range(2):
                    src = seq[k]
                    if src != 'z':
                        src = body(src)
                        src.compute(observer(spec.jd(k)))
                    w.add_data_set(tai(UNIX0+10*k), 5.0, [(ants[i], ants[j]) for i, j in spec.pairs], np.array([spec.vis(k, 0, b) for b in spec.pairs]), pol='XX', source=src)
                for auto in (True, False):
                    for k in range(2):
                        compare_set(ctx, 'virtual', spec, w.get_data_set(k+1, include_auto=auto), k, ants, include_auto=auto)
                ctx.state((seq, sel))


def units(tier):
    u = {'virtual': virtual}
    for name, fn in (('stands', stands), ('orders', orders), ('given', given), ('naming', naming), ('sources', sources), ('pols', pols), ('frequencies', frequencies),
                     ('missing', missing), ('weights', weights), ('asking', asking), ('references', references)):
        for f, g in formats(fn).items():
            if tier == 'quick' and f == 'aips' and name in ('given', 'naming', 'missing', 'orders', 'asking', 'references'):
                continue        # The same code as for 'idi'
            u[f'{name}-{f}'] = g
    return u
