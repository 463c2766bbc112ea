"""
I01 - visibilities stay with their baseline, polarization, weight and time.

All short histories of the operations of the visibility containers are executed on
the real classes and on a dictionary from baseline to value; conversions between
polarization bases are compared with their definitions for all sets of products;
all short sequences of phase centers are compared with the delays between them.
"""
import copy
import math
import itertools
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import ephem
import numpy as np

from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.sim.vis import build_sim_array, RadioFixedBody
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData
from lsl.imaging import utils

BOUNDS = ('all histories of up to 4 (thorough 5) of 9 operations on a polarization and of up to 3 (thorough 4) of 13 on a data set of 6 baselines; all orders of adding up to 4 integrations; '
          'all sets of linear, circular and Stokes products with all masks of two baselines; all sequences of up to 3 phase centers out of 4')
ASSUMPTIONS = 'visibilities are two-dimensional (baseline, channel); phase centers above the horizon, except where an error is expected; phases are compared to 0.01 rad'
HANG_S = 400

JD = 2457948.611111111
LAT, LON = 34.07, -107.63
C = 299792458.0
XYZ = [(0.0, 0.0, 0.0), (11.5, -3.25, 0.5), (-20.25, 14.0, -1.0), (60.0, 5.0, -3.0)]
STANDS = [7, 42, 3, 258]
FREQ = np.array([40e6, 40.025e6])
PAIRS = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
SKY = {'A': ('13:50:00', '20:00:00'), 'B': ('15:10:30.5', '61:30:00'), 'C': ('12:00:00', '-10:00:00'), 'below': ('01:00:00', '-60:00:00')}


def station():
    site = LWAStation('verif', LAT, LON, 2133.6)
    ants = [Antenna(2*s-1, stand=Stand(s, *xyz), pol=0) for s, xyz in zip(STANDS, XYZ)]
    site.antennas = ants
    return site, ants


_AA = []


def antenna_array():
    if not _AA:
        site, ants = station()
        _AA.append(build_sim_array(site, ants, FREQ/1e9, jd=JD))
    return copy.copy(_AA[0])


def row(tag, bl):
    return np.array([complex(tag, bl[0]*10+bl[1]+0.5*c) for c in range(2)], dtype=np.complex64)


def wrow(tag, bl):
    return np.array([tag + bl[0] + bl[1]/8 + c/16 for c in range(2)], dtype=np.float32)


def mrow(tag, bl):
    return np.array([(bl[0]+bl[1]+c+tag) % 3 == 0 for c in range(2)])


def pol_set(name, tag, pairs):
    return PolarizationDataSet(name, data=np.array([row(tag, b) for b in pairs]), weight=np.array([wrow(tag, b) for b in pairs]), mask=np.array([mrow(tag, b) for b in pairs]))


# A polarization on its own

POL_OPS = ('row', 'rowwm', 'block', 'blockw', 'extend', 'extendwm', 'reverse', 'rotate', 'odd')


def polarization(depth, part, parts):
    def run(ctx):
        for i, ops in enumerate(itertools.product(POL_OPS, repeat=depth)):
            if i % parts != part:
                continue
            with ctx.case(operations=ops):
                p = PolarizationDataSet('xx')
                model = []      # data, weight, mask
                tag = 0
                for op in ops:
                    tag += 1
                    new = [(row(tag, b), np.ones(2, dtype=np.float32), np.zeros(2, dtype=bool)) for b in ((0, 1), (2, 2))]
                    wm = [(row(tag, b), wrow(tag, b), mrow(tag, b)) for b in ((0, 1), (2, 2))]
                    d2, w2, m2 = (np.array([x[j] for x in wm]) for j in range(3))
                    before = len(model)
                    if op == 'row':
                        p.append(new[0][0])
                        model.append(new[0])
                    elif op == 'rowwm':
                        p.append(d2[0], weight=w2[0], mask=m2[0])
                        model.append(wm[0])
                    elif op == 'block':
                        p.append(d2)
                        model += new
                    elif op == 'blockw':
                        p.append(d2, weight=w2)
                        model += [(d, w, n[2]) for (d, w, m), n in zip(wm, new)]
                    elif op == 'extend':
                        p.extend(d2)
                        model += new
                    elif op == 'extendwm':
                        p.extend(d2, weight=w2, mask=m2)
                        model += wm
                    elif op == 'reverse':
                        if not model:
                            continue
                        p.sort(list(range(len(model)))[::-1])
                        model = model[::-1]
                    elif op == 'rotate':
                        if not model:
                            continue
                        q = p.copy()
                        p.sort([(j+1) % len(model) for j in range(len(model))])
                        compare_pol(ctx, q, model, 'a copy follows the original')
                        model = model[1:] + model[:1]
                    elif op == 'odd':
                        if not model:
                            continue
                        sel = list(range(0, len(model), 2))
                        q = p
                        p = p.subset(sel)
                        compare_pol(ctx, q, model, 'taking a subset changes the original')
                        model = [model[j] for j in sel]
                        ctx.equal(p.polarization, 'XX', 'polarization of a subset')
                    compare_pol(ctx, p, model, 'contents after ' + op)
                    ctx.step()
                if model:
                    ctx.raises(ValueError, lambda: p.sort(list(range(len(model)+1))), 'an order of the wrong length')
                    ctx.raises(ValueError, lambda: p.append(d2, weight=w2[:1]), 'weights of the wrong shape')
                    ctx.raises(ValueError, lambda: p.copy().append(d2, mask=m2[:, :1]), 'a mask of the wrong shape')
                ctx.state(ops)
    return run


def compare_pol(ctx, p, model, key):
    ctx.equal(p.nbaseline, len(model), key, 'number of baselines')
    if model:
        for j, name in enumerate(('data', 'weight', 'mask')):
            want = np.array([x[j] for x in model])
            got = getattr(p, name)
            ctx.check(got.shape == want.shape and np.array_equal(got, want), key, which=name, got=got.tolist(), want=want.tolist())


# A data set

SET_OPS = ('sort', 'reverse', 'rotate', 'addYY', 'replaceXX', 'copy', 'copybare', 'short', 'long', 'incl01', 'excl1', 'stands', 'both')


class Model:
    def __init__(self):
        self.pairs = [PAIRS[i] for i in (4, 0, 3, 1, 5, 2)]
        self.pols = {'XX': 1}
        

def make(aa=True):
    m = Model()
    uvw = np.array([[[100*b[0] + 10*b[1] + 1000*k + c for c in range(2)] for k in range(3)] for b in m.pairs], dtype=np.float32)
    ds = VisibilityDataSet(JD, FREQ.copy(), list(m.pairs), uvw, antennaarray=antenna_array() if aa else None, int_time=5.0)
    ds.append(pol_set('XX', 1, m.pairs))
    return ds, m


def uv_of(b):
    return math.hypot(100*b[0] + 10*b[1] + 1, 100*b[0] + 10*b[1] + 1001)


def compare_ds(ctx, ds, m, key):
    ctx.equal([tuple(b) for b in ds.baselines], m.pairs, key, 'baselines')
    ctx.equal(ds.nbaseline, len(m.pairs), key, 'number of baselines')
    ctx.equal((ds.nchan, ds.npol, ds.jd, ds.int_time), (2, len(m.pols), JD, 5.0), key, 'description')
    ctx.equal(sorted(ds.pols), sorted(m.pols), key, 'polarizations')
    ctx.equal([p.polarization for p in ds], list(ds.pols), key, 'iteration')
    for i, b in enumerate(m.pairs):
        want = [[100*b[0] + 10*b[1] + 1000*k + c for c in range(2)] for k in range(3)]
        ctx.equal(ds.uvw[i].tolist(), want, key, '(u,v,w)')
    for name, tag in m.pols.items():
        ctx.check(name in ds, key, 'membership')
        compare_pol(ctx, getattr(ds, name), [(row(tag, b), wrow(tag, b), mrow(tag, b)) for b in m.pairs], key)
    ctx.check('QQ' not in ds, key, 'membership')


def keep(m, test):
    m2 = Model()
    m2.pairs = [b for b in m.pairs if test(b)]
    m2.pols = dict(m.pols)
    return m2


def data_set(depth, part, parts):
    def run(ctx):
        for i, ops in enumerate(itertools.product(SET_OPS, repeat=depth)):
            if i % parts != part:
                continue
            with ctx.case(operations=ops):
                ds, m = make()
                tag = 1
                for op in ops:
                    tag += 1
                    old, om = ds, copy.deepcopy(m)
                    derived = True
                    if op == 'sort':
                        ds.sort()
                        m.pairs = sorted(m.pairs)
                        derived = False
                    elif op == 'reverse':
                        ds.sort(order=list(range(len(m.pairs)))[::-1])
                        m.pairs = m.pairs[::-1]
                        derived = False
                    elif op == 'rotate':
                        n = len(m.pairs)
                        ds.sort(order=[(j+1) % n for j in range(n)])
                        m.pairs = m.pairs[1:] + m.pairs[:1]
                        derived = False
                    elif op in ('addYY', 'replaceXX'):
                        name = op[-2:]
                        if m.pairs:
                            ds.append(pol_set(name, tag, m.pairs))
                            m.pols[name] = tag
                            ctx.raises(RuntimeError, lambda: ds.append(pol_set(name, tag, m.pairs + [(3, 3)])), 'a polarization with another number of baselines')
                        derived = False
                    elif op == 'copy':
                        ds = ds.copy()
                    elif op == 'copybare':
                        ds = ds.copy(include_pols=False)
                        m.pols = {}
                    elif op in ('short', 'long'):
                        lo, hi = (0.0, 1060.0) if op == 'short' else (1050.0, np.inf)
                        if op == 'long':
                            ds = ds.get_uv_range(min_uv=lo)
                        else:
                            ds = ds.get_uv_range(min_uv=hi, max_uv=lo)      # Either way round
                        m = keep(m, lambda b: lo <= uv_of(b) < hi)
                    elif op == 'incl01':
                        ds = ds.get_antenna_subset(include=[0, 1])
                        m = keep(m, lambda b: b[0] in (0, 1) and b[1] in (0, 1))
                    elif op == 'excl1':
                        ds = ds.get_antenna_subset(exclude=[1])
                        m = keep(m, lambda b: 1 not in b)
                    elif op == 'stands':
                        want = [42, 3, 999]
                        ds = ds.get_antenna_subset(include=want, indicies=False)
                        ctx.equal(want, [42, 3, 999], 'the list of antennas is changed')
                        m = keep(m, lambda b: b[0] in (1, 2) and b[1] in (1, 2))
                    elif op == 'both':
                        # What is included has priority
                        ds = ds.get_antenna_subset(include=(0, 2), exclude=(2, 1))
                        m = keep(m, lambda b: b[0] in (0, 2) and b[1] in (0, 2))
                    compare_ds(ctx, ds, m, 'contents after ' + op)
                    if derived:
                        compare_ds(ctx, old, om, op + ' changes the original')
                        # Changes of the result do not reach the original
                        if len(ds.baselines):
                            ds.uvw[0] += 1
                            for p in ds:
                                p.data[0] += 1
                                p.weight[0] += 1
                                p.mask[0] = ~p.mask[0]
                            compare_ds(ctx, old, om, 'a result of ' + op + ' shares data with the original')
                            ds.uvw[0] -= 1
                            for p in ds:
                                p.data[0] -= 1
                                p.weight[0] -= 1
                                p.mask[0] = ~p.mask[0]
                    ctx.step()
                ctx.state(ops)
    return run


def selections(ctx):
    """Every include and exclude list."""
    subsets = [None] + [list(s) for n in range(4) for s in itertools.combinations(range(3), n)]
    for aa in (True, False):
        for inc, exc in itertools.product(subsets, repeat=2):
            for by_index in ((True, False) if aa else (True,)):
                for multi in (False, True):
                    with ctx.case(include=inc, exclude=exc, indices=by_index, array=aa, several=multi):
                        ds, m = make(aa)
                        num = (lambda x: x) if by_index else (lambda x: None if x is None else [STANDS[i] for i in x])
                        if inc is not None:
                            test = lambda b: b[0] in inc and b[1] in inc
                        elif exc is not None:
                            test = lambda b: b[0] not in exc and b[1] not in exc
                        else:
                            test = lambda b: True
                        if multi:
                            v = VisibilityData([ds])
                            got = v.get_antenna_subset(include=num(inc), exclude=num(exc), indicies=by_index)[0]
                        else:
                            got = ds.get_antenna_subset(include=num(inc), exclude=num(exc), indicies=by_index)
                        compare_ds(ctx, got, keep(m, test), 'antenna selection')
                        ctx.state((aa, str(inc), str(exc), by_index, multi))
    with ctx.case(words=True):
        ds, m = make()
        compare_ds(ctx, ds.get_antenna_subset(include='all', exclude='none'), m, 'antenna selection')
        ds, m = make(False)
        ctx.raises(AttributeError, lambda: ds.get_antenna_subset(include=[7], indicies=False), 'stand numbers without an antenna array')
    for lo, hi in itertools.product([0.0] + [uv_of(b) + d for b in PAIRS for d in (-0.5, 0.5)] + [np.inf], repeat=2):
        with ctx.case(uv_range=(lo, hi)):
            ds, m = make()
            a, b = min(lo, hi), max(lo, hi)
            compare_ds(ctx, ds.get_uv_range(lo, hi), keep(m, lambda x: a <= uv_of(x) < b), '(u,v) range')


def integrations(ctx):
    """Several integrations: all orders of adding, removing and sorting."""
    def one(k):
        pairs = [PAIRS[i] for i in (4, 0, 3, 1, 5, 2)]
        pairs = pairs[k:] + pairs[:k]
        uvw = np.array([[[100*b[0] + 10*b[1] + 1000*j + c for c in range(2)] for j in range(3)] for b in pairs], dtype=np.float32)
        ds = VisibilityDataSet(JD+k, FREQ.copy(), pairs, uvw)
        ds.append(pol_set('XX', k+1, pairs))
        return ds, pairs
    for n in range(1, 5):
        for perm in itertools.permutations(range(4), n):
            for how in ('append', 'extend', 'init'):
                with ctx.case(order=perm, how=how):
                    items = [one(k) for k in perm]
                    if how == 'init':
                        v = VisibilityData([x[0] for x in items])
                    else:
                        v = VisibilityData()
                        if how == 'append':
                            for x in items:
                                v.append(x[0])
                        else:
                            v.extend([x[0] for x in items])
                    ctx.equal(v.jds, [JD+k for k in perm], 'times')
                    ctx.check(all(abs(a-(JD+k-2400000.5)) < 1e-6 for a, k in zip(v.mjds, perm)), 'times as MJDs')
                    ctx.equal((len(v), v.nbaseline, v.nchan, v.npol), (n, 6, 2, 1), 'sizes')
                    ctx.raises(ValueError, lambda: v.append(one(perm[-1])[0]), 'an integration that is already there')
                    ctx.raises(TypeError, lambda: v.append('no'), 'something else')
                    c = v.copy()
                    v.sort()
                    ctx.equal(c.jds, [JD+k for k in perm], 'a copy is sorted with the original')
                    for k, ds in zip(sorted(perm), v):
                        m = Model()
                        m.pairs, m.pols = sorted(PAIRS), {'XX': k+1}
                        ctx.equal((ds.jd, [tuple(b) for b in ds.baselines]), (JD+k, sorted(PAIRS)), 'integrations after sorting')
                        compare_pol(ctx, ds.XX, [(row(k+1, b), wrow(k+1, b), mrow(k+1, b)) for b in sorted(PAIRS)], 'visibilities after sorting')
                    for k, (ds, (o, pairs)) in zip(perm, zip(c, items)):
                        compare_pol(ctx, ds.XX, [(row(k+1, b), wrow(k+1, b), mrow(k+1, b)) for b in pairs], 'visibilities of a copy after sorting')
                    sub = c.get_uv_range(1050.0, np.inf)
                    ctx.equal(sub.jds, c.jds, 'times of a (u,v) range')
                    for k, ds, (o, pairs) in zip(perm, sub, items):
                        left = [b for b in pairs if uv_of(b) >= 1050]
                        ctx.equal([tuple(b) for b in ds.baselines], left, 'baselines of a (u,v) range')
                        compare_pol(ctx, ds.XX, [(row(k+1, b), wrow(k+1, b), mrow(k+1, b)) for b in left], 'visibilities of a (u,v) range')
                    last = c.pop()
                    ctx.equal((last.jd, len(c)), (JD+perm[-1], n-1), 'taking the last integration')
                    ctx.state((perm, how))


# Polarization bases

LIN, CIRC, STOKES = ('XX', 'YY', 'XY', 'YX'), ('RR', 'LL', 'RL', 'LR'), ('I', 'Q', 'U', 'V')
V4 = {n: np.array([[complex(3*i+1, -i), complex(0.5*i, 2-i)], [complex(-7, i*i), complex(i, 11)]], dtype=np.complex128) for i, n in enumerate(LIN+CIRC+STOKES)}
W4 = {n: np.array([[1.0+i, 0.25*i], [i*i, 2.0]]) for i, n in enumerate(LIN+CIRC+STOKES)}
DEFS = {
    'stokes': (LIN, STOKES, {'I': ('XX', 'YY', lambda a, b: a+b), 'Q': ('XX', 'YY', lambda a, b: a-b), 'U': ('XY', 'YX', lambda a, b: a+b), 'V': ('XY', 'YX', lambda a, b: 1j*(a-b))}),
    'linear': (STOKES, LIN, {'XX': ('I', 'Q', lambda a, b: (a+b)/2), 'YY': ('I', 'Q', lambda a, b: (a-b)/2), 'XY': ('U', 'V', lambda a, b: (a-1j*b)/2), 'YX': ('U', 'V', lambda a, b: (a+1j*b)/2)}),
    'circular': (STOKES, CIRC, {'RR': ('I', 'V', lambda a, b: a+b), 'LL': ('I', 'V', lambda a, b: a-b), 'RL': ('Q', 'U', lambda a, b: a+1j*b), 'LR': ('Q', 'U', lambda a, b: a-1j*b)}),
}


def conversions(ctx):
    fns = {'stokes': utils.convert_to_stokes, 'linear': utils.convert_to_linear, 'circular': utils.convert_to_circular}
    masks = list(itertools.product((False, True), repeat=2))
    for kind, (src, dst, defs) in DEFS.items():
        fn = fns[kind]
        for n in range(0, 5):
            for have in itertools.permutations(src, n):
                for extra in (None,) + dst[:2]:
                    with ctx.case(to=kind, have=have, extra=extra):
                        for mi, several in ((0, False), (1, False), (2, True)):
                            def build(jd):
                                ds = VisibilityDataSet(jd, FREQ.copy(), [(0, 1), (0, 2)], np.arange(12.0).reshape(2, 3, 2), int_time=3.0)
                                for i, p in enumerate(have + ((extra,) if extra else ())):
                                    m = np.array([masks[(i+mi) % 4], masks[(i*mi+1) % 4]])
                                    ds.append(PolarizationDataSet(p, data=V4[p].copy(), weight=W4[p].copy(), mask=m))
                                return ds
                            ds = build(JD)
                            arg = VisibilityData([ds, build(JD+1)]) if several else ds
                            before = [[(getattr(o, p).data.copy(), getattr(o, p).weight.copy(), getattr(o, p).mask.copy()) for p in have] for o in (arg if several else [ds])]
                            want = {p: d for p, d in defs.items() if d[0] in have and d[1] in have}
                            if extra is not None or not want:
                                ctx.raises(RuntimeError, lambda: fn(arg), 'a conversion that makes no sense')
                                continue
                            out = fn(arg)
                            for got, orig, bef in zip(out if several else [out], arg if several else [ds], before):
                                bef = dict(zip(have, bef))
                                ctx.equal(sorted(got.pols), sorted(want), 'products of a conversion')
                                ctx.equal((got.jd, got.baselines, got.int_time), (orig.jd, orig.baselines, 3.0), 'description after a conversion')
                                for p, (a, b, f) in want.items():
                                    g = getattr(got, p)
                                    ctx.check(np.allclose(g.data, f(V4[a], V4[b]), rtol=1e-6, atol=1e-6), 'definition of '+p, got=g.data.tolist())
                                    ctx.check(np.allclose(g.weight, (W4[a]+W4[b])/2), 'weight of '+p)
                                    ctx.check(np.array_equal(g.mask, bef[a][2] | bef[b][2]), 'mask of '+p)
                                for p in have:
                                    o = getattr(orig, p)
                                    ctx.check(all(np.array_equal(x, y) for x, y in zip((o.data, o.weight, o.mask), bef[p])), 'a conversion changes its input')
                                # Nor do changes of the result reach it
                                for p in want:
                                    g = getattr(got, p)
                                    g.data[...], g.weight[...], g.mask[...] = 99, 99, True
                                for p in have:
                                    o = getattr(orig, p)
                                    ctx.check(all(np.array_equal(x, y) for x, y in zip((o.data, o.weight, o.mask), bef[p])), 'the result of a conversion shares its input')
                            ctx.step()
                        ctx.state((kind, have, extra))
    with ctx.case(there_and_back=True):
        ds = VisibilityDataSet(JD, FREQ.copy(), [(0, 1), (0, 2)], np.arange(12.0).reshape(2, 3, 2))
        for p in LIN:
            ds.append(PolarizationDataSet(p, data=V4[p].copy()))
        back = utils.convert_to_linear(utils.convert_to_stokes(ds))
        for p in LIN:
            ctx.check(np.allclose(getattr(back, p).data, V4[p]), 'linear to Stokes and back')


# Phase centers

def body(name):
    if name == 'z':
        return 'z'
    ra, dec = SKY[name]
    return RadioFixedBody(float(ephem.hours(ra)), float(ephem.degrees(dec)), name=name, epoch=ephem.J2000)


def true_uvw(name, d):
    o = ephem.Observer()
    o.lat, o.lon, o.elevation, o.pressure, o.date = math.radians(LAT), math.radians(LON), 2133.6, 0, JD - 2415020.0
    lat = math.radians(LAT)
    if name == 'z':
        ha, dec = 0.0, lat
    else:
        s = ephem.FixedBody()
        s._ra, s._dec = SKY[name]
        s._epoch = ephem.J2000
        s.compute(o)
        ha, dec = float(o.sidereal_time()) - float(s.ra), float(s.dec)
    x = -math.sin(lat)*d[1] + math.cos(lat)*d[2]
    y = d[0]
    z = math.cos(lat)*d[1] + math.sin(lat)*d[2]
    return np.array([math.sin(ha)*x + math.cos(ha)*y,
                     -math.sin(dec)*math.cos(ha)*x + math.sin(dec)*math.sin(ha)*y + math.cos(dec)*z,
                     math.cos(dec)*math.cos(ha)*x - math.cos(dec)*math.sin(ha)*y + math.sin(dec)*z])


def rephasing(ctx):
    pairs = [(0, 1), (1, 2), (0, 0), (2, 0), (1, 3)]
    for start in 'zABC':
        for n in (1, 2, 3):
            for seq in itertools.product('zABC', repeat=n):
                with ctx.case(start=start, centers=seq):
                    uvw = np.array([true_uvw(start, np.array(XYZ[i])-np.array(XYZ[j]))[:, None]*FREQ/C for i, j in pairs])
                    ds = VisibilityDataSet(JD, FREQ.copy(), list(pairs), uvw.copy(), antennaarray=antenna_array(), phase_center=body(start))
                    for p in ('XX', 'YY'):
                        ds.append(PolarizationDataSet(p, data=np.array([row(3 if p == 'XX' else 5, b) for b in pairs])))
                    orig = {p.polarization: p.data.copy() for p in ds}
                    for name in seq:
                        ds.rephase(body(name))
                        ctx.step()
                    end = seq[-1]
                    for k, (i, j) in enumerate(pairs):
                        d = np.array(XYZ[i])-np.array(XYZ[j])
                        want = true_uvw(end, d)[:, None]*FREQ/C
                        tol = 5e-4*np.linalg.norm(d)*FREQ[-1]/C + 1e-6
                        ctx.check(np.abs(ds.uvw[k]-want).max() <= tol, '(u,v,w) for the new phase center', baseline=(i, j), got=ds.uvw[k].tolist(), want=want.tolist())
                        # The change in phase is the change in w
                        turn = np.exp(2j*np.pi*(true_uvw(start, d)[2] - true_uvw(end, d)[2])*FREQ/C)
                        for p, o in orig.items():
                            got = getattr(ds, p).data[k]
                            ctx.check(np.abs(got - o[k]*turn).max() <= (2*np.pi*2*tol + 1e-5)*np.abs(o[k]).max(), 'phases for the new phase center', pol=p, baseline=(i, j),
                                      got=got.tolist(), want=(o[k]*turn).tolist())
                    ctx.state((start, seq))
        with ctx.case(start=start, below_the_horizon=True):
            ds = VisibilityDataSet(JD, FREQ.copy(), list(pairs), uvw.copy(), antennaarray=antenna_array(), phase_center=body(start))
            ds.append(PolarizationDataSet('XX', data=np.array([row(3, b) for b in pairs])))
            ctx.raises(RuntimeError, lambda: ds.rephase(body('below')), 'a phase center below the horizon')
            ctx.check(np.array_equal(ds.XX.data, np.array([row(3, b) for b in pairs])) and np.array_equal(ds.uvw, uvw), 'data after a failed change of phase center')
            ctx.equal(getattr(ds.phase_center, 'src_name', ds.phase_center), start, 'phase center after a failure')
    with ctx.case(without=True):
        ds, m = make(False)
        ctx.raises(AttributeError, lambda: ds.rephase('z'), 'no phase center')
        ds.phase_center = 'z'
        ctx.raises(AttributeError, lambda: ds.rephase('z'), 'no antenna array')


def units(tier):
    u = {'selections': selections, 'integrations': integrations, 'conversions': conversions, 'rephasing': rephasing}
    d1, d2 = (4, 3) if tier == 'quick' else (5, 4)
    for i in range(4):
        u[f'polarization-{i}'] = polarization(d1, i, 4)
        u[f'data-set-{i}'] = data_set(d2, i, 4)
    return u
