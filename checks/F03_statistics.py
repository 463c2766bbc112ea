"""
F03 - statistics, dedispersion and mathematical helpers follow their definitions.

All small data sets (all multisets of small integers, all positions of an outlier, all
masks, axes, shapes and lengths within the bounds) are given to the real functions and
the results are compared with the definitions written out independently.
"""
import cmath
import itertools
import math
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import numpy as np

from lsl.statistics import robust, kurtosis, stattests
from lsl.misc import dedispersion, mathutils, rfutils, scattering

BOUNDS = ('all multisets of up to 7 values out of 5 for the mode and of 6-7 values for the other estimators, with every position of an outlier and every mask of one or two points; lines and polynomials of order 0-5 on '
          'all choices of coefficients out of 3; all shapes and axes up to 4x5x3; dedispersion of every length from 1 to 4 blocks and of every shape up to 7x4')
ASSUMPTIONS = ('a half-sample that ties with another may be either of them; robust means are of at least 6 points of which at most one is an outlier; positive dispersion measures; '
               'sphfit and sphval are left out (with new versions of SciPy they take azimuth for the polar angle, and a test depends on it)')
HANG_S = 200

D = 4.148808e3


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


# Robust estimators

def hsm(data):
    """All half-sample modes of sorted data, whichever way ties are broken."""
    n = len(data)
    if n == 1:
        return {float(data[0])}
    if n == 2:
        return {(data[0]+data[1])/2}
    if n == 3:
        a, b = data[1]-data[0], data[2]-data[1]
        if a < b:
            return {(data[0]+data[1])/2}
        if b < a:
            return {(data[1]+data[2])/2}
        return {float(data[1])}
    h = (n+1)//2
    widths = [data[i+h-1]-data[i] for i in range(n-h+1)]
    out = set()
    for i, w in enumerate(widths):
        if w == min(widths):
            out |= hsm(data[i:i+h])
    return out


def modes(ctx):
    for n in range(1, 8):
        for vals in itertools.combinations_with_replacement((0, 1, 3, 4, 9), n):
            with ctx.case(values=vals):
                want = hsm([float(v) for v in vals])
                orders = {vals, vals[::-1], vals[n//2:] + vals[:n//2]}
                got = {float(robust.mode(np.array(o, dtype=np.float64))) for o in orders}
                ctx.equal(len(got), 1, 'mode depends on the order of the data')
                ctx.check(min(got) in want, 'mode', 'the mode of %s is %s, not one of %s' % (vals, got, sorted(want)))
                shifted = float(robust.mode(np.array(vals, dtype=np.float64)*0.5 - 100.0))
                ctx.check(shifted in {0.5*w - 100.0 for w in want}, 'mode of shifted data', got=shifted)
                ctx.state(vals)
                ctx.outcome(len(want))


def outcome(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except ValueError as e:
        return 'ValueError'


def same(a, b, tol=1e-9):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    return close(a, b, tol)


def estimators(ctx):
    fns = {'mean': robust.mean, 'std': robust.std, 'biweight_mean': robust.biweight_mean, 'mode': robust.mode}
    for n in (6, 7):
        for vals in itertools.combinations_with_replacement((0, 1, 3, 4, 9), n):
            x = np.array(vals, dtype=np.float64)
            for name, fn in fns.items():
                steady = name != 'biweight_mean' or np.median(np.abs(x - np.median(x))) > 0
                with ctx.case(fn=name, values=vals):
                    base = outcome(fn, x)
                    perm = outcome(fn, np.roll(x[::-1], 2))
                    ctx.check(not steady or same(perm, base), name + ' depends on the order', 'of %s: %s and %s' % (vals, base, perm))
                    if name == 'std':
                        want = base if isinstance(base, str) else 2.5*base
                    else:
                        want = base if isinstance(base, str) else 2.5*base - 40.0
                    got = outcome(fn, 2.5*x - 40.0)
                    if name != 'mode' and steady:
                        ctx.check(same(got, want, 1e-6), name + ' of shifted and scaled data', '%s: %s, not %s' % (vals, got, want))
                    if not isinstance(base, str):
                        if name == 'std':
                            ctx.check(base >= 0 and (base > 0 or min(vals) == max(vals) or np.median(np.abs(x-np.median(x))) <= 3), 'std is positive', got=base)
                            if min(vals) == max(vals):
                                ctx.equal(float(base), 0.0, 'std of equal values')
                        else:
                            ctx.check(min(vals) - 1e-9 <= base <= max(vals) + 1e-9, name + ' lies within the data', '%s: %s' % (vals, base))
                    # An integer array, a list of lists and a masked array are the same data
                    ctx.check(not steady or same(outcome(fn, x, dtype=np.float32), base, 1e-5), name + ' with a data type')
                    ctx.check(same(outcome(fn, x.reshape(1, -1)), base), name + ' of a two-dimensional array')
                    ctx.state((name, vals))


def outliers(ctx):
    for vals in itertools.combinations_with_replacement((0, 1, 3, 4, 6), 8):
        x = np.array(vals, dtype=np.float64)
        if np.median(np.abs(x - np.median(x))) == 0:
            continue
        for where in (0, 4, 8):
            for big in (1e3, -1e6):
                y = np.insert(x, where, big)
                for name, fn in (('mean', robust.mean), ('biweight_mean', robust.biweight_mean), ('std', robust.std)):
                    with ctx.case(fn=name, values=vals, outlier=big, where=where):
                        got = outcome(fn, y)
                        if isinstance(got, str):
                            ctx.outcome('refused')
                        elif name == 'std':
                            ctx.check(got < 30, 'an outlier reaches the standard deviation', '%s of %s' % (got, y.tolist()))
                        else:
                            ctx.check(0 - 1e-9 <= got <= 6 + 1e-9, 'an outlier reaches the ' + name, '%s of %s' % (got, y.tolist()))
                        ctx.state((name, vals, where, big))


def masks_and_axes(ctx):
    fns = {'mean': robust.mean, 'std': robust.std, 'biweight_mean': robust.biweight_mean, 'mode': robust.mode}
    base = np.array([3.0, 4.0, 1.0, 0.0, 9.0, 4.5, 2.0, 5.0])
    for name, fn in fns.items():
        for masked in itertools.chain(itertools.combinations(range(8), 1), itertools.combinations(range(8), 2)):
            with ctx.case(fn=name, masked=masked):
                m = np.zeros(8, dtype=bool)
                m[list(masked)] = True
                y = base.copy()
                y[list(masked)] = 1e9
                got = outcome(fn, np.ma.array(y, mask=m))
                ctx.check(same(got, outcome(fn, base[~m])), 'masked points take part in the ' + name, got=got)
                ctx.state((name, masked))
        for shape in ((4, 7), (7, 4), (2, 7, 3)):
            arr = (np.arange(np.prod(shape))*7919 % 23 + np.arange(np.prod(shape))*0.01).reshape(shape)
            for axis in range(-len(shape), len(shape)):
                with ctx.case(fn=name, shape=shape, axis=axis):
                    got = outcome(fn, arr, axis=axis)
                    if shape[axis] < 7 and name != 'mode':
                        continue
                    want = np.array([fn(v) for v in np.moveaxis(arr, axis, -1).reshape(-1, shape[axis])]).reshape(np.moveaxis(arr, axis, -1).shape[:-1])
                    ctx.check(same(got, want), name + ' along an axis')
                    ctx.state((name, shape, axis))


def fits(ctx):
    coefs = (-2.0, 0.0, 3.0)
    xs = {'even': np.arange(12.0), 'shifted': np.arange(12.0)*0.5 + 20.0, 'uneven': np.array([0.0, 0.1, 1.0, 1.5, 4.0, 9.0, 10.0, 2.2, 7.0, 6.5])}
    for kind, x in xs.items():
        for a, b in itertools.product(coefs, repeat=2):
            for where in (None,) + tuple(range(len(x))):
                for masked in (False, True):
                    with ctx.case(fit='line', x=kind, slope=a, intercept=b, outlier=where, masked=masked):
                        y = a*x + b + 0.01*np.cos(np.arange(len(x))*2.5)
                        if masked:
                            if where is None:
                                continue
                            y = np.ma.array(y, mask=np.arange(len(x)) == where)
                            y.data[where] = 5e3
                        elif where is not None:
                            y[where] += 500.0
                        got = robust.linefit(x, y)
                        ctx.check(abs(got[0]-a) < 0.05 and abs(np.polyval(got, x.mean()) - a*x.mean() - b) < 0.05, 'linear fit', 'got %s' % (got,))
                        ctx.state(('line', kind, a, b, where, masked))
        for n in range(4, 9):
            with ctx.case(fit='exact line', x=kind, n=n):
                got = robust.linefit(x[:n], 2.0*x[:n] - 5.0)
                ctx.check(close(got, [2.0, -5.0], 1e-6), 'exact linear fit', 'got %s' % (got,))
                ctx.state(('exact', kind, n))
    for kind, x in xs.items():
        if kind == 'shifted':
            x = x - 15.0
        for order in range(0, 6):
            for lead in itertools.product((-2.0, 0.0, 3.0), repeat=min(order+1, 4)):
                c = np.array((list(lead) + [0.5, -1.0, 0.25])[:order+1])
                with ctx.case(fit='polynomial', x=kind, order=order, coefficients=lead):
                    y = np.polyval(c, x)
                    got = robust.polyfit(x, y, order)
                    ctx.check(np.size(got) == order+1, 'number of coefficients', got=np.size(got))
                    ctx.check(np.allclose(np.polyval(got, x), y, rtol=1e-6, atol=1e-5*max(1, np.abs(y).max())), 'exact polynomial fit', 'got %s, not %s' % (got, c))
                    ctx.state(('poly', kind, order, lead))
    for order in (0, 1, 2):
        with ctx.case(fit='large', order=order):
            x = np.arange(10050.0)/1000 - 3
            y = np.polyval([3.0, -1.0, 2.0][-order-1:], x) + 0.001*np.cos(np.arange(10050)*2.5)
            y[::50] += 100
            got = robust.polyfit(x, y, order)
            ctx.check(np.allclose(np.polyval(got, x), np.polyval([3.0, -1.0, 2.0][-order-1:], x), atol=0.02), 'polynomial fit of many points', 'got %s' % (got,))
            ctx.state(('large', order))


# Kurtosis and runs

def spectral(ctx):
    for shape in ((6,), (3, 5), (5, 3), (2, 3), (4, 5, 3)):
        x = (np.arange(np.prod(shape))*7919 % 31 + 1.0).reshape(shape)
        z = x*np.exp(1j*x)
        for axis in (None,) + tuple(range(-len(shape), len(shape))):
            for n in (1, 2, 10):
                with ctx.case(shape=shape, axis=axis, n=n):
                    m = x.size if axis is None else shape[axis]
                    want = (m*n+1)/(m-1)*(m*(x**2).sum(axis=axis)/x.sum(axis=axis)**2 - 1)
                    ctx.check(close(kurtosis.spectral_power(x, N=n, axis=axis), want), 'spectral kurtosis of power')
                    if n == 1:
                        p = np.abs(z)**2
                        want = (m+1)/(m-1)*(m*(p**2).sum(axis=axis)/p.sum(axis=axis)**2 - 1)
                        ctx.check(close(kurtosis.spectral_fft(z, axis=axis), want), 'spectral kurtosis of voltages')
                    ctx.state((shape, axis, n))
    for m in (4, 8, 100, 6104, 10**5):
        for n in (1, 2, 64):
            with ctx.case(limits=True, m=m, n=n):
                old = np.seterr(over='warn', divide='ignore', invalid='warn', under='ignore')
                try:
                    lims = [kurtosis.get_limits(s, m, N=n) for s in (0.5, 1, 2, 3, 4)]
                    ctx.check(all(a < 1 < b for a, b in lims), 'limits do not enclose one', got=lims)
                    ctx.check(all(p[0] > q[0] and p[1] < q[1] for p, q in zip(lims, lims[1:])), 'limits do not widen', got=lims)
                    try:
                        kurtosis.get_limits(3, 1, N=n)
                    except (ArithmeticError, ValueError):
                        pass
                    ctx.equal(np.geterr(), {'divide': 'ignore', 'over': 'warn', 'under': 'ignore', 'invalid': 'warn'}, 'error handling of numpy is left changed')
                finally:
                    np.seterr(**old)
                ctx.equal(kurtosis.mean(m, n), 1.0, 'mean')
                var = 2.0*n*(n+1)*m**2/((m-1)*(m*n+3)*(m*n+2))
                ctx.check(close(kurtosis.var(m, n), var) and close(kurtosis.std(m, n), math.sqrt(var)), 'variance of the kurtosis')
                ctx.state((m, n))
    for n in range(4, 11):
        for bits in itertools.product((0, 1), repeat=n):
            npos = sum(bits)
            nneg = n - npos
            if npos == 0 or nneg == 0 or npos*nneg*2 == n:
                continue
            with ctx.case(runs=bits):
                runs = 1 + sum(1 for p, q in zip(bits, bits[1:]) if p != q)
                mu = 2.0*npos*nneg/n + 1
                sg = math.sqrt(2.0*npos*nneg*(2.0*npos*nneg - n)/(n*n*(n-1)))
                z = (runs - mu + (0.5 if runs < mu else -0.5))/sg
                want = 2*(1 - 0.5*(1 + math.erf(abs(z)/math.sqrt(2))))
                got = stattests.wald_wolfowitz(np.array([2.5 if b else -1.5 for b in bits]))
                ctx.check(close(got, want, 1e-7), 'runs test', 'got %s, not %s' % (got, want))
                ctx.state(bits)


# Dedispersion

def incoherent(ctx):
    for nt in range(1, 8):
        for nf in range(2, 5):
            freq = np.linspace(30e6, 80e6, nf)
            for perm in itertools.permutations(range(nf)):
                f = freq[list(perm)]
                for dm in (0.0, 0.5, 3.0):
                    for boundary in ('wrap', 'fill'):
                        for fill in (np.nan, -1.0):
                            with ctx.case(times=nt, order=perm, dm=dm, boundary=boundary, fill=fill):
                                d = [dm*D*((1e6/v)**2 - (1e6/max(f))**2) for v in f]
                                ctx.check(close(dedispersion.delay(f, dm), d), 'delays')
                                data = np.arange(1.0, nt*nf+1).reshape(nt, nf)
                                before = data.copy()
                                got = dedispersion.incoherent(f, data, 1.0, dm, boundary=boundary, fill_value=fill)
                                want = np.zeros_like(data)
                                for j in range(nf):
                                    s = int(round(d[j]))
                                    for t in range(nt):
                                        if boundary == 'wrap':
                                            want[t, j] = data[(t+s) % nt, j]
                                        else:
                                            want[t, j] = data[t+s, j] if t+s < nt else fill
                                ctx.check(close(got, want), 'dedispersed spectra', 'got %s, not %s' % (got.tolist(), want.tolist()))
                                ctx.check(np.array_equal(data, before), 'the input is changed')
                                ctx.state((nt, perm, dm, boundary, str(fill)))
    with ctx.case(single=True):
        for f in (30e6, 74e6):
            ctx.check(close(dedispersion.delay(f, 10.0), 10*D*(1e6/f)**2), 'delay from infinite frequency')
            ctx.check(close(dedispersion.delay([f, 2*f], 10.0), [10*D*(1e6/f)**2*0.75, 0]), 'delays of a list')


def coherent(step):
    def run(ctx):
        fc, fs = 60e6, 200e3
        for dm in (0.003, 0.0045):
            band = dm*D*((1e6/(fc-fs/2))**2 - (1e6/(fc+fs/2))**2)
            n = 2*2**math.ceil(math.log(band*fs, 2))
            with ctx.case(dm=dm):
                ctx.equal(dedispersion.get_coherent_sample_size(fc, fs, dm), n, 'number of samples')
            freq = np.fft.fftfreq(n, d=1/fs) + fc
            for dtype in (np.complex64, np.complex128):
                tol = 2e-4 if dtype == np.complex64 else 1e-8
                for taper in (False, True):
                    df = (freq - freq.mean())/1e6
                    chirp = np.exp(-2j*np.pi*D*1e6*dm*df**2/((freq.mean()/1e6)**2*freq/1e6))
                    if taper:
                        chirp = chirp/np.sqrt(1 + (np.abs(df)/(0.47*(df.max()-df.min())))**80)
                    for size in range(n, 4*n+1, step):
                        for prev in (False, True):
                            for nxt in (False, True):
                                for cache in (True, False):
                                    if cache and (size // step) % 3:
                                        continue
                                    with ctx.case(dm=dm, dtype=np.dtype(dtype).name, taper=taper, size=size, previous=prev, next=nxt, caching=cache):
                                        k = np.arange(-n, size+n)
                                        full = (((k*7919 + 3*k*k) % 17 - 8) + 1j*((k*104729 + k*k) % 13 - 6)).astype(dtype)
                                        t = (k + 1000)/fs
                                        kw = {}
                                        if prev:
                                            kw.update(previous_time=t[:n], previous_data=full[:n])
                                        if nxt:
                                            kw.update(next_time=t[-n:], next_data=full[-n:])
                                        outt, out = dedispersion.coherent(t[n:-n].copy(), full[n:-n].copy(), fc, fs, dm, taper=taper, enable_caching=cache, **kw)
                                        ctx.equal((len(outt), len(out), out.dtype), (size, size, np.dtype(dtype)), 'size of the result')
                                        work = full.astype(np.complex128).copy()
                                        if not prev:
                                            work[:n] = 0
                                        if not nxt:
                                            work[-n:] = 0
                                        want = np.zeros(size, dtype=np.complex128)
                                        wt = np.zeros(size)
                                        # Without the data around them the first and last blocks cannot be done
                                        lo = 0 if prev else n//2
                                        hi = size if nxt else size//n*n
                                        for b in range(0, size, n//2):
                                            blk = np.fft.ifft(np.fft.fft(work[n+b-n//4:n+b-n//4+n])*chirp) if n+b-n//4+n <= len(work) else None
                                            e = min(b+n//2, size)
                                            if blk is not None:
                                                want[b:e] = blk[n//4:n//4+e-b]
                                        want[:lo] = 0
                                        want[hi:] = 0
                                        wt[lo:hi] = t[n+lo:n+hi]
                                        ctx.check(close(outt, wt, 1e-12), 'times', 'differ from %s on' % np.where(~np.isclose(outt, wt, rtol=1e-12))[0][:1])
                                        ctx.check(close(out, want, tol*20), 'dedispersed samples', 'largest difference %g' % np.abs(out-want).max())
                                        ctx.state((dm, dtype.__name__, taper, size, prev, nxt, cache))
    return run


# Mathematical helpers

def helpers(ctx):
    for n in range(1, 13):
        for factor in range(1, 6):
            for rescale in (True, False):
                for dtype in (np.float64, np.int32, np.complex64):
                    with ctx.case(fn='downsample', n=n, factor=factor, rescale=rescale, dtype=dtype.__name__):
                        x = ((np.arange(n)*7919) % 23).astype(dtype)
                        got = mathutils.downsample(x, factor, rescale=rescale)
                        want = [sum(x[i*factor:(i+1)*factor])/(factor if rescale else 1) for i in range(n//factor)]
                        ctx.check(close(got, want, 1e-6), 'downsampled data', 'got %s, not %s' % (got, want))
                        ctx.state(('down', n, factor, rescale, dtype.__name__))
    for n in range(3, 25):
        for wlen in range(1, n+1):
            for window in ('flat', 'hanning', 'hamming', 'bartlett', 'blackman'):
                with ctx.case(fn='smooth', n=n, length=wlen, window=window):
                    got = mathutils.smooth(np.full(n, 7.5), window_len=wlen, window=window)
                    ctx.check(got.size <= n+1 and got.size >= n-1, 'length of smoothed data', got=got.size)
                    ctx.check(np.allclose(got, 7.5), 'smoothing changes a constant', got=got.tolist())
                    ctx.state(('smooth', n, wlen, window))
    vals = [complex(a, b) for a in (-2.0, -0.5, 0.0, 1.0, 3.0) for b in (-3.0, 0.0, 0.25, 2.0)]
    for v in vals:
        with ctx.case(fn='polar', value=v):
            r, p = cmath.polar(v)
            ctx.check(close(mathutils.cpolar(v), (r, p)), 'polar form of a number')
            ctx.check(close(mathutils.crect((r, p)), v), 'back from polar form')
            for dtype in (np.complex64, np.complex128):
                arr = np.array(vals[:7] + [v], dtype=dtype)
                pol = mathutils.cpolar(arr)
                ctx.check(close(pol, [cmath.polar(x) for x in arr.tolist()], 1e-5), 'polar form of an array')
                ctx.check(close(mathutils.crect(pol), arr, 1e-5), 'array back from polar form')
                ctx.check(close(mathutils.creal(pol), arr.real, 1e-5) and close(mathutils.cimag(pol), arr.imag, 1e-5), 'parts from polar form')
            ctx.state(('polar', v))
    for db in [x*0.5 for x in range(-80, 81)]:
        with ctx.case(fn='dB', db=db):
            ctx.check(close(mathutils.from_dB(db), 10**(db/10)), 'from decibels')
            ctx.check(close(mathutils.to_dB(10**(db/10)), db), 'to decibels')
            ctx.check(close(rfutils.dBi_to_dBd(rfutils.dBd_to_dBi(db)), db), 'dBd to dBi and back')
            for freq in (10e6, 38e6, 1.4e9):
                g = rfutils.dBi_to_gain(db, freq)
                ctx.check(close(g/((299792458.0/freq)**2/(8*math.pi*1.380649e-23)*10**(db/10)*1e-26), 1.0, 1e-6), 'gain')
                ctx.check(close(rfutils.gain_to_dBi(g, freq), db, 1e-7), 'gain and back')
                ctx.check(close(rfutils.gain_to_dBd(rfutils.dBd_to_gain(db, freq), freq), db, 1e-7), 'gain of dBd and back')
                ctx.check(close(rfutils.dBm_to_Jy(db, 1e6, g)/10**(db/10)*10**(rfutils.Jy_to_dBm(1.0, 1e6, g)/10), 1.0, 1e-6), 'flux density and back')
                ctx.check(close(rfutils.calculate_effective_area(g)/(g*2*1.380649e-23/1e-26), 1.0, 1e-6), 'effective area')
                ctx.check(close(rfutils.calculate_sefd(200.0, gain=g)*g/200.0, 1.0, 1e-6), 'SEFD')
                ctx.check(close(rfutils.calculate_sefd(200.0, area=rfutils.calculate_effective_area(g)/0.5, efficiency=0.5)*g/200.0, 1.0, 1e-6), 'SEFD from area')
            ctx.state(('dB', db))
    x = np.linspace(-2, 3, 11)
    for method in ('linear', 'spline'):
        for deg in (0, 1) if method == 'linear' else (0, 1, 2, 3):
            for lo, hi, num in itertools.product((-2.0, -0.3), (0.5, 3.0), (1, 2, 7)):
                with ctx.case(fn='regrid', method=method, degree=deg, lo=lo, hi=hi, num=num):
                    new = np.linspace(lo, hi, num)
                    c = [1.5, -2.0, 0.5, 3.0][:deg+1]
                    ctx.check(close(mathutils.regrid(x, np.polyval(c, x), new, method=method), np.polyval(c, new), 1e-9), 'regridded data')
                    ctx.raises(ValueError, lambda: mathutils.regrid(x, x, np.array([lo, 3.01]), method=method), 'beyond the end')
                    ctx.raises(ValueError, lambda: mathutils.regrid(x, x, np.array([-2.01, hi]), method=method), 'before the start')
                    ctx.state(('regrid', method, deg, lo, hi, num))
    for n in range(2, 10):
        with ctx.case(fn='ndft', n=n):
            t = np.cumsum(1.0 + 0.3*np.cos(np.arange(n)*1.7))
            v = np.cos(np.arange(n)*2.1) + 1j*np.sin(np.arange(n))
            f, F = mathutils.ndft(t, v)
            ctx.check(close(F, [sum(v*np.exp(-2j*np.pi*t*g)) for g in f]), 'Fourier transform at its frequencies')
            ctx.check(close(sorted(f*(t.max()-t.min())), sorted(n//2-m for m in range(n))), 'frequencies')
            ctx.state(('ndft', n))
    for h, c, w in itertools.product((1.0, 3.5), (30.0, 44.5), (2.0, 5.5)):
        with ctx.case(fn='gaussian', height=h, center=c, width=w):
            g = mathutils.gaussian1d(h, c, w)
            k = np.arange(80.0)
            ctx.check(close(g(k), h*np.exp(-(k-c)**2/(2*w*w))), 'Gaussian')
            ctx.check(np.allclose(mathutils.gaussparams(g(k))[1:], (c, w), rtol=2e-2), 'parameters of a Gaussian')
            ctx.check(np.allclose(mathutils.gaussparams(g(k), x=2*k+5)[1:], (2*c+5, 2*w), rtol=2e-2), 'parameters of a Gaussian on an axis')
            for c2, w2, pa in itertools.product((25.0, 40.0), (3.0, 6.0), (0.0, 30.0, 90.0)):
                g2 = mathutils.gaussian2d(h, c, c2, w, w2, pa)
                xx, yy = np.meshgrid(np.arange(80.0), np.arange(70.0), indexing='ij')
                a = math.radians(pa)
                p, q = (xx-c)*math.cos(a)+(yy-c2)*math.sin(a), -(xx-c)*math.sin(a)+(yy-c2)*math.cos(a)
                z = g2(xx, yy)
                ctx.check(close(z, h*np.exp(-(p/w)**2/2-(q/w2)**2/2)), 'two-dimensional Gaussian')
                if pa == 0:
                    before = z.copy()
                    ctx.check(np.allclose(mathutils.gaussparams(z)[1:5], (c, c2, w, w2), rtol=3e-2), 'parameters of a two-dimensional Gaussian')
                    ctx.check(np.array_equal(z, before), 'the data are changed')
            ctx.state(('gauss', h, c, w))
    for name, fn in (('thin', scattering.thin), ('thick', scattering.thick), ('uniform', scattering.uniform)):
        for tau in (0.01, 0.05, 0.2):
            for t0 in (-0.1, 0.0, -0.5):
                with ctx.case(fn=name, tau=tau, start=t0):
                    t = t0 + np.arange(400)*0.005
                    g = fn(t, tau)
                    ctx.check(abs(g.sum()-1) < 1e-9 and (g[t < 0] == 0).all() and (g >= 0).all() and np.isfinite(g).all(), 'broadening function')
                    p = t > 1e-9
                    if name == 'thin':
                        shape = np.exp(-t[p]/tau)
                    elif name == 'thick':
                        shape = np.sqrt(np.pi*tau/4/t[p]**3)*np.exp(-np.pi**2*tau/16/t[p])
                    else:
                        shape = np.sqrt(np.pi**5*tau**3/8/t[p]**5)*np.exp(-np.pi**2*tau/4/t[p])
                    ctx.check(close(g[p]/g[p].sum(), shape/shape.sum(), 1e-6), 'shape of the broadening function')
                    ctx.state(('scatter', name, tau, t0))


def units(tier):
    step = {'quick': 3, 'thorough': 1}[tier]
    u = {'modes': modes, 'estimators': estimators, 'outliers': outliers, 'masks': masks_and_axes, 'fits': fits, 'spectral': spectral, 'incoherent': incoherent,
         'coherent': coherent(step), 'helpers': helpers}
    return u
