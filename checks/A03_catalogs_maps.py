"""
A03 - catalogs and sky maps hold what their data files list.

Every row of every packaged catalog is parsed a second time, by an independently written
parser of the file's layout, and looked up by its name and all its other names in the real
catalog; every pixel of the sky maps is projected independently.
"""
import itertools
import math
import re
import os
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import numpy as np
from astropy.utils import iers
iers.conf.auto_download = False
iers.conf.auto_max_age = None
from astropy.io import fits
from astropy.coordinates import SkyCoord, FK4, FK5
from astropy.time import Time as AstroTime
from astropy import units as u

import vmc
from lsl import catalog, skymap

BOUNDS = ('all rows of the seven packaged catalogs (about 25,000 sources) with all their names; all histories of three requests to the catalog factory; all pixels of both sky maps for 3 frequencies inside and at the ends of the range, '
          'projected for 5 sites from pole to pole and 3 times')
ASSUMPTIONS = 'pulsars listed with ecliptic coordinates only are not in the catalog (a documented gap); B1950 positions to 1 arcsecond of the FK4-FK5 conversion of astropy; the catalogs that have to be downloaded (3FGL, 4FGL, 4FGL-DR4) are left out; the horizon to 0.05 degrees'
HANG_S = 300

import lsl
DATA = os.path.join(os.path.dirname(lsl.__file__), 'data')


def lines(name):
    with open(os.path.join(DATA, 'catalog', name), 'rb') as fh:
        return [l for l in fh.read().decode('latin-1').replace('\r', '').split('\n') if l.strip()]


def hms(h, m, s):
    return 15*(int(h) + int(m)/60 + float(s)/3600)


def dms(sign, d, m, s=0.0):
    v = int(d) + float(m)/60 + float(s)/3600
    return -v if sign.strip() == '-' else v


def rows_lwa():
    r = re.compile(r'^(\S+)\s+(\d+) (\d+) ([\d.]+)\s+([-+]?)(\d+) (\d+) ([\d.]+)(.*)$')
    for l in lines('lwa_catalog.dat'):
        if l.startswith('#'):
            continue
        m = r.match(l)
        yield m.group(1), hms(*m.group(2, 3, 4)), dms(*m.group(5, 6, 7, 8)), m.group(9).split()


def rows_psr():
    for block in '\n'.join(lines('psrcat.db')).split('\n@'):
        d = {}
        for l in block.split('\n'):
            f = l.split()
            if len(f) > 1 and f[0] in ('PSRB', 'PSRJ', 'RAJ', 'DECJ'):
                d[f[0]] = f[1]
        if 'RAJ' not in d or 'DECJ' not in d:
            continue
        ra = d['RAJ'].split(':')
        dec = d['DECJ'].split(':')
        if len(ra) not in (2, 3) or len(dec) not in (2, 3):
            continue
        ra += ['0']*(3 - len(ra))
        dec += ['0']*(3 - len(dec))
        if max(float(ra[1]), float(ra[2]), float(dec[1]), float(dec[2])) >= 60:
            continue                # not a valid angle
        sign = '-' if dec[0].startswith('-') else '+'
        names = [n for n in (d.get('PSRB'), d.get('PSRJ')) if n]
        yield names[0], hms(*ra), dms(sign, dec[0].lstrip('+-'), dec[1], dec[2]), names[1:]


def rows_pks():
    r = re.compile(r'^(\d{4}[-+]\d{3}[ab]?) +(\S.*?)? ?[*p]? +(\d\d) (\d\d) (\d\d\.\d?) +([-+]?)(\d\d) (\d\d) (\d\d)\b')
    for l in lines('pkscat.txt'):
        m = r.match(l)
        assert m, l
        a = (m.group(2) or '').strip()
        a = '' if a in ('*', 'p') else a
        yield m.group(1), hms(*m.group(3, 4, 5)), dms(*m.group(6, 7, 8, 9)), [a] if a else []


def rows_pks90():
    r = re.compile(r'^(J\d{4}[-+]\d{4})(\d\d) (\d\d) (\d\d\.\d*) +([-+])(\d\d) (\d\d) (\d\d\.?\d*) ')
    b = re.compile(r'(B\d{4}[-+]\d{3}[ab]?) ?(\d\d) (\d\d) ([\d.]{2,4}) *([-+])(\d\d) (\d\d) (\d\d)(.{0,7})')
    for l in lines('PKS90.txt'):
        m = r.match(l)
        assert m, l
        names = []
        q = b.search(l, 100)
        if q:
            names = [q.group(1)] + ([q.group(9).strip()] if q.group(9).strip() else [])
        yield m.group(1), hms(*m.group(2, 3, 4)), dms(*m.group(5, 6, 7, 8)), names


def rows_3c():
    r = re.compile(r'^\s*(\d+).*?(\d\d) (\d\d) (\d\d\.\d?) *\d* *[v^]* *(-?)(\d\d) (\d\d\.\d?)')
    for l in lines('3c.dat'):
        m = r.match(l)
        assert m, l
        yield '3C' + m.group(1), hms(*m.group(2, 3, 4)), dms(*m.group(5, 6, 7)), []


def rows_4c():
    for l in lines('4c.dat'):
        f = l[:30].split()
        dec = f[4]
        tail = l[55:].split()
        a = tail[-1].rstrip('*') if tail and tail[-1].startswith('3C') else None
        yield '4C' + f[0], hms(*f[1:4]), dms('-' if dec.startswith('-') else '', dec.lstrip('+-'), f[5]), [a] if a else []


def rows_2fgl():
    with fits.open(os.path.join(DATA, 'catalog', 'gll_psc_v08.fit')) as hdus:
        t = hdus['LAT_POINT_SOURCE_CATALOG'].data
        cols = [c for c in ('0FGL_Name', '1FGL_Name', 'ASSOC_GAM1', 'ASSOC_GAM2', 'ASSOC_GAM3', 'ASSOC1', 'ASSOC2') if c in t.names]
        for i in range(len(t)):
            names = [str(t[c][i]).strip().replace(' ', '_') for c in cols]
            yield str(t['Source_Name'][i]).strip().replace(' ', '_'), float(t['RAJ2000'][i]), float(t['DEJ2000'][i]), [n for n in names if n]


FILES = {'LWA': (rows_lwa, 'J2000'), 'PSR': (rows_psr, 'J2000'), 'PKS': (rows_pks, 'B1950'), 'PKS90': (rows_pks90, 'J2000'), '3C': (rows_3c, 'B1950'),
         '4C': (rows_4c, 'B1950'), '2FGL': (rows_2fgl, 'J2000')}


def catalog_unit(name):
    def unit(ctx):
        fn, epoch = FILES[name]
        rows = list(fn())
        ra = np.array([r[1] for r in rows])
        dec = np.array([r[2] for r in rows])
        if epoch == 'B1950':
            c = SkyCoord(ra*u.deg, dec*u.deg, frame=FK4(equinox='B1950')).transform_to(FK5(equinox='J2000'))
            ra, dec = c.ra.deg, c.dec.deg
        cat = catalog.CatalogFactory.get_catalog(name)
        want = {}
        owners = {}
        for i, r in enumerate(rows):
            want[r[0]] = i                           # of rows with one name, the last is kept
        for n, i in want.items():
            for a in rows[i][3]:
                owners.setdefault(a, set()).add(n)
        with ctx.case(catalog=name, rows=len(rows)):
            ctx.equal(len(cat), len(want), 'size', 'sources in the catalog %s' % name)
            ctx.equal(sorted(cat), sorted(want), 'names', 'names in the catalog %s' % name)
            ctx.equal(sorted(k for k, v in cat.items()), sorted(want), 'items', 'names of the items of the catalog %s' % name)
        tol = 1.0/3600 if epoch == 'B1950' else 2e-7
        for n, i in want.items():
            with ctx.case(catalog=name, source=n):
                ctx.step()
                e = cat.lookup(n)
                ctx.check(e is not None, 'lost', 'source %s is listed in the file, not in the catalog %s' % (n, name))
                ctx.check(cat[n] is e and n in cat and cat.get(n) is e, 'mapping', 'source %s is not the same by lookup and by subscript' % n)
                ctx.equal(e.name, n, 'name', 'name of the entry')
                ctx.equal(e.position.name, n, 'name', 'name of the position')
                p = e.position.j2000_equ
                a, d = float(p.ra), float(p.dec)
                off = max(abs((a - ra[i] + 180) % 360 - 180)*math.cos(math.radians(dec[i])), abs(d - dec[i]))
                ctx.check(off < tol, 'position', 'source %s of %s is at %.6f, %.6f, listed at %.6f, %.6f (J2000)' % (n, name, a, d, ra[i], dec[i]))
                ctx.equal(sorted(set(e.alias_list)), sorted(set(rows[i][3])), 'aliases', 'other names of %s' % n)
                for al in rows[i][3]:
                    g = cat.lookup(al)
                    ctx.check(g is not None, 'alias', 'the other name %s of %s is not found in %s' % (al, n, name))
                    ctx.check(g.name in owners[al] or al in want, 'alias', 'the name %s stands for %s in %s, listed for %s' % (al, g.name, name, sorted(owners[al])))
                ctx.state((name, n))
        for n in ('', 'no such source', 'XYZ', next(iter(want)) + 'x', next(iter(want)).lower() + ' '):
            with ctx.case(catalog=name, unknown=n):
                ctx.check(cat.lookup(n) is None and n not in cat and cat.get(n, 5) == 5, 'unknown', 'the unknown name %r is found in %s' % (n, name))
                ctx.raises(KeyError, lambda: cat[n], 'unknown')
    return unit


def factory(ctx):
    names = catalog.CatalogFactory.get_names()
    with ctx.case(names=True):
        ctx.check(set(FILES) <= set(names), 'names', 'catalogs %s are not offered' % sorted(set(FILES) - set(names)))
    ops = ('LWA', '3C', 'PSR', 'NONE', 'lwa')
    for seq in itertools.product(ops, repeat=3):
        with ctx.case(requests=seq):
            seen = {}
            for op in seq:
                ctx.step()
                if op in ('NONE', 'lwa'):
                    ctx.raises(ValueError, lambda: catalog.CatalogFactory.get_catalog(op), 'unknown catalog')
                    continue
                c = catalog.CatalogFactory.get_catalog(op)
                ctx.equal(c.name, op, 'wrong catalog', 'name of the catalog')
                ctx.check(seen.setdefault(op, c) is c, 'reparsed', 'the catalog %s is a different object on the second request' % op)
                for o, d in seen.items():
                    ctx.check(o == op or d is not c, 'shared', 'two catalogs are one object')
            ctx.equal(catalog.CatalogFactory.get_names(), names, 'names', 'list of the catalogs')
            ctx.state(seq)


SITES = ((34.07, -107.63), (-33.0, 21.4), (0.0, 0.0), (90.0, 0.0), (-89.0, 180.0))
TIMES = (2456300.8, 2449847.25, 2458150.125)


def altaz(ra, dec, lat, lon, jd):
    """Horizontal coordinates of mean positions at the epoch (aberration left out)."""
    t = AstroTime(jd, format='jd', scale='utc')
    c = SkyCoord(ra*u.deg, dec*u.deg, frame=FK5(equinox='J2000')).transform_to(FK5(equinox=AstroTime(jd, format='jd')))
    d = jd - 2451545.0
    gmst = (280.46061837 + 360.98564736629*d) % 360
    h = np.radians(gmst + lon) - c.ra.rad
    p = math.radians(lat)
    x = -np.cos(c.dec.rad)*np.sin(h)
    y = np.sin(c.dec.rad)*math.cos(p) - np.cos(c.dec.rad)*np.cos(h)*math.sin(p)
    z = np.sin(c.dec.rad)*math.sin(p) + np.cos(c.dec.rad)*np.cos(h)*math.cos(p)
    return x, y, z                    # east, north, up


def maps(cls, fname, freqs):
    def unit(ctx):
        with np.load(os.path.join(DATA, 'skymap', fname)) as npz:
            ref = {k: npz[k] for k in npz.files}
        ra, dec = np.degrees(ref['ra'].ravel()), np.degrees(ref['dec'].ravel())
        base = None
        for f in freqs:
            with ctx.case(map=cls.__name__, MHz=f):
                m = cls(freq_MHz=f)
                ctx.check(np.allclose(m.ra, ra) and np.allclose(m.dec, dec), 'pixels', 'pixels are not where the file has them')
                near = np.argmin(abs(ref['freqs'] - f))
                if abs(ref['freqs'][near] - f) < 1e-6:
                    # at a survey frequency the interpolation is exact
                    want = ref['sigmas'][near]*(ref['maps'] @ ref['comps'][near])
                    ctx.check(np.allclose(m._power, want, rtol=1e-6), 'temperature', 'temperatures at the survey frequency %g MHz are not those of the survey' % f)
                ctx.check(bool(np.isfinite(m._power).all()), 'temperature', 'temperatures are not finite')
                ctx.check(np.isclose(m.compute_total_power(), m._power.sum()), 'total', 'the total power is not the sum')
                ctx.check(np.isclose(m.normalize_power(), m._power).all(), 'total', 'the normalized power is not the power')
                base = m
        sel = [(s, t) for s in SITES for t in TIMES]
        if ctx.tier == 'quick':
            sel = [(s, TIMES[i % 3]) for i, s in enumerate(SITES)]
        for (lat, lon), jd in sel:
            with ctx.case(map=cls.__name__, site=(lat, lon), jd=jd):
                p = skymap.ProjectedSkyMap(base, lat, lon, jd)
                x, y, z = altaz(ra, dec, lat, lon, jd)
                alt, az = np.radians(p.alt), np.radians(p.az)
                e = np.stack((np.cos(alt)*np.sin(az) - x, np.cos(alt)*np.cos(az) - y, np.sin(alt) - z))
                ctx.check(float(np.abs(e).max()) < 1e-3, 'projection', 'pixels are up to %.3f degrees from where they are in the sky' % math.degrees(np.abs(e).max()))
                up = p.alt > 0
                ctx.equal(len(p.visibleAlt), int(up.sum()), 'horizon', 'visible pixels')
                for n, v, w in (('visibleAlt', p.visibleAlt, p.alt), ('visibleAz', p.visibleAz, p.az), ('visiblePower', p.visiblePower, base._power), ('visibleRa', p.visibleRa, ra), ('visibleDec', p.visibleDec, dec)):
                    ctx.check(np.allclose(v, w[up]), 'visible', '%s are not those of the pixels above the horizon' % n)
                l, m, n = p.get_direction_cosines()
                ctx.check(max(np.abs(l - x[up]).max(), np.abs(m - y[up]).max(), np.abs(n - z[up]).max()) < 1e-3, 'cosines', 'direction cosines do not point at the visible pixels')
                ctx.check(np.allclose(l*l + m*m + n*n, 1), 'cosines', 'direction cosines are not of unit length')
                ctx.check(np.isclose(p.compute_visible_power(), p.visibleNormalizedPower.sum()) and np.isclose(p.compute_visible_power()/p.visiblePower.sum(), p.visibleNormalizedPower[0]/p.visiblePower[0]), 'visible power',
                          'the visible power is not the sum over the visible pixels')
                ctx.state((lat, lon, jd))
        for lat, lon in ((90.1, 0), (-91, 0), (0, 361), (0, -360.5)):
            with ctx.case(map=cls.__name__, bad=(lat, lon)):
                ctx.raises((AssertionError, ValueError), lambda: skymap.ProjectedSkyMap(base, lat, lon, TIMES[0]), 'site')
    return unit


def units(tier):
    d = {'catalog ' + n: catalog_unit(n) for n in FILES}
    d['factory'] = factory
    d['map gsm'] = maps(skymap.SkyMapGSM, 'gsm-408locked.npz', (10.0, 73.9, 408.0))
    d['map lfsm'] = maps(skymap.SkyMapLFSM, 'lfsm-5.1deg.npz', (40.0, 73.9, 408.0))
    return d
