"""
A02 - positions mean the same in all coordinate systems.

All positions of grids that contain the poles, the zero meridians and the neighbourhood of
the zenith are converted by the real functions and compared with spherical trigonometry
written out independently (rotation matrices, hour angles, the WGS84 ellipsoid, the IAU
precession angles).
"""
import itertools
import math
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import numpy as np
from astropy.utils import iers
iers.conf.auto_download = False
iers.conf.auto_max_age = None

from lsl import astro
from lsl.transform import Time, CelestialPosition, GeographicalPosition, PointingDirection, PlanetaryPosition
import vmc

BOUNDS = ('all positions of a grid in both angles with the poles and the meridians (74 positions); 4 times between 1995 and 2018; 7 observers from pole to pole; rise, transit and set of all combinations of 7 latitudes, 11 declinations, '
          '8 right ascensions and 2 times; all pairs of 20 positions for separations and position angles')
ASSUMPTIONS = 'agreement with the independent formulas to 0.02 degrees (aberration, nutation and light deflection are not in them); targets that graze the horizon within 1.5 degrees, or pass within 1 degree of the zenith for the time of the transit, are left out; the solar system is that of the builtin ephemeris of astropy'
HANG_S = 200

RAD = math.pi/180
GRID = [(lon, lat) for lat in (-85.0, -60.0, -29.0, -0.001, 12.0, 45.0, 66.5, 88.0) for lon in (0.0, 0.01, 77.0, 90.0, 149.0, 180.0, 266.4, 270.0, 359.99)] + [(0.0, 90.0), (0.0, -90.0)]
JDS = (2449847.25, 2453371.5, 2456300.8, 2458150.125)


def vec(lon, lat):
    return np.array([math.cos(lat*RAD)*math.cos(lon*RAD), math.cos(lat*RAD)*math.sin(lon*RAD), math.sin(lat*RAD)])


def ang(v):
    return math.degrees(math.atan2(v[1], v[0])) % 360, math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))


def apart(a, b):
    """Angle between two (lon, lat) in degrees."""
    u, v = vec(*a), vec(*b)
    return math.degrees(math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v))))


def rx(t):
    c, s = math.cos(t*RAD), math.sin(t*RAD)
    return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])


def ry(t):
    c, s = math.cos(t*RAD), math.sin(t*RAD)
    return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])


def rz(t):
    c, s = math.cos(t*RAD), math.sin(t*RAD)
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


# From J2000 equatorial to galactic: pole at 192.85948, 27.12825 and the node at 122.93192 - 90
TO_GAL = rz(180-122.93192) @ ry(90-27.12825) @ rz(192.85948)
EPS = 23.4392911
TO_ECL = rx(EPS)


def precession(jd):
    T = (jd-2451545.0)/36525.0
    zeta = (2306.2181*T + 0.30188*T**2)/3600
    z = (2306.2181*T + 1.09468*T**2)/3600
    th = (2004.3109*T - 0.42665*T**2)/3600
    return rz(-z) @ ry(th) @ rz(-zeta)


def inrange(lon, lat):
    return 0 <= lon < 360 and -90 <= lat <= 90


def u_galactic(ctx):
    for lon, lat in GRID:
        with ctx.case(ra=lon, dec=lat):
            # to_gal() and to_equ() are about positions at the equinox of date
            g = astro.equ_posn(lon, lat).to_gal(JDS[0])
            ctx.check(inrange(g.l, g.b), 'gal-range', f"galactic position of {lon}, {lat} is {g}")
            want = ang(TO_GAL @ precession(JDS[0]).T @ vec(lon, lat))
            ctx.check(apart((g.l, g.b), want) < 0.005, 'gal-of-date', f"galactic position of {lon}, {lat} of date is {g} instead of {want}")
            e = astro.gal_posn(lon, lat).to_equ(JDS[0])
            want = ang(precession(JDS[0]) @ TO_GAL.T @ vec(lon, lat))
            ctx.check(apart((e.ra, e.dec), want) < 0.005, 'equ-of-date', f"equatorial position of date of l={lon}, b={lat} is {e} instead of {want}")
            g = astro.get_gal_from_equ(astro.equ_posn(lon, lat))
            want = ang(TO_GAL @ vec(lon, lat))
            ctx.check(apart((g.l, g.b), want) < 0.005, 'gal', f"galactic position of {lon}, {lat} is {g} instead of {want}")
            e = astro.get_equ_from_gal(g)
            ctx.check(apart((e.ra, e.dec), (lon, lat)) < 1e-7, 'gal-round-trip', f"{lon}, {lat} comes back as {e} by galactic coordinates")
            e = astro.get_equ_from_gal(astro.gal_posn(lon, lat))
            want = ang(TO_GAL.T @ vec(lon, lat))
            ctx.check(apart((e.ra, e.dec), want) < 0.005, 'equ-from-gal', f"equatorial position of l={lon}, b={lat} is {e} instead of {want}")
            g = astro.get_gal_from_equ(e)
            ctx.check(apart((g.l, g.b), (lon, lat)) < 1e-7, 'equ-round-trip', f"l={lon}, b={lat} comes back as {g} by equatorial coordinates")
            p = CelestialPosition((lon, lat))
            q = CelestialPosition(p.j2000_gal, format=CelestialPosition.FORMAT_GAL)
            ctx.check(apart((q.j2000_equ.ra, q.j2000_equ.dec), (lon, lat)) < 1e-7, 'celestial-gal', f"{lon}, {lat} comes back as {q}")
            q = CelestialPosition((lon, lat), format=CelestialPosition.FORMAT_GAL)
            ctx.check(apart((q.j2000_equ.ra, q.j2000_equ.dec), want) < 0.005, 'celestial-gal', f"l={lon}, b={lat} is {q}")
            q.j2000_equ = (lon, lat)
            ctx.check((q.j2000_equ.ra, q.j2000_equ.dec) == (lon, lat), 'celestial-set', f"{lon}, {lat} is set as {q}")
        ctx.step(6)
        ctx.state((lon, lat))
    for lon, lat in ((-350.0, 10.0), (-0.5, -5.0), (-180.0, 0.0)):
        with ctx.case(l=lon, b=lat):
            e = astro.gal_posn(lon, lat).to_equ(JDS[0])
            ctx.check(apart((e.ra, e.dec), ang(precession(JDS[0]) @ TO_GAL.T @ vec(lon, lat))) < 0.005, 'equ-from-gal', f"equatorial position of l={lon}, b={lat} is {e}")


def u_ecliptic(ctx):
    for lon, lat in GRID:
        for jd in JDS[:2]:
            with ctx.case(ra=lon, dec=lat, jd=jd):
                g = astro.equ_posn(lon, lat).to_ecl(jd)
                ctx.check(inrange(g.lng % 360, g.lat), 'ecl-range', f"ecliptic position of {lon}, {lat} is {g}")
                want = ang(TO_ECL @ vec(lon, lat))
                ctx.check(apart((g.lng, g.lat), want) < 0.02, 'ecl', f"ecliptic position of {lon}, {lat} is {g} instead of {want}")
                e = g.to_equ(jd)
                ctx.check(apart((e.ra, e.dec), (lon, lat)) < 1e-6, 'ecl-round-trip', f"{lon}, {lat} comes back as {e} by ecliptic coordinates")
                e = astro.ecl_posn(lon, lat).to_equ(jd)
                want = ang(TO_ECL.T @ vec(lon, lat))
                ctx.check(apart((e.ra, e.dec), want) < 0.02, 'equ-from-ecl', f"equatorial position of ecliptic {lon}, {lat} is {e} instead of {want}")
                g = e.to_ecl(jd)
                ctx.check(apart((g.lng, g.lat), (lon, lat)) < 1e-6, 'ecl-back', f"ecliptic {lon}, {lat} comes back as {g} by equatorial coordinates")
            ctx.step(4)
            ctx.state((lon, lat, jd))
        with ctx.case(lng=lon, lat=lat):
            p = CelestialPosition((lon, lat), format=CelestialPosition.FORMAT_ECL)
            g = p.j2000_ecl
            ctx.check(apart((g.lng, g.lat), (lon, lat)) < 1e-6, 'celestial-ecl', f"ecliptic {lon}, {lat} comes back as {g}")
            v = 2.0*vec(lon, lat)
            g = astro.get_ecl_from_rect(astro.rect_posn(*[float(c) for c in v]))
            ctx.check(apart((g.lng, g.lat), (lon, lat)) < 1e-6, 'ecl-from-rect', f"ecliptic {lon}, {lat} as rectangular coordinates is {g}")


def u_precession(ctx):
    for lon, lat in GRID:
        for jd in JDS:
            with ctx.case(ra=lon, dec=lat, jd=jd):
                M = precession(jd)
                want = ang(M @ vec(lon, lat))
                e = astro.equ_posn(lon, lat)
                for name, p in (('get_equ_prec', astro.get_equ_prec(e, jd)), ('precess', e.precess(jd)), ('get_equ_prec2', astro.get_equ_prec2(e, astro.J2000_UTC_JD, jd)), ('get_precession', astro.get_precession(astro.J2000_UTC_JD, e, jd))):
                    ctx.check(apart((p.ra, p.dec), want) < 0.001 and inrange(p.ra, p.dec), 'precession', f"{name}: {lon}, {lat} is at {p} at JD {jd} instead of {want}")
                back = astro.get_equ_prec2(astro.equ_posn(float(p.ra), float(p.dec)), jd, astro.J2000_UTC_JD)
                ctx.check(apart((back.ra, back.dec), (lon, lat)) < 1e-6, 'precession-back', f"{lon}, {lat} comes back from JD {jd} as {back}")
                a = astro.get_apparent_posn(e, jd)
                ctx.check(apart((a.ra, a.dec), want) < 0.012, 'apparent', f"the apparent position of {lon}, {lat} at JD {jd} is {a}, precession alone gives {want}")
                q = CelestialPosition((lon, lat)).apparent_equ(Time(jd, Time.FORMAT_JD))
                ctx.check(apart((a.ra, a.dec), (q.ra, q.dec)) < 1e-9, 'apparent-celestial', f"the apparent position of {lon}, {lat} at JD {jd} is {a} or {q}")
                if abs(lat) < 89:
                    for pm in ((0.0, 20000.0), (30000.0, 0.0)):
                        if abs(lat)+1 > 90:
                            continue
                        moved = astro.get_apparent_posn(e, jd, pm)
                        yr = (jd-2451545.0)/365.25
                        start = astro.get_apparent_posn(astro.equ_posn((lon+pm[0]*yr/3.6e6) % 360, max(-90.0, min(90.0, lat+pm[1]*yr/3.6e6))), jd)
                        ctx.check(apart((moved.ra, moved.dec), (start.ra, start.dec)) < 0.002*(1+1/math.cos(lat*RAD)), 'proper-motion', f"{lon}, {lat} with a proper motion of {pm} is at {moved} at JD {jd} instead of {start}")
            ctx.step(7)
            ctx.state((lon, lat, jd))
        with ctx.case(ra=lon, dec=lat, epoch='B1950'):
            e = astro.equ_posn(lon, lat)
            b = astro.J2000_to_B1950(e)
            want = ang(precession(astro.B1950_UTC_JD) @ vec(lon, lat))
            ctx.check(apart((b.ra, b.dec), want) < 0.01, 'b1950', f"{lon}, {lat} is at {b} for B1950 instead of {want}")
            j = astro.B1950_to_J2000(astro.equ_posn(float(b.ra), float(b.dec)))
            ctx.check(apart((j.ra, j.dec), (lon, lat)) < 1e-4, 'b1950-back', f"{lon}, {lat} comes back from B1950 as {j}")
            p = CelestialPosition((float(b.ra), float(b.dec)), epoch=CelestialPosition.EPOCH_B1950)
            ctx.check(apart((p.j2000_equ.ra, p.j2000_equ.dec), (lon, lat)) < 1e-4 and apart((p.b1950_equ.ra, p.b1950_equ.dec), (b.ra, b.dec)) < 1e-4, 'b1950-celestial', f"{lon}, {lat} comes back from B1950 as {p}")
        ctx.state((lon, lat))


def gmst(jd):
    d = jd-2451545.0
    T = d/36525.0
    return (280.46061837 + 360.98564736629*d + 0.000387933*T*T) % 360


def u_sidereal(ctx):
    for jd in [j+k*0.125 for j in JDS for k in range(17)]:
        with ctx.case(jd=jd):
            want = gmst(jd)/15
            m = astro.get_mean_sidereal_time(jd)
            a = astro.get_apparent_sidereal_time(jd)
            ctx.check(0 <= m < 24 and abs((m-want+12) % 24-12)*3600 < 1.1, 'gmst', f"mean sidereal time at JD {jd} is {m} instead of {want}")
            ctx.check(0 <= a < 24 and abs((a-m+12) % 24-12)*3600 < 1.3, 'gast', f"apparent sidereal time at JD {jd} is {a}, the mean one {m}")
            for lng in (-359.0, -180.0, -107.63, -0.001, 0.0, 33.0, 180.0, 359.0):
                l = astro.get_local_sidereal_time(lng, jd)
                ctx.check(0 <= l < 24 and abs((l-a-lng/15+12) % 24-12)*3600 < 1e-4, 'last', f"sidereal time at longitude {lng} and JD {jd} is {l}, at Greenwich {a}")
                s = GeographicalPosition((lng, 20.0)).sidereal(Time(jd, Time.FORMAT_JD))
                ctx.check(abs((s-l+12) % 24-12)*3600 < 1e-4, 'last-site', f"sidereal time at longitude {lng} and JD {jd} is {s} or {l}")
            ctx.step(10)
        ctx.state(jd)


SITES = [(0.0, 90.0, 0.0), (-107.628, 34.068, 2133.0), (149.5, -30.3, 200.0), (6.0, 52.9, 0.0), (-70.0, 0.0, 0.0), (20.0, -67.0, 100.0), (253.0, 10.0, 0.0), (45.0, -90.0, 2800.0)]


def horizontal(ra, dec, lng, lat, jd):
    """Azimuth and altitude of an apparent position from the hour angle."""
    H = astro.get_local_sidereal_time(lng, jd)*15-ra
    x = -math.cos(dec*RAD)*math.cos(H*RAD)*math.sin(lat*RAD) + math.sin(dec*RAD)*math.cos(lat*RAD)
    y = -math.cos(dec*RAD)*math.sin(H*RAD)
    z = math.cos(dec*RAD)*math.cos(H*RAD)*math.cos(lat*RAD) + math.sin(dec*RAD)*math.sin(lat*RAD)
    return ang((x, y, z))


def u_horizontal(ctx, site):
    geo = astro.geo_posn(*site)
    for jd in JDS[:2]:
        for lon, lat in GRID:
            with ctx.case(site=site, jd=jd, a=lon, b=lat):
                e = astro.equ_posn(lon, lat)
                app = astro.get_apparent_posn(e, jd)
                h = astro.get_hrz_from_equ(e, geo, jd)
                want = horizontal(app.ra, app.dec, site[0], site[1], jd)
                ctx.check(inrange(h.az, h.alt) and apart((h.az, h.alt), want) < 0.02, 'horizontal', f"{lon}, {lat} at JD {jd} is at {h} instead of {want}")
                h2 = e.to_hrz(geo, jd)
                ctx.check(apart((h2.az, h2.alt), (h.az, h.alt)) < 1e-9, 'to-hrz', f"{lon}, {lat} at JD {jd} is at {h2} or {h}")
                back = h.to_equ(geo, jd)
                ctx.check(apart((back.ra, back.dec), (lon, lat)) < 1e-5, 'horizontal-back', f"{lon}, {lat} comes back as {back} by horizontal coordinates")
                e2 = astro.get_equ_from_hrz(astro.hrz_posn(lon, lat), geo, jd)
                h3 = astro.get_hrz_from_equ(e2, geo, jd)
                ctx.check(apart((h3.az, h3.alt), (lon, lat)) < 1e-5, 'equ-back', f"az={lon}, alt={lat} comes back as {h3} by equatorial coordinates")
                p = PointingDirection(CelestialPosition((lon, lat)), GeographicalPosition(site))
                t = Time(jd, Time.FORMAT_JD)
                ph = p.hrz(t)
                ctx.check(apart((ph.az, ph.alt), (h.az, h.alt)) < 1e-5, 'pointing', f"the pointing direction of {lon}, {lat} is {ph} instead of {h}")
                l, m, n = p.dir_cos(t)
                w = vec(h.az, h.alt)
                ctx.check(max(abs(l-w[1]), abs(m-w[0]), abs(n-w[2])) < 1e-6, 'pointing-cosines', f"the direction cosines of {h} are {(l, m, n)}")
            ctx.step(5)
            ctx.state((jd, lon, lat))


def u_geometry(ctx):
    posns = [(lon, lat) for lon in (0.0, 10.0, 180.0, 350.0) for lat in (-89.0, -20.0, 0.0, 45.0, 90.0)]
    for a, b in itertools.product(posns, repeat=2):
        with ctx.case(a=a, b=b):
            p, q = astro.equ_posn(*a), astro.equ_posn(*b)
            want = apart(a, b)
            got = astro.get_angular_separation(p, q)
            ctx.check(abs(got-want) < 1e-7, 'separation', f"{a} and {b} are {got} apart instead of {want}")
            ctx.check(abs(p.angular_separation(q)-want) < 1e-7, 'separation', f"{a} and {b} are {p.angular_separation(q)} apart instead of {want}")
            if 1e-3 < want < 179.9 and abs(a[1]) < 89.9:
                pa = astro.get_rel_posn_angle(p, q)
                dra = (b[0]-a[0])*RAD
                w = math.degrees(math.atan2(math.sin(dra)*math.cos(b[1]*RAD), math.sin(b[1]*RAD)*math.cos(a[1]*RAD)-math.cos(b[1]*RAD)*math.sin(a[1]*RAD)*math.cos(dra)))
                ctx.check(abs((pa-w+180) % 360-180) < 1e-6, 'position-angle', f"{b} is at position angle {pa} from {a} instead of {w}")
        ctx.step(3)
        ctx.state((a, b))
    for lon, lat in GRID:
        with ctx.case(lon=lon, lat=lat):
            r = astro.get_rect_from_equ(astro.equ_posn(lon, lat))
            ctx.check(np.allclose((r.X, r.Y, r.Z), vec(lon, lat), atol=1e-9), 'rect', f"rectangular coordinates of {lon}, {lat} are {r}")
            e = astro.get_equ_from_rect(astro.rect_posn(*[float(3*c) for c in vec(lon, lat)]))
            ctx.check(apart((e.ra, e.dec), (lon, lat)) < 1e-7, 'from-rect', f"rectangular coordinates of {lon}, {lat} come back as {e}")
            l, m, n = astro.dir_cos(astro.hrz_posn(lon, lat))
            w = vec(lon, lat)
            ctx.check(np.allclose((l, m, n), (w[1], w[0], w[2]), atol=1e-9), 'direction-cosines', f"the direction cosines of az={lon}, alt={lat} are {(l, m, n)}")
            ctx.check(np.allclose(astro.hrz_posn(lon, lat).dir_cos(), (w[1], w[0], w[2]), atol=1e-9), 'direction-cosines', f"the direction cosines of az={lon}, alt={lat}")
        for elv in (-50.0, 0.0, 2133.0, 400e3):
            with ctx.case(lng=lon, lat=lat, elv=elv):
                a, f = 6378137.0, 1/298.257223563
                e2 = f*(2-f)
                N = a/math.sqrt(1-e2*math.sin(lat*RAD)**2)
                want = ((N+elv)*math.cos(lat*RAD)*math.cos(lon*RAD), (N+elv)*math.cos(lat*RAD)*math.sin(lon*RAD), (N*(1-e2)+elv)*math.sin(lat*RAD))
                r = astro.get_rect_from_geo(astro.geo_posn(lon, lat, elv))
                ctx.check(np.allclose((r.X, r.Y, r.Z), want, atol=1e-3, rtol=0), 'ecef', f"ECEF of {lon}, {lat}, {elv} is {r} instead of {want}")
                g = astro.get_geo_from_rect(r)
                ctx.check(apart((g.lng, g.lat), (lon, lat)) < 1e-8 and abs(g.elv-elv) < 1e-3, 'geo', f"{lon}, {lat}, {elv} comes back as {g}")
                s = GeographicalPosition((lon, lat, elv))
                ctx.check(np.allclose((s.ecef.X, s.ecef.Y, s.ecef.Z), want, atol=1e-3, rtol=0), 'site-ecef', f"ECEF of site {lon}, {lat}, {elv} is {s.ecef}")
                s = GeographicalPosition(want, format=GeographicalPosition.FORMAT_ECEF)
                ctx.check(apart((s.geo.lng, s.geo.lat), (lon, lat)) < 1e-8 and abs(s.geo.elv-elv) < 1e-3, 'site-geo', f"{lon}, {lat}, {elv} as site is {s}")
            ctx.state((lon, lat, elv))


# Rise, transit and set

def rst_check(ctx, jd, geo, what, rst, altaz, always, never, zenith, slack):
    """altaz(jd) -> (azimuth, altitude)."""
    if always or never:
        ctx.check(rst is None, 'rst-none', f"{what} never {'sets' if always else 'rises'} but rises at {getattr(rst, 'rise', None)}")
        return
    ctx.check(rst is not None, 'rst-missing', f"{what} rises and sets but has no times")
    m = 1/1440.0
    for name, t in (('rise', rst.rise), ('set', rst.set), ('transit', rst.transit)):
        ctx.check(jd-slack <= t <= jd+1+slack, 'rst-next', f"{what}: the next {name} after JD {jd} is {t}")
    a, b = altaz(rst.rise-2*m)[1], altaz(rst.rise+2*m)[1]
    ctx.check(a < 0 < b, 'rise', f"{what}: altitudes around the rise at JD {rst.rise} are {a}, {b}")
    a, b = altaz(rst.set-2*m)[1], altaz(rst.set+2*m)[1]
    ctx.check(a > 0 > b, 'set', f"{what}: altitudes around the set at JD {rst.set} are {a}, {b}")
    if not zenith:
        a, b, c = altaz(rst.transit-3*m)[1], altaz(rst.transit)[1], altaz(rst.transit+3*m)[1]
        ctx.check(a < b > c, 'transit', f"{what}: altitudes around the transit at JD {rst.transit} are {a}, {b}, {c}")
        az = altaz(rst.transit)[0]
        off = min(abs((az-180+180) % 360-180), abs((az+180) % 360-180))
        ctx.check(off*math.cos(b*RAD) < (1.5 if what.startswith('Moon') else 0.2), 'transit-azimuth', f"{what}: azimuth at the transit at JD {rst.transit} is {az}")


def u_rst(ctx, lat):
    geo = astro.geo_posn(-107.6, lat, 0.0)
    for dec in (-80.0, -62.0, -50.0, -40.0, -20.0, 0.0, 20.0, 40.0, 50.0, 62.0, 80.0):
        for ra in (range(0, 360, 45) if ctx.tier == 'quick' else range(0, 360, 15)):
            for jd in JDS[1:3]:
                if abs(90-abs(lat)-abs(dec)) < 1.5:
                    continue
                with ctx.case(latitude=lat, dec=dec, ra=ra, jd=jd):
                    e = astro.equ_posn(float(ra), dec)
                    app = astro.get_apparent_posn(e, jd)
                    rst = astro.get_object_rst(jd, geo, e)
                    top, low = 90-abs(lat-dec), abs(lat+dec)-90
                    rst_check(ctx, jd, geo, f"RA {ra}, dec {dec} at latitude {lat}", rst, lambda t: horizontal(app.ra, app.dec, geo.lng, lat, t), low > 0, top < 0, abs(lat-dec) < 1, 2/1440.0)
                ctx.step(8)
                ctx.outcome((rst is None))
                ctx.state((dec, ra, jd))


def u_bodies(ctx):
    if not hasattr(astro, 'SOLAR_SYSTEM_EPHEMERIS_TO_USE'):
        return
    astro.SOLAR_SYSTEM_EPHEMERIS_TO_USE = 'builtin'
    fns = {'Sun': (astro.get_solar_equ_coords, astro.get_solar_rst), 'Moon': (astro.get_lunar_equ_coords, astro.get_lunar_rst), 'Venus': (astro.get_venus_equ_coords, astro.get_venus_rst),
           'Mars': (astro.get_mars_equ_coords, astro.get_mars_rst), 'Jupiter': (astro.get_jupiter_equ_coords, astro.get_jupiter_rst), 'Saturn': (astro.get_saturn_equ_coords, astro.get_saturn_rst)}
    import urllib.error
    for name, (posn, rstf) in fns.items():
        for jd in JDS + (tuple(JDS[1]+i*2.7 for i in range(1, 12)) if name == 'Moon' else ()):
            with ctx.case(body=name, jd=jd):
                try:
                    p = posn(jd)
                except (urllib.error.URLError, OSError):
                    raise vmc.Skip()
                ctx.check(inrange(p.ra, p.dec), 'body-range', f"{name} is at {p}")
                e = p.to_ecl(jd)
                if name == 'Sun':
                    d = jd-2451545.0
                    g = (357.529+0.98560028*d)*RAD
                    L = 280.459+0.98564736*d+1.915*math.sin(g)+0.020*math.sin(2*g)-0.00569
                    eps = 23.439-0.00000036*d
                    want = ang(rx(eps).T @ vec(L, 0))
                    ctx.check(apart((p.ra, p.dec), want) < 0.03, 'sun', f"the Sun is at {p} at JD {jd} instead of {want}")
                ctx.check(abs(e.lat) < 8, 'ecliptic', f"{name} is at ecliptic latitude {e.lat}")
                q = PlanetaryPosition(name).apparent_equ(Time(jd, Time.FORMAT_JD))
                ctx.check(apart((p.ra, p.dec), (q.ra, q.dec)) < 1e-8, 'planetary', f"{name} is at {p} or {q}")
            ctx.state((name, jd))
            for lat in (34.068, -30.0, 0.0) if name in ('Sun', 'Jupiter', 'Moon') else (34.068, -30.0):
                with ctx.case(body=name, jd=jd, latitude=lat):
                    geo = astro.geo_posn(-107.6, lat, 0.0)
                    try:
                        rst = rstf(jd, geo)
                    except (urllib.error.URLError, OSError):
                        raise vmc.Skip()
                    def altaz(t):
                        # The parallax of the Moon is up to one degree
                        if name == 'Moon':
                            from astropy.coordinates import get_body, AltAz, EarthLocation
                            from astropy.time import Time as AT
                            import astropy.units as u
                            el = EarthLocation.from_geodetic(geo.lng*u.deg, geo.lat*u.deg)
                            tt = AT(t, format='jd', scale='utc')
                            aa = get_body('moon', tt, location=el, ephemeris='builtin').transform_to(AltAz(location=el, obstime=tt))
                            return aa.az.deg, aa.alt.deg
                        a = posn(float(t))
                        return horizontal(a.ra, a.dec, geo.lng, lat, float(t))
                    pos = posn(jd+0.5)
                    rst_check(ctx, jd, geo, f"{name} at latitude {lat}", rst, altaz, False, False, abs(lat-pos.dec) < 5, 90/1440.0 if name == 'Moon' else 3/1440.0)
                ctx.step(8)
                ctx.state((name, jd, lat))


def units(tier):
    out = {'galactic': u_galactic, 'ecliptic': u_ecliptic, 'precession': u_precession, 'sidereal': u_sidereal, 'geometry': u_geometry, 'bodies': u_bodies}
    for i, s in enumerate(SITES if tier == 'thorough' else SITES[:6]):
        out[f'horizontal-{i}'] = lambda ctx, s=s: u_horizontal(ctx, s)
    for lat in (-75.0, -45.0, -15.0, 0.0, 20.0, 34.068, 70.0):
        out[f'rst-{lat:g}'] = lambda ctx, lat=lat: u_rst(ctx, lat)
    return out
