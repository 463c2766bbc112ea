"""
A01 - times and angles mean the same in all of their representations.

All sexagesimal angles on a grid that contains every degree (hour), minute and second
boundary, all days of the leap second era, all zone offsets and all pairs of time formats
are converted by the real functions and compared with integer arithmetic.
"""
import copy
import datetime
import itertools
import math
import pickle
import warnings
from fractions import Fraction

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import numpy as np

from lsl import astro
from lsl.transform import Time
import vmc

BOUNDS = ('all angles of whole minutes with 12 values of the seconds, both signs, for all hours and for 46 degrees (thorough: all 360); all sums of two of 48 times; all days of 11 years (thorough: 1972-2026) at 6 times of the day; all zone offsets '
          'in quarter hours; all leap seconds so far and the days around them; all pairs of time formats for 40 instants; all combinations of faulty date and time strings')
ASSUMPTIONS = 'JDs are doubles, so they are compared to 50 microseconds; times on days with a leap second are only compared at midnight; years 1972-2026'
HANG_S = 200

SECS = (0.0, 1.0, 29.0, 30.0, 31.0, 58.0, 59.0, 59.5, 59.9996, 59.999999, 0.0004, 12.345678)
LEAPS = ('1972-01-01', '1972-07-01', '1973-01-01', '1974-01-01', '1975-01-01', '1976-01-01', '1977-01-01', '1978-01-01', '1979-01-01', '1980-01-01',
         '1981-07-01', '1982-07-01', '1983-07-01', '1985-07-01', '1988-01-01', '1990-01-01', '1991-01-01', '1992-07-01', '1993-07-01', '1994-07-01',
         '1996-01-01', '1997-07-01', '1999-01-01', '2006-01-01', '2009-01-01', '2012-07-01', '2015-07-01', '2017-01-01')
EPOCH = datetime.date(1970, 1, 1)
LEAP_DAYS = [(datetime.date.fromisoformat(d)-EPOCH).days for d in LEAPS]      # days since 1970 that start with a new TAI-UTC
STRETCHED = {d-1 for d in LEAP_DAYS[1:]}


def tai_utc(day):
    return 9 + sum(1 for d in LEAP_DAYS if d <= day)


def near(a, b, tol):
    return abs(float(a)-float(b)) <= tol


# Angles

def u_dms(ctx, deg0, deg1):
    for d in range(deg0, deg1):
        for m in range(60):
            with ctx.case(degrees=d, minutes=m):
                for neg in (False, True):
                    for s in SECS:
                        want = d + m/60.0 + s/3600.0
                        want = -want if neg else want
                        x = astro.dms(neg, d, m, s)
                        ctx.check(near(x.to_deg(), want, 1e-12*max(1, abs(want))), 'dms-to-deg', f"dms({neg},{d},{m},{s}) is {x.to_deg()!r} degrees")
                        ctx.check(near(x.to_rad(), want*math.pi/180, 1e-13), 'dms-to-rad', f"dms({neg},{d},{m},{s}) is {x.to_rad()!r} radians")
                        for name, y in (('deg_to_dms', astro.deg_to_dms(want)), ('rad_to_dms', astro.rad_to_dms(math.radians(want)))):
                            ctx.check(0 <= y.minutes <= 59 and 0 <= y.seconds < 60 and y.degrees >= 0 and y.degrees == int(y.degrees) and y.minutes == int(y.minutes),
                                      'dms-range', f"{name} of {want} is {y.neg},{y.degrees},{y.minutes},{y.seconds}")
                            ctx.check(near(y.to_deg(), want, 1e-10), 'dms-round-trip', f"{name} of {want} is {y.neg},{y.degrees},{y.minutes},{y.seconds}")
                        if d < 360:
                            y = x.to_hms()
                            ctx.check(near((y.to_deg()-want+180) % 360-180, 0, 1e-9), 'dms-to-hms', f"dms({neg},{d},{m},{s}) as hms is {y.hours},{y.minutes},{y.seconds}")
                ctx.step(len(SECS)*2)
            ctx.state(('dms', d, m))


def u_hms(ctx):
    for h in range(24):
        for m in range(60):
            with ctx.case(hours=h, minutes=m):
                for s in SECS:
                    secs = h*3600 + m*60 + s
                    want = secs/240.0
                    x = astro.hms(h, m, s)
                    ctx.check(near(x.to_deg(), want, 1e-10), 'hms-to-deg', f"hms({h},{m},{s}) is {x.to_deg()!r} degrees")
                    ctx.check(near(x.to_rad(), want*math.pi/180, 1e-12), 'hms-to-rad', f"hms({h},{m},{s}) is {x.to_rad()!r} radians")
                    ctx.check(near(x.to_sec(), secs, 1e-8), 'hms-to-sec', f"hms({h},{m},{s}) is {x.to_sec()!r} seconds")
                    ctx.check(near(astro.deg_to_sec(want), secs, 1e-8), 'deg-to-sec', f"{want} degrees is {astro.deg_to_sec(want)!r} seconds")
                    ctx.check(near(x.to_dms().to_deg(), want, 1e-10), 'hms-to-dms', f"hms({h},{m},{s}) as dms is {x.to_dms()}")
                    for turns in (0, -1, 1):
                        y = astro.deg_to_hms(want + 360.0*turns)
                        ctx.check(0 <= y.hours <= 23 and 0 <= y.minutes <= 59 and 0 <= y.seconds < 60, 'hms-range', f"deg_to_hms of {want+360.0*turns} is {y.hours},{y.minutes},{y.seconds}")
                        ctx.check(near((y.to_deg()-want+180) % 360-180, 0, 1e-9), 'hms-round-trip', f"deg_to_hms of {want+360.0*turns} is {y.hours},{y.minutes},{y.seconds}")
                    y = astro.rad_to_hms(math.radians(want))
                    ctx.check(near((y.to_deg()-want+180) % 360-180, 0, 1e-9), 'hms-rad', f"rad_to_hms of {want} degrees is {y.hours},{y.minutes},{y.seconds}")
                ctx.step(len(SECS))
            ctx.state(('hms', h, m))


def u_sums(ctx):
    times = [(h, m, s) for h in (0, 1, 7, 12, 22, 23) for m in (0, 59) for s in (0.0, 0.25, 30.0, 59.75)]
    for a in times:
        with ctx.case(first=a):
            for b in times:
                want = (Fraction(a[0]*3600+a[1]*60)+Fraction(a[2])+b[0]*3600+b[1]*60+Fraction(b[2])) % 86400
                src, dst = astro.hms(*a), astro.hms(*b)
                out = astro.add_hms(src, dst)
                def same(x, what):
                    ctx.check(0 <= x.hours <= 23 and 0 <= x.minutes <= 59 and 0 <= x.seconds < 60, 'sum-range', f"{what} of {a} and {b} is {x.hours},{x.minutes},{x.seconds}")
                    err = (x.hours*3600+x.minutes*60+x.seconds-float(want)+43200) % 86400-43200
                    ctx.check(abs(err) < 1e-6, 'sum', f"{what} of {a} and {b} is {x.hours},{x.minutes},{x.seconds}")
                same(out, 'add_hms')
                same(dst, 'the destination of add_hms')
                ctx.check((src.hours, src.minutes, src.seconds) == a, 'sum-source', f"adding {a} to {b} changes the source")
                x = astro.hms(*a)
                x += astro.hms(*b)
                same(x, '+=')
                for sign in (1, -1):
                    secs = sign*(b[0]*3600+b[1]*60+b[2])
                    x = astro.add_secs_hms(astro.hms(*a), secs)
                    w = (a[0]*3600+a[1]*60+a[2]+secs) % 86400
                    ctx.check(0 <= x.hours <= 23 and abs((x.hours*3600+x.minutes*60+x.seconds-w+43200) % 86400-43200) < 1e-6, 'add-secs', f"{a} and {secs} s is {x.hours},{x.minutes},{x.seconds}")
                ctx.step(4)
        ctx.state(a)
    for n in range(-60, 61):
        for f in (0.0, 0.25, 0.5):
            with ctx.case(hours=n+f):
                v = astro.range_hours(n+f)
                ctx.check(0 <= v < 24 and (Fraction(v)-Fraction(n+f)) % 24 == 0, 'range-hours', f"range_hours({n+f}) is {v}")
                v = astro.range_degrees(15*(n+f))
                ctx.check(0 <= v < 360 and (Fraction(v)-Fraction(15*(n+f))) % 360 == 0, 'range-degrees', f"range_degrees({15*(n+f)}) is {v}")
            ctx.state((n, f))


def u_order(ctx):
    vals = [astro.dms(n, d, m, s) for n in (False, True) for d in (0, 1, 15) for m in (0, 30) for s in (0.0, 1.0)]
    vals += [astro.hms(h, m, s) for h in (0, 1) for m in (0, 2) for s in (0.0, 4.0)]
    vals += [0, 15, -15, 0.5, -1.0]
    deg = [v if isinstance(v, (int, float)) else v.to_deg() for v in vals]
    for (a, x), (b, y) in itertools.product(list(zip(vals, deg)), repeat=2):
        if isinstance(a, (int, float)):
            continue
        with ctx.case(a=str(a), b=str(b)):
            got = (a < b, a <= b, a == b, a != b, a >= b, a > b)
            ctx.equal(got, (x < y, x <= y, x == y, x != y, x >= y, x > y), 'angle-order', f"the order of {a!r} and {b!r}")
        ctx.state((str(a), str(b), type(a).__name__, type(b).__name__))
    for v in vals[:-5]:
        with ctx.case(value=repr(v)):
            w = pickle.loads(pickle.dumps(v))
            ctx.equal((type(w), w.to_deg(), vars(w)), (type(v), v.to_deg(), vars(v)), 'angle-pickle', f"the pickle of {v!r}")
            if isinstance(v, astro.dms):
                ctx.equal((-v).to_deg(), -v.to_deg(), 'dms-negative', f"the negative of {v!r}")


def u_ranges(ctx):
    dms, hms = astro.dms, astro.hms
    def attempt(fn):
        try:
            return fn()
        except ValueError:
            return None
    for f, lo, hi, vals in ((lambda v: dms(False, v, 0, 0.0), 0, 359, (-1, 0, 359, 360)),
                            (lambda v: dms(False, 0, v, 0.0), 0, 59, (-1, 0, 59, 60)), (lambda v: dms(False, 0, 0, v), 0, 59.999, (-0.1, 0.0, 59.999, 60.0)),
                            (lambda v: hms(v, 0, 0.0), 0, 23, (-1, 0, 23, 24)), (lambda v: hms(0, v, 0.0), 0, 59, (-1, 0, 59, 60)), (lambda v: hms(0, 0, v), 0, 59.999, (-0.1, 0.0, 59.999, 60.0)),
                            (lambda v: astro.date(2000, v), 1, 12, (0, 1, 12, 13)), (lambda v: astro.date(2000, 1, v), 1, 31, (0, 1, 31, 32)),
                            (lambda v: astro.date(2000, 1, 1, v), 0, 23, (-1, 0, 23, 24)), (lambda v: astro.date(2000, 1, 1, 0, v), 0, 59, (-1, 0, 59, 60)),
                            (lambda v: astro.date(2000, 1, 1, 0, 0, v), 0, 59.999, (-0.1, 0.0, 59.999, 60.0)),
                            (lambda v: astro.zonedate(2000, v), 1, 12, (0, 1, 12, 13)), (lambda v: astro.zonedate(2000, 1, v), 1, 31, (0, 1, 31, 32)),
                            (lambda v: astro.zonedate(2000, 1, 1, v), 0, 23, (-1, 0, 23, 24)), (lambda v: astro.zonedate(2000, 1, 1, 0, v), 0, 59, (-1, 0, 59, 60)),
                            (lambda v: astro.zonedate(2000, 1, 1, 0, 0, v), 0, 59.999, (-0.1, 0.0, 59.999, 60.0))):
        for i, v in enumerate(vals):
            with ctx.case(value=v, lo=lo, hi=hi):
                ctx.equal(attempt(lambda: f(v)) is not None, lo <= v <= hi, 'range-check', f"whether {v} is accepted where [{lo}, {hi}] is allowed")
            ctx.state((lo, hi, v, i))
    # Positions: (class, attribute, index, lowest, highest, is the highest allowed)
    one = dms(True, 10, 30, 0.0)
    for cls, attr, idx, lo, lo_ok, hi, hi_ok in (
            (astro.hrz_posn, 'az', 0, 0, True, 360, False), (astro.hrz_posn, 'alt', 1, -90, True, 90, True),
            (astro.equ_posn, 'ra', 0, 0, True, 360, False), (astro.equ_posn, 'dec', 1, -90, True, 90, True),
            (astro.gal_posn, 'l', 0, -360, True, 360, False), (astro.gal_posn, 'b', 1, -90, True, 90, True),
            (astro.ecl_posn, 'lat', 1, -90, True, 90, True),
            (astro.geo_posn, 'lng', 0, -360, False, 360, False), (astro.geo_posn, 'lat', 1, -90, True, 90, True)):
        for v in (lo-1e-6, lo, lo+1e-6, 1.5, hi-1e-6, hi, hi+1e-6):
            ok = lo < v < hi or (v == lo and lo_ok) or (v == hi and hi_ok)
            with ctx.case(cls=cls.__name__, attribute=attr, value=v):
                args = [0.0, 0.0]
                args[idx] = v
                p = attempt(lambda: cls(*args))
                ctx.equal(p is not None, ok, 'posn-range', f"whether {cls.__name__} accepts {attr} = {v}")
                q = cls(1.0, 2.0)
                def by_attr():
                    setattr(q, attr, v)
                    return True
                r = cls(1.0, 2.0)
                def by_index():
                    r[idx] = v
                    return True
                ctx.equal((attempt(by_attr), attempt(by_index)), ((True, True) if ok else (None, None)), 'posn-set', f"whether {attr} = {v} may be set")
                for x, what in ((p, 'constructor'), (q, 'attribute'), (r, 'index')):
                    if x is None:
                        continue
                    want = [0.0, 0.0] if x is p else [1.0, 2.0]
                    if ok:
                        want[idx] = v
                    ctx.equal((x[0], x[1]), tuple(want), 'posn-value', f"{cls.__name__} after {what}")
                    y = pickle.loads(pickle.dumps(x))
                    ctx.check((y[0], y[1]) == (x[0], x[1]) and type(y) is cls, 'posn-pickle', f"the pickle of {x!r}")
                    y = copy.copy(x)
                    y[idx] = 3.25
                    ctx.check((x[0], x[1]) == tuple(want) and y[idx] == 3.25, 'posn-copy', f"a changed copy of {x!r}")
            ctx.state((cls.__name__, attr, v))
        if cls not in (astro.hrz_posn,):
            with ctx.case(cls=cls.__name__, attribute=attr, value='dms'):
                args = [0.0, 0.0]
                if (cls, attr) == (astro.equ_posn, 'ra'):
                    args[idx], want = hms(5, 30, 0.0), 82.5
                else:
                    args[idx], want = one, -10.5
                ctx.equal(cls(*args)[idx], want, 'posn-sexagesimal', f"{cls.__name__} from {args[idx]!r}")
                x = cls(*args)
                f = x.format()
                ctx.check(near(f[idx].to_deg(), want, 1e-10), 'posn-format', f"the format of {x!r} is {f!r}")
    for alt in (-90, -45, 0, 30.5, 90):
        with ctx.case(altitude=alt):
            p = astro.hrz_posn(10.0, float(alt))
            ctx.equal(p.zen(), 90.0-alt, 'zenith', 'the zenith angle')
            q = astro.hrz_posn(10.0, 0.0)
            q.zen(90.0-alt)
            ctx.equal((q.alt, q.az), (float(alt), 10.0), 'zenith-set', 'the altitude after the zenith angle is set')
    for az in range(0, 360, 5):
        with ctx.case(azimuth=az):
            want = 'NESW'[((az+45) % 360)//90]
            ctx.equal(astro.hrz_to_nswe(astro.hrz_posn(float(az), 0.0)), want, 'nswe', f"the direction of azimuth {az}")


# Calendar

TOD = ((0, 0, 0.0), (0, 0, 0.0004), (11, 59, 59.5), (12, 0, 0.0), (17, 5, 1.9996), (23, 59, 59.9996))


def u_calendar(ctx, y0, y1):
    day = datetime.date(y0, 1, 1)
    while day.year < y1:
        n = (day-EPOCH).days
        with ctx.case(date=str(day)):
            for h, m, s in TOD:
                if n in STRETCHED and (h, m, s) != TOD[0]:
                    continue
                d = astro.date(day.year, day.month, day.day, h, m, s)
                want = 2440587.5 + n + (h*3600+m*60+s)/86400.0
                jd = d.to_jd()
                ctx.check(near(jd, want, 6e-10), 'julian-day', f"{d} is JD {jd!r} instead of {want!r}")
                ctx.equal(astro.get_day_of_week(d), (n+4) % 7, 'day-of-week', f"the day of the week of {d}")
                ctx.step()
            d = astro.date(day.year, day.month, day.day, 0, 0, 0.0)
            back = astro.get_date(2440587.5+n)
            ctx.equal((back.years, back.months, back.days, back.hours, back.minutes, back.seconds), (day.year, day.month, day.day, 0, 0, 0.0), 'date', f"the date of JD {2440587.5+n}")
            if n not in STRETCHED:
                jd = 2440587.5+n+0.75
                back = astro.get_date(jd)
                ctx.equal((back.years, back.months, back.days, back.hours, back.minutes, back.seconds), (day.year, day.month, day.day, 18, 0, 0.0), 'date', f"the date of JD {jd}")
                ctx.equal(back.to_jd(), jd, 'date-round-trip', f"the JD of {back}")
        ctx.state(n)
        day += datetime.timedelta(days=1)


def u_minutes(ctx):
    """Julian days next to every minute of the day."""
    for day in (datetime.date(1999, 12, 31), datetime.date(2016, 2, 29), datetime.date(2017, 7, 14)):
        n = (day-EPOCH).days
        with ctx.case(date=str(day)):
            for minute in range(1440):
                for off in (-0.01, -6e-4, -4e-4, -2e-4, 0.0, 2e-4, 6e-4, 0.25, 29.9999, 59.5):
                    s = minute*60+off
                    if s < 0:
                        continue
                    jd = 2440587.5 + n + s/86400.0
                    d = astro.get_date(jd)
                    ctx.step()
                    ctx.check(0 <= d.hours < 24 and 0 <= d.minutes < 60 and 0 <= d.seconds < 60, 'date-fields', f"JD {jd!r} is {d.hours} h {d.minutes} m {d.seconds} s")
                    got = (datetime.date(d.years, d.months, d.days)-day).days*86400 + d.hours*3600+d.minutes*60+d.seconds
                    ctx.check(abs(got-s) < 1e-4, 'date', f"JD {jd!r} is {got!r} instead of {s!r} seconds into the day")
                    ctx.check(near(d.to_jd(), jd, 1e-9), 'date-round-trip', f"the JD of the date of {jd!r} is {d.to_jd()!r}")
                ctx.state((n, minute))


def u_zone(ctx):
    dates = [datetime.date(*v) for v in ((2024, 1, 1), (2024, 2, 28), (2024, 2, 29), (2023, 2, 28), (2023, 12, 31), (1999, 12, 31), (2000, 3, 1))]
    for day in dates:
        n = (day-EPOCH).days
        for h, m, s in TOD:
            with ctx.case(date=str(day), time=(h, m, s)):
                for off in range(-43200, 43201, 900):
                    sec = n*86400 + h*3600 + m*60 + int(s)
                    want = datetime.datetime(1970, 1, 1)+datetime.timedelta(seconds=sec+off)
                    utc = astro.date(day.year, day.month, day.day, h, m, s)
                    zone = utc.to_zone(off)
                    got = (zone.years, zone.months, zone.days, zone.hours, zone.minutes)
                    ctx.check(got == (want.year, want.month, want.day, want.hour, want.minute) and near(zone.seconds, want.second+s-int(s), 1e-9) and 0 <= zone.seconds < 60 and zone.gmtoff == off,
                              'to-zone', f"{utc} at {off:+d} s is {zone}")
                    back = zone.to_date()
                    ctx.check((back.years, back.months, back.days, back.hours, back.minutes) == (day.year, day.month, day.day, h, m) and near(back.seconds, s, 1e-9) and 0 <= back.seconds < 60,
                              'from-zone', f"{zone} is {back} instead of {utc}")
                    if off % 10800 == 0:
                        ctx.check(near(zone.to_jd(), utc.to_jd(), 6e-10), 'zone-jd', f"{zone} is JD {zone.to_jd()!r} instead of {utc.to_jd()!r}")
                ctx.step(97)
            ctx.state((str(day), h, m, s))
    order = [astro.date(2024, 1, 1, h, 0, s) for h in (0, 1) for s in (0.0, 0.5)] + [astro.zonedate(2024, 1, 1, h, 0, 0.0, off) for h in (0, 1, 2) for off in (0, 3600, 7200)]
    for a, b in itertools.product(order, repeat=2):
        with ctx.case(a=str(a), b=str(b)):
            x, y = [v.hours*3600+v.seconds-getattr(v, 'gmtoff', 0) for v in (a, b)]
            ctx.equal((a < b, a <= b, a == b, a != b, a >= b, a > b), (x < y, x <= y, x == y, x != y, x >= y, x > y), 'date-order', f"the order of {a} and {b}")


def u_load(ctx):
    dates = {'2024-02-29': (2024, 2, 29), '1999-12-31': (1999, 12, 31), '2024-13-01': None, '2024-00-01': None, '2024-01-32': None, '2024-01-00': None, '2024-01': None, 'x-01-01': None, '2024-x-01': None, '2024-01-x': None, '': None}
    times = {'00:00:00': (0, 0, 0.0), '23:59:59.9996': (23, 59, 59.9996), '24:00:00': None, '-1:00:00': None, '00:60:00': None, '00:00:60': None, '00:00:-0.5': None, '00:00': None, 'x:00:00': None, '00:x:00': None, '00:00:x': None, '': None}
    for (ds, dv), (ts, tv) in itertools.product(dates.items(), times.items()):
        with ctx.case(date=ds, time=ts):
            d = astro.date(2001, 2, 3, 4, 5, 6.5)
            if dv is None or tv is None:
                ctx.raises(ValueError, lambda: d.load(ds, ts), 'load-error')
                want = (2001, 2, 3, 4, 5, 6.5)
            else:
                d.load(ds, ts)
                want = dv+tv
            ctx.equal((d.years, d.months, d.days, d.hours, d.minutes, d.seconds), want, 'load', f"the date after loading {ds!r} {ts!r}")
        ctx.state((ds, ts))


# Time scales

def u_scales(ctx):
    days = sorted({d+k for d in LEAP_DAYS for k in (-30, -2, -1, 0, 1, 30) if d+k >= LEAP_DAYS[0]} | set(range(LEAP_DAYS[0], 20400, 97)))
    for n in days:
        for frac in (0.0, 0.25, 0.999):
            if frac and n in STRETCHED:
                continue
            with ctx.case(day=n, fraction=frac):
                jd = 2440587.5+n+frac
                off = tai_utc(n)
                eps = 6e-10
                ctx.equal(astro.leap_secs(jd), float(off), 'leap-seconds', f"the leap seconds at JD {jd}")
                tai = astro.utc_to_tai(jd)
                ctx.check(near(tai, jd+off/86400.0, eps), 'utc-to-tai', f"UTC JD {jd} is TAI JD {tai!r}")
                ctx.check(near(astro.tai_to_utc(tai), jd, eps), 'tai-to-utc', f"TAI JD {tai} is UTC JD {astro.tai_to_utc(tai)!r} instead of {jd!r}")
                mjd = astro.utcjd_to_taimjd(jd)
                ctx.check(near(mjd, tai-2400000.5, eps), 'utcjd-to-taimjd', f"UTC JD {jd} is TAI MJD {mjd!r}")
                ctx.check(near(astro.taimjd_to_utcjd(mjd), jd, eps), 'taimjd-to-utcjd', f"TAI MJD {mjd!r} is UTC JD {astro.taimjd_to_utcjd(mjd)!r}")
                tt = astro.utc_to_tt(jd)
                ctx.check(near(tt, jd+(off+32.184)/86400.0, eps), 'utc-to-tt', f"UTC JD {jd} is TT JD {tt!r}")
                ctx.check(near(astro.tai_to_tt(tai), tt, eps) and near(astro.tt_to_tai(tt), tai, eps) and near(astro.tt_to_utc(tt), jd, eps), 'tt', f"TT of UTC JD {jd}")
                tdb = astro.tt_to_tdb(tt)
                ctx.check(near(tdb, tt, 3e-8), 'tt-to-tdb', f"TT JD {tt!r} is TDB JD {tdb!r}")
                unix = (n+frac)*86400.0
                ctx.check(near(astro.utcjd_to_unix(jd), unix, 5e-5) and near(astro.get_timet_from_julian(jd), unix, 5e-5), 'unix', f"the UNIX time of JD {jd}")
                ctx.check(near(astro.unix_to_utcjd(unix), jd, eps) and near(astro.get_julian_from_timet(unix), jd, eps), 'from-unix', f"the JD of UNIX time {unix}")
                ctx.check(near(astro.unix_to_taimjd(unix), mjd, eps) and near(astro.taimjd_to_unix(mjd), unix, 5e-5), 'unix-tai', f"the TAI MJD of UNIX time {unix}")
                ctx.check(near(astro.mjd_to_jd(astro.jd_to_mjd(jd)), jd, 0) and near(astro.jd_to_mjd(jd), jd-2400000.5, 0), 'mjd', f"the MJD of JD {jd}")
                ctx.check(near(astro.jd_to_sec(frac), frac*86400, 1e-9) and near(astro.sec_to_jd(frac*86400), frac, 1e-14), 'days-seconds', f"{frac} days in seconds")
            ctx.step(12)
            ctx.state((n, frac))
    with ctx.case(limits=True):
        ctx.raises(ValueError, lambda: astro.leap_secs(2441317.4), 'leap-limit')
        ctx.raises(ValueError, lambda: astro.jd_to_mjd(2400000.4), 'mjd-limit')
        ctx.raises(ValueError, lambda: astro.mjd_to_jd(-0.1), 'mjd-limit')


FS = 196000000


def u_time(ctx):
    """All ways to give a time and all ways to ask for it."""
    instants = [(n, ms) for n in ((datetime.date(2013, 1, 8)-EPOCH).days, (datetime.date(2016, 2, 29)-EPOCH).days, (datetime.date(1999, 12, 31)-EPOCH).days, (datetime.date(2024, 6, 30)-EPOCH).days)
                for ms in (0, 1, 500, 43199999, 43200000, 61001, 86399000, 86399500, 86399999)]
    F = Time
    for n, ms in instants:
        jd = 2440587.5 + n + ms/86400000.0
        mjd = 40587 + n + ms/86400000.0
        off = tai_utc(n)
        unix = n*86400 + ms/1000.0
        dt = datetime.datetime(1970, 1, 1)+datetime.timedelta(days=n, milliseconds=ms)
        iso = dt.strftime('%Y-%m-%d %H:%M:%S.')+f"{ms%1000:03d}"
        samples = (n*86400000+ms)*(FS//1000)
        read = {'utc_jd': (jd, 6e-10), 'utc_mjd': (mjd, 6e-10), 'utc_timet': (unix, 5e-5), 'tai_jd': (jd+off/86400.0, 6e-10), 'tai_mjd': (mjd+off/86400.0, 6e-10), 'tai_timet': (unix+off, 5e-5)}
        give = {'utc_jd': (jd, F.FORMAT_JD, F.TIMESYS_UTC), 'utc_mjd': (mjd, F.FORMAT_MJD, F.TIMESYS_UTC), 'utc_timet': (unix, F.FORMAT_TIMET, F.TIMESYS_UTC), 'utc_py_date': (dt, F.FORMAT_PY_DATE, F.TIMESYS_UTC),
                'utc_dp': (samples, F.FORMAT_DP, F.TIMESYS_UTC), 'utc_mcs': ((40587+n, ms), F.FORMAT_MCS, F.TIMESYS_UTC), 'utc_str': (iso, F.FORMAT_STR, F.TIMESYS_UTC),
                'tai_jd': (jd+off/86400.0, F.FORMAT_JD, F.TIMESYS_TAI), 'tai_mjd': (mjd+off/86400.0, F.FORMAT_MJD, F.TIMESYS_TAI), 'tai_timet': (unix+off, F.FORMAT_TIMET, F.TIMESYS_TAI)}
        for name, (value, fmt, sys_) in give.items():
            with ctx.case(day=n, ms=ms, given=name):
                one = Time(value, fmt, sys_)
                two = Time(50000.0)
                setattr(two, name, value)
                three = Time(one.astropy, F.FORMAT_ASTROPY)
                for t, how in ((one, 'constructor'), (two, 'attribute'), (three, 'astropy')):
                    for out, (want, tol) in read.items():
                        ctx.check(near(getattr(t, out), want, tol), 'time', f"{out} of {name}={value!r} ({how}) is {getattr(t, out)!r} instead of {want!r}")
                    ctx.equal(tuple(t.utc_mcs), (40587+n, ms), 'time-mcs', f"utc_mcs of {name}={value!r} ({how})")
                    got = t.utc_dp
                    # DP samples are kept exactly when they are given exactly, or to the precision of a double precision JD
                    ctx.check(isinstance(got, int) and abs(got-samples) <= (0 if name == 'utc_dp' else FS//10000), 'time-dp', f"utc_dp of {name}={value!r} ({how}) is {got} instead of {samples}")
                    ctx.check(abs((t.utc_py_date-dt).total_seconds()) < 1e-4, 'time-date', f"utc_py_date of {name}={value!r} ({how}) is {t.utc_py_date}")
                    ctx.equal(t.utc_str, iso, 'time-str', f"utc_str of {name}={value!r} ({how})")
                    ctx.equal(str(t), iso, 'time-str', f"str of {name}={value!r} ({how})")
                ctx.check(one == two and hash(one) == hash(two) and not one != two and one <= two and not one < two, 'time-equal', f"two times given as {name}={value!r}")
                ctx.step(10)
            ctx.state((n, ms, name))
        for extra in (1, 7, FS-1, FS//2+1):
            with ctx.case(day=n, ms=ms, samples=extra):
                ctx.equal(Time(samples+extra, F.FORMAT_DP).utc_dp, samples+extra, 'time-dp-exact', 'the DP samples of a time')
        for f in (0.4, 0.6):
            with ctx.case(day=n, ms=ms+f, given='utc_mcs'):
                want = (n*86400000+ms+(1 if f > 0.5 else 0))
                ctx.equal(tuple(Time((40587+n, ms+f), F.FORMAT_MCS).utc_mcs), (40587+want//86400000, want % 86400000), 'time-mcs-round', f"the MCS time nearest to {ms+f} ms")
    times = [Time(50000.0+k) for k in (0, 1e-6, 0.5, 1)]
    for (i, a), (j, b) in itertools.product(enumerate(times), repeat=2):
        with ctx.case(order=(i, j)):
            ctx.equal((a < b, a <= b, a == b, a != b, a >= b, a > b), (i < j, i <= j, i == j, i != j, i >= j, i > j), 'time-order', 'the order of two times')
    for fmt, sys_ in itertools.product(list(F.known_formats)+['nonsense'], list(F.known_timesys)+['nonsense']):
        with ctx.case(fmt=fmt, timesys=sys_):
            if fmt == 'nonsense' or sys_ == 'nonsense' or (sys_ == F.TIMESYS_TAI and fmt in (F.FORMAT_PY_DATE, F.FORMAT_STR, F.FORMAT_DP, F.FORMAT_MCS)):
                ctx.raises(ValueError, lambda: Time(50000, fmt, sys_), 'time-format')
            else:
                for bad in (None, [1], 'junk' if fmt != F.FORMAT_STR else 3):
                    ctx.raises((TypeError, ValueError), lambda: Time(bad, fmt, sys_), 'time-type')


def units(tier):
    out = {}
    step = 8 if tier == 'quick' else 45
    if tier == 'quick':
        ranges = [(0, 24), (44, 46), (88, 92), (178, 182), (268, 272), (350, 360)]
    else:
        ranges = [(i, min(i+step, 360)) for i in range(0, 360, step)]
    for a, b in ranges:
        out[f'dms-{a}'] = lambda ctx, a=a, b=b: u_dms(ctx, a, b)
    out.update({'hms': u_hms, 'sums': u_sums, 'order': u_order, 'ranges': u_ranges, 'minutes': u_minutes, 'zone': u_zone, 'load': u_load, 'scales': u_scales, 'time': u_time})
    years = ((1972, 1974), (1999, 2001), (2011, 2013), (2016, 2018), (2022, 2025)) if tier == 'quick' else tuple((y, y+5) for y in range(1972, 2027, 5))
    for a, b in years:
        out[f'calendar-{a}'] = lambda ctx, a=a, b=b: u_calendar(ctx, a, min(b, 2027))
    return out
