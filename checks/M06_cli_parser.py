"""
M06 - command line values mean what they say or are refused.

All values of the formats of lsl.misc.parser within the bounds are written as strings,
parsed and compared with the value that they were written from; all strings over a small
alphabet are parsed and compared with a reference that says which of them are values.
"""
import argparse
import itertools
import math
import re
from datetime import date as Date, timedelta
from fractions import Fraction

from lsl.misc import parser as P
import vmc

BOUNDS = 'all strings of up to 4 (quick) or 5 (thorough) characters over 11-character alphabets; every second of the day and every day of 1972-2060; all pairs of frequency or wavelength units; all lists of up to 3 items'
ASSUMPTIONS = 'which forms of a number (underscores, white space, digits of other scripts) are numbers is as in Python'
HANG_S = 300

REFUSED = argparse.ArgumentTypeError
C = 299792458


def parse(fn, text):
    """(True, value) or (False, None): nothing but an argument error may be raised."""
    try:
        return True, fn(text)
    except REFUSED:
        return False, None
    except Exception as e:
        raise vmc.Fail('%s:raised' % fn.__name__, '%s(%r) raised %s: %s instead of reporting the argument' % (fn.__name__, text, type(e).__name__, e))


def expect(ctx, fn, text, want, key, same=None):
    """want is None if the text has to be refused, or a tuple of the one value."""
    ctx.step()
    ok, got = parse(fn, text)
    if want is None:
        ctx.check(not ok, key + ':accepted', '%s(%r) is %r but it should be refused' % (fn.__name__, text, got))
        return
    ctx.check(ok, key + ':refused', '%s(%r) was refused but it is %r' % (fn.__name__, text, want[0]))
    good = (same or (lambda a, b: a == b and type(a) is type(b)))(got, want[0])
    ctx.check(good, key + ':value', '%s(%r) is %r but it should be %r' % (fn.__name__, text, got, want[0]))


def strings(alphabet, n):
    for k in range(n + 1):
        for s in itertools.product(alphabet, repeat=k):
            yield ''.join(s)


def unit_numbers(ctx):
    n = 4 if ctx.tier == 'quick' else 5
    with ctx.case(what='integers and floats'):
        for s in strings('01 9-+.e_na', n):
            try:
                i = int(s, 10)
            except ValueError:
                i = None
            try:
                f = float(s)
            except ValueError:
                f = None
            ctx.state((i is None, f is None, (f or 0) > 0))
            expect(ctx, P.positive_or_zero_int, s, (i,) if i is not None and i >= 0 else None, 'int0')
            expect(ctx, P.positive_int, s, (i,) if i is not None and i > 0 else None, 'int')
            expect(ctx, P.positive_or_zero_float, s, (f,) if f is not None and f >= 0 else None, 'float0')
            expect(ctx, P.positive_float, s, (f,) if f is not None and f > 0 else None, 'float')
        for s in ('nan', '-nan', 'NaN', '-inf', '-1e-320'):
            for fn in (P.positive_or_zero_float, P.positive_float):
                expect(ctx, fn, s, None, 'float')
        for s in ('inf', '1e-320', '1e400'):
            for fn in (P.positive_or_zero_float, P.positive_float):
                expect(ctx, fn, s, (float(s),), 'float')


# units and what they are in Hz or m
UNITS = {'Hz': ('f', 1), 'kHz': ('f', 10**3), 'MHz': ('f', 10**6), 'GHz': ('f', 10**9), 'm': ('w', 1), 'cm': ('w', Fraction(1, 100)), 'km': ('w', 1000), 'mm': ('w', Fraction(1, 1000)), 'AA': ('w', Fraction(1, 10**10)), 'Angstrom': ('w', Fraction(1, 10**10))}
VALUES = ['1', '10', '45.5', '74.03', '.5', '2.', '3e1', '6.1e-2', '88', '100.']


def physical(kind, text, unit):
    """Value in Hz or m of the number in units."""
    v = Fraction(text)
    if unit is None:
        return v * (10**6 if kind == 'f' else 1)
    k, scale = UNITS[unit]
    v *= scale
    return v if k == kind else C / v


def near(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return not isinstance(a, list) and abs(float(a) - float(b)) <= 1e-12 * abs(float(b))


def unit_frequency(ctx):
    for kind, single, rng in (('f', P.frequency, P.frequency_range), ('w', P.wavelength, P.wavelength_range)):
        def go(text, want):
            expect(ctx, single, text, None if want is None or isinstance(want, list) else (want,), single.__name__, near)
            expect(ctx, rng, text, (want,) if isinstance(want, list) else None, rng.__name__, near)
        with ctx.case(kind=kind):
            one = []
            for v in VALUES:
                for u in [None] + list(UNITS):
                    for gap in ('', ' '):
                        if u is None and gap:
                            continue
                        ctx.state((kind, u))
                        go(v + gap + (u or ''), physical(kind, v, u))
            for u1, u2 in itertools.product([None] + list(UNITS), repeat=2):
                for v1, v2 in itertools.product(VALUES[:6], repeat=2):
                    a, b = v1 + (u1 or ''), v2 + (u2 or '')
                    if u2 is None and u1 is not None:
                        want = None     # the unit of the second value is not known
                    else:
                        want = sorted([physical(kind, v1, u1 or u2), physical(kind, v2, u2)])
                    go(a + '~' + b, want)
            for v in ('', '~', 'MHz', '10~', '~10', '10MHz~', '~10MHz', '10~20~30', '10 s', '10 parsnips', 'x', '1~x', '10 s~20 s', '10~20 s', '10~20 K', '10-20', '10 MHz 20 MHz', '1..2', '10MHz~20s'):
                go(v, None)


def unit_dates(ctx):
    zero = Date(1858, 11, 17)
    first, last = Date(1972, 1, 1), Date(2060, 12, 31)
    day = first
    while day <= last:
        with ctx.case(day=str(day)):
            m = (day - zero).days
            ctx.state(('day', day.month, day.day))
            name = '%04i/%02i/%02i' % (day.year, day.month, day.day)
            forms = {name, name.replace('/', '-'), '%i/%i/%i' % (day.year, day.month, day.day), '%i-%i/%i' % (day.year, day.month, day.day), '%i' % m}
            for text in sorted(forms):
                expect(ctx, P.date, text, (name,), 'date')
                expect(ctx, P.mjd, text, (m,), 'mjd')
        day += timedelta(days=1)
    with ctx.case(what='dates that do not exist'):
        for y in (1999, 2000, 2023, 2024, 2100):
            for mon in range(0, 15):
                for d in (0, 1, 28, 29, 30, 31, 32):
                    text = '%i/%02i/%02i' % (y, mon, d)
                    try:
                        want = Date(y, mon, d)
                    except ValueError:
                        want = None
                    for t in (text, text.replace('/', '-')):
                        expect(ctx, P.date, t, None if want is None else (text,), 'date')
                        expect(ctx, P.mjd, t, None if want is None else ((want - zero).days,), 'mjd')
        for text in ('', 'x', '2020', '2020/1', '2020/1/1/1', '2020/1/1 0:00', '2020.1.1', '1/1/2020', '2020/x/1', '55000.5', '99999999999', '-99999999999', '9' * 20, '-' + '9' * 30, '9' * 400, '1e5'):
            ctx.step()
            ok, got = parse(P.date, text)
            if text == '2020':
                ctx.check(ok and got == '1864/05/29', 'date:value', 'MJD 2020 is %r but it should be 1864/05/29' % (got,))
            else:
                ctx.check(not ok, 'date:accepted', 'date(%r) is %r but it should be refused' % (text, got))


def clock(us):
    s, us = divmod(us, 10**6)
    return '%i:%02i:%02i.%06i' % (s // 3600, s // 60 % 60, s % 60, us)


def unit_times(ctx):
    for h in range(24):
        with ctx.case(hour=h):
            for s in range(h * 3600, (h + 1) * 3600):
                ctx.state(('second', s))
                text = '%02i:%02i:%02i' % (h, s // 60 % 60, s % 60)
                expect(ctx, P.time, text, (clock(s * 10**6),), 'time')
                expect(ctx, P.mpm, text, (s * 1000,), 'mpm')
                for ms in (0, 1, 500, 999):
                    v = s * 1000 + ms
                    expect(ctx, P.time, str(v), (clock(v * 1000),), 'time')
                    expect(ctx, P.mpm, str(v), (v,), 'mpm')
                ms = (7 * s) % 1000
                expect(ctx, P.time, '%s.%03i' % (text, ms), (clock((s * 1000 + ms) * 1000),), 'time')
                expect(ctx, P.mpm, '%s.%03i' % (text, ms), (s * 1000 + ms,), 'mpm')
    with ctx.case(what='thousandths'):
        for s in (0, 59, 3599, 43200, 86399):
            text = '%i:%02i:%02i' % (s // 3600, s // 60 % 60, s % 60)
            for ms in range(1000):
                for digits in (3, 4, 6):
                    t = '%s.%03i%s' % (text, ms, '0' * (digits - 3))
                    expect(ctx, P.time, t, (clock((s * 1000 + ms) * 1000),), 'time')
                    expect(ctx, P.mpm, t, (s * 1000 + ms,), 'mpm')
    with ctx.case(what='times that do not exist'):
        for fn in (P.time, P.mpm):
            for text in ('-1', '-86400000', '86401000', '100000000', '24:00:00', '25:00:00', '00:60:00', '-1:00:00', '12:00', '12', '1:2:3:4', '12:00:00.', '12:00:00.x', '12:00:00 PM', '1.5', '', 'x', 'noon', '1e3', '12:00:00.1234567'):
                expect(ctx, fn, text, None if text != '12' else (clock(12000) if fn is P.time else 12,), fn.__name__)


def sexa(text, hours):
    """Value of a sexagesimal string in radians."""
    neg = text.strip().startswith('-')
    v = Fraction(0)
    for i, f in enumerate(text.strip().lstrip('+-').split(':')):
        v += Fraction(f or '0') / 60**i
    return float(-v if neg else v) * math.pi / (12 if hours else 180)


def unit_angles(ctx):
    def close(a, b):
        if isinstance(b, list):
            return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
        return abs(a - b) < 1e-11
    pieces = ['0', '00', '1', '12', '23', '-0', '-1', '-12', '+3', '12.5']
    for fn, many, hours in ((P.hours, P.csv_hours_list, True), (P.degrees, P.csv_degrees_list, False)):
        with ctx.case(fn=fn.__name__):
            items = []
            for d in pieces + ([] if hours else ['89', '-89', '359', '180']):
                for m in (None, '0', '05', '59', '30.5'):
                    for s in ((None,) if m is None or '.' in m else (None, '0', '07.25', '59.999')):
                        if '.' in d and m is not None:
                            continue
                        text = ':'.join(x for x in (d, m, s) if x is not None)
                        ctx.state((hours, text))
                        expect(ctx, fn, text, (sexa(text, hours),), fn.__name__, close)
                        got = parse(fn, text)[1]
                        import ephem
                        ctx.check(isinstance(got, ephem.Angle), fn.__name__ + ':type', '%s(%r) is a %s' % (fn.__name__, text, type(got).__name__))
                        want = sexa(text, hours) * (12 if hours else 180) / math.pi
                        back = float(str(got).split(':')[0])
                        ctx.check(abs(back - want) <= 1.001, fn.__name__ + ':unit', '%s(%r) prints as %s' % (fn.__name__, text, got))
                        items.append(text)
            few = items[::7]
            for a, b in itertools.product(few, repeat=2):
                for end in ('', ',', ', '):
                    expect(ctx, many, '%s,%s%s' % (a, b, end), ([sexa(a, hours), sexa(b, hours)],), many.__name__, close)
            for a in few:
                expect(ctx, many, a, ([sexa(a, hours)],), many.__name__, close)
            for bad in ('', ' ', 'x', '1:x', '1:2:x', 'None', '12h', 'nine'):
                expect(ctx, fn, bad, None, fn.__name__)
                for text in (bad + ',1', '1,' + bad + ',2', '2,' + bad + ',', bad + ',' + bad):
                    expect(ctx, many, text, None, many.__name__)


def ref_int(item):
    m = re.fullmatch(r'(-?\d+)(?:~(-?\d+))?', item)
    if m is None:
        return None
    a = int(m.group(1))
    return list(range(a, (int(m.group(2)) if m.group(2) is not None else a) + 1))


def ref_csv(text, one):
    if text in ('all', '*'):
        return ('all',)
    if text in ('none', ''):
        return ('none',)
    out = []
    for item in text.split(','):
        item = item.strip()
        if item == '':
            continue
        v = one(item)
        if v is None:
            return None
        out.extend(v)
    return (out,)


def ref_baseline(item):
    m = re.fullmatch(r'(\d+(?:~-?\d+)?)-(-?\d+(?:~-?\d+)?)', item)
    if m is None:
        return None
    return [(i, j) for i in ref_int(m.group(1)) for j in ref_int(m.group(2))]


def unit_lists(ctx):
    ints = ['1', '0', '12', '3~5', '8~12', '5~3', '4~4', '-2~1', '-3', ' 7 ', '', '~', '1~', '~2', 'x', '1.5', '1~2~3', 'all', 'none', '*']
    for n in (1, 2, 3):
        for items in itertools.product(ints, repeat=n):
            text = ','.join(items)
            with ctx.case(fn='csv_int_list', text=text):
                ctx.state(('int', n, items[-1]))
                expect(ctx, P.csv_int_list, text, ref_csv(text, ref_int), 'ints')
    bls = ['1-2', '3-3', '1~3-4', '2-5~6', '1~2-3~4', '3~2-1', '10-11', ' 5-6 ', '', '7', '1-', '-1', '1-x', 'a-b', '1~-2', '1-2-3', 'all', '*']
    for n in (1, 2, 3) if ctx.tier != 'quick' else (1, 2):
        for items in itertools.product(bls, repeat=n):
            text = ','.join(items)
            with ctx.case(fn='csv_baseline_list', text=text):
                ctx.state(('bl', n, items[-1]))
                want = ref_csv(text, ref_baseline)
                expect(ctx, P.csv_baseline_list, text, want, 'baselines')


def ref_host(item):
    m = re.fullmatch(r'(\d{1,3})(?:~(\d{1,3}))?' + r'\.(\d{1,3})(?:~(\d{1,3}))?' * 3, item)
    if m is not None:
        g = m.groups()
        rs = []
        for a, b in zip(g[::2], g[1::2]):
            a = int(a)
            b = a if b is None else int(b)
            if max(a, b) > 255:
                return None
            rs.append(range(a, b + 1))
        return ['%i.%i.%i.%i' % x for x in itertools.product(*rs)]
    m = re.fullmatch(r'([a-zA-Z0-9-]*?)(\d+)~(\d+)', item)
    if m is not None:
        base, a, b = m.groups()
        return [base + str(i).zfill(len(a)) for i in range(int(a), int(b) + 1)]
    return [item] if re.fullmatch(r'[a-zA-Z0-9-]+', item) else None


def unit_addresses(ctx):
    octet = ['0', '9', '255', '256', '999', '1~3', '254~256', '3~2', '10~10']
    for q in itertools.product(octet, repeat=4):
        if sum('~' in x for x in q) > 3:
            continue
        text = '.'.join(q)
        with ctx.case(fn='csv_hostname_list', text=text):
            ctx.state(('ip', sum('~' in x for x in q)))
            expect(ctx, P.csv_hostname_list, text, (lambda v: None if v is None else (v,))(ref_host(text)), 'ip')


def unit_hosts(ctx):
    hosts = ['lwa', 'lwaucf1', 'lwaucf1~3', 'lwaucf8~11', 'adp01~03', 'adp08~12', 'adp098~101', 'mjp-ob', 'node2-1~2', 'n1x2~4', '1~3', '127.0.0.1', '10.1.2.3~5', '', ' lwa ', 'lwa_1', 'lwa.unm.edu', 'lwa~3', 'lwa1~x', 'lwa1~2~3', '~', '1.2.3', '1.2.3.4.5', '1.2.3.4000']
    for n in (1, 2, 3) if ctx.tier != 'quick' else (1, 2):
        for items in itertools.product(hosts, repeat=n):
            text = ','.join(items)
            with ctx.case(fn='csv_hostname_list', text=text):
                ctx.state(('host', n, items[-1]))
                want = []
                for item in items:
                    if item.strip() == '':
                        continue
                    v = ref_host(item.strip())
                    if v is None:
                        want = None
                        break
                    want.extend(v)
                expect(ctx, P.csv_hostname_list, text, None if want is None else (want,), 'host')


def units(tier):
    return {'numbers': unit_numbers, 'frequency': unit_frequency, 'dates': unit_dates, 'times': unit_times, 'angles': unit_angles, 'lists': unit_lists, 'addresses': unit_addresses, 'hosts': unit_hosts}
