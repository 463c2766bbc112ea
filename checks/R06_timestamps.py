"""
R06 - frame times are exact: time tag <-> calendar conversions, arithmetic and
ordering over a boundary-complete grid of days, seconds and clock ticks,
against integer arithmetic.
"""
import calendar
import itertools
from fractions import Fraction as Fr
from datetime import datetime, timedelta, timezone

import numpy as np
from astropy.time import Time as AstroTime

import frames as F
from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
from lsl.reader.base import FrameTimestamp as T

BOUNDS = ('grid of 16 days (month, year, leap-year and post-leap-second boundaries) x 12 seconds of day x 18 ticks around second boundaries x 3 '
          'time offsets; all pairs of neighbouring tags; all additions of 12 intervals; VDIF: epochs 0-63 half years x 9 second counts x frame rates')
ASSUMPTIONS = ['days that end with a leap second, and the second after, are excluded: astropy stretches UNIX time over such a day']

FS = 196000000
DAYS = [(2010, 1, 1), (2011, 5, 3), (2012, 2, 28), (2012, 2, 29), (2012, 3, 1), (2012, 7, 2), (2014, 12, 31), (2015, 1, 1), (2017, 1, 2), (2019, 12, 31),
        (2020, 1, 1), (2020, 2, 29), (2022, 9, 9), (2024, 2, 29), (2024, 12, 31), (2025, 6, 30)]
SECS = (0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 64800, 86398, 86399)
TICKS = (0, 1, 2, 3, 7, 1000, 48999999, 49000000, 97999999, 98000000, 98000001, 147000000, FS-1000, FS-7, FS-3, FS-2, FS-1, 123456789)
LEAPS = [(2005, 12, 31, 33), (2008, 12, 31, 34), (2012, 6, 30, 35), (2015, 6, 30, 36), (2016, 12, 31, 37)]


def tai_utc(unix):
    n = 32
    for y, m, d, v in LEAPS:
        if unix >= calendar.timegm((y, m, d, 0, 0, 0))+86400:
            n = v
    return n


def check_all(ctx, t, e, what):
    """t must be the instant e (Fraction of UNIX seconds)."""
    ctx.check(abs(t.unix - float(e)) <= 3e-7, 'unix', lambda: '%s: unix %r, expected %r' % (what, t.unix, float(e)))
    ctx.equal(float(t), t.unix, 'float')
    day, sod = int(e // 86400), e % 86400
    m = t.pulsar_mjd
    w = (40587+day, int(sod), float(sod % 1))
    got = Fr(m[0])*86400 + Fr(m[1]) + Fr(float(m[2]))
    ctx.check(abs(got - (Fr(40587)*86400 + e)) < Fr(1, 10**9), 'pulsar-mjd', lambda: '%s: pulsar MJD %r, expected %r' % (what, m, w))
    ctx.check(0 <= m[1] < 86400 and 0 <= m[2] < 1 and m[0] == int(m[0]) and m[1] == int(m[1]), 'pulsar-mjd-range', lambda: '%s: pulsar MJD %r, expected %r' % (what, m, w))
    ctx.check(abs(t.mjd - float(40587 + e/86400)) <= 2e-11, 'mjd', lambda: '%s: MJD %r' % (what, t.mjd))
    ctx.check(abs(t.jd - float(Fr(4881175, 2) + e/86400)) <= 1e-9, 'jd', lambda: '%s: JD %r' % (what, t.jd))
    ctx.check(abs(t.tai_mjd - float(40587 + (e+tai_utc(e))/86400)) <= 2e-11, 'tai-mjd', lambda: '%s: TAI MJD %r' % (what, t.tai_mjd))
    dt = t.datetime
    ctx.check(dt.tzinfo is None, 'datetime-naive')
    us = round((dt - datetime(1970, 1, 1))/timedelta(microseconds=1))
    ctx.check(abs(us - e*1000000) <= 1, 'datetime', lambda: '%s: datetime %s' % (what, dt))
    u = t.utc_datetime
    ctx.check(u.tzinfo is not None and u.replace(tzinfo=None) == dt and u.utcoffset() == timedelta(0), 'utc-datetime', lambda: '%s: utc_datetime %s' % (what, u))
    ctx.check(0 <= t[1] < 1 and t[0] == int(t[0]) and abs(Fr(float(t[1])) + int(t[0]) - e) < Fr(1, 10**6), 'parts', lambda: '%s: parts %r %r' % (what, t[0], t[1]))
    ctx.check(abs(t.astropy.unix - float(e)) <= 3e-7 and t.astropy.scale == 'utc', 'astropy')


def tags(day):
    s0 = calendar.timegm(day + (0, 0, 0))
    for s in SECS:
        for k in TICKS:
            yield (s0+s)*FS + k


def convert(day):
    def fn(ctx):
        for tt in tags(day):
            for off in (0, 1, 6660):
                with ctx.case('%r tag %i offset %i' % (day, tt, off)):
                    t = T.from_dp_timetag(tt+off, off)
                    e = Fr(tt, FS)
                    ctx.equal(t.dp_timetag, tt, 'round-trip', 'time tag -> time -> time tag')
                    if off == 0:
                        check_all(ctx, t, e, 'tag %i' % tt)
                        mpm = int(e % 86400 * 1000)
                        a = T.from_mjd_mpm(40587 + int(e//86400), mpm)
                        ctx.equal(a.dp_timetag, (tt//FS)*FS + (tt % FS)//196000*196000, 'from-mjd-mpm', 'MJD/MPM -> time tag')
                        b = T.from_pulsar_mjd(*t.pulsar_mjd)
                        ctx.check(abs(b.dp_timetag-tt) <= 1, 'from-pulsar-mjd', lambda: 'pulsar MJD round trip: %i ticks off' % (b.dp_timetag-tt))
                        c = T.from_astropy(t.astropy)
                        ctx.equal(c.dp_timetag, tt, 'from-astropy')
                        d = T(tt//FS, (tt % FS)/FS)
                        ctx.equal(d.dp_timetag, tt, 'constructor', 'seconds + fraction')
                        for carry in (-2, -1, 1, 3):
                            d = T(tt//FS - carry, (tt % FS)/FS + carry)
                            ctx.check(abs(d.dp_timetag-tt) <= 1, 'constructor-carry', lambda: 'seconds - %i, fraction + %i: %i ticks off' % (carry, carry, d.dp_timetag-tt))
                        ctx.step(4)
                    # frames of every kind
                    h = drx.FrameHeader(frame_count=1, drx_id=1, second_count=1, decimation=10, time_offset=off)
                    f = drx.Frame(header=h, payload=drx.FramePayload(timetag=tt+off, tuning_word=1, flags=0, iq=np.zeros(4, dtype=np.complex64)))
                    ctx.equal(f.time.dp_timetag, tt, 'drx-time')
                    f = drspec.Frame(header=drspec.FrameHeader(time_offset=off), payload=drspec.FramePayload(timetag=tt+off))
                    ctx.equal(f.time.dp_timetag, tt, 'drspec-time')
                    if off == 0:
                        ctx.equal(drx8.Frame(header=drx8.FrameHeader(time_offset=0, drx_id=0x41), payload=drx8.FramePayload(timetag=tt)).time.dp_timetag, tt, 'drx8-time')
                        ctx.equal(tbx.Frame(payload=tbx.FramePayload(timetag=tt)).time.dp_timetag, tt, 'tbx-time')
                        ctx.equal(cor.Frame(payload=cor.FramePayload(timetag=tt)).time.dp_timetag, tt, 'cor-time')
                    ctx.step()
                    ctx.state((tt, off))
    return fn


STEPS = [0, 1, -1, 60, 86400, -86400, 0.5, -0.25, 1e-6, Fr(1, FS), Fr(-40960, FS), np.float64(12.75), np.int64(7), timedelta(seconds=3, microseconds=5), timedelta(days=-1)]


def arithmetic(day):
    def fn(ctx):
        base = [t for i, t in enumerate(tags(day)) if i % 3 == 0]
        for tt in base:
            t = T.from_dp_timetag(tt)
            for s in STEPS:
                with ctx.case('%i + %r' % (tt, s)):
                    if isinstance(s, timedelta):
                        ex, arg = Fr(round(s/timedelta(microseconds=1)), 10**6), s
                    elif isinstance(s, Fr):
                        ex, arg = s, float(s)
                    else:
                        ex, arg = Fr(float(s)), s
                    for op, sign, name in ((lambda a, b: a+b, 1, '+'), (lambda a, b: a-b, -1, '-')):
                        r = op(t, arg)
                        ctx.check(isinstance(r, T), 'add-type', '%s gives a %s' % (name, type(r)))
                        want = tt + sign*ex*FS
                        ctx.check(abs(r.dp_timetag - want) <= 1, 'add', lambda: '%i %s %r: %i ticks off' % (tt, name, s, r.dp_timetag-want))
                        ctx.equal(t.dp_timetag, tt, 'operand-changed', 'the left operand')
                        ctx.check(abs((r-t) - float(sign*ex)) < 2e-9, 'difference', lambda: 'difference %r, expected %r' % (r-t, float(sign*ex)))
                        if ex:
                            ctx.equal((r > t, r < t, r == t, r != t, r >= t, r <= t), (sign*ex > 0, sign*ex < 0, False, True, sign*ex > 0, sign*ex < 0), 'order',
                                      'comparison after %s %r' % (name, s))
                    u = T.from_dp_timetag(tt)
                    u += arg
                    ctx.check(isinstance(u, T) and u == t + arg, 'iadd')
                    u -= arg
                    ctx.check(abs(u.dp_timetag - tt) <= 1, 'isub')
                    ctx.step(4)
                    ctx.state((tt, str(s)))
    return fn


def ordering(day):
    def fn(ctx):
        alltags = list(tags(day))
        for s in range(0, len(alltags), len(TICKS)):
            group = sorted(alltags[s:s+len(TICKS)] + [alltags[s]-1, alltags[s]+FS])
            ts = [T.from_dp_timetag(g) for g in group]
            frames = [tbx.Frame(payload=tbx.FramePayload(timetag=g)) for g in group]
            for (a, ta, fa), (b, tb, fb) in itertools.product(list(zip(group, ts, frames)), repeat=2):
                with ctx.case('compare %i %i' % (a, b)):
                    want = (a < b, a <= b, a == b, a != b, a >= b, a > b)
                    ctx.equal((ta < tb, ta <= tb, ta == tb, ta != tb, ta >= tb, ta > tb), want, 'order', 'times of tags %i and %i' % (a, b))
                    ctx.equal((fa < fb, fa <= fb, fa == fb, fa != fb, fa >= fb, fa > fb), want, 'frame-order', 'frames with tags %i and %i' % (a, b))
                    ctx.check(abs((ta-tb) - (a-b)/FS) < 2e-9, 'difference')
                    ctx.step()
                    ctx.state((a, b))
            ctx.equal([f.payload.timetag for f in sorted(reversed(frames))], group, 'sorted', 'sorted frames')
            for a, t in zip(group, ts):
                for x in (a//FS - 2, a/FS + 2.5, np.float64(a/FS - 3), np.int64(a//FS + 3)):
                    with ctx.case('compare %i with number %r' % (a, x)):
                        ctx.equal((t < x, t > x, t == x), (a/FS < x, a/FS > x, a/FS == x), 'order-number', 'comparison with %r' % x)
                with ctx.case('bad types'):
                    for bad in ('x', None, [1]):
                        ctx.raises(TypeError, lambda: t + bad, 'bad-type', 'adding %r' % (bad,))
                        ctx.raises(TypeError, lambda: t < bad, 'bad-type', 'comparing with %r' % (bad,))
    return fn


def vdif_times(lo, hi):
    def fn(ctx):
        for ep in range(lo, hi):
            e0 = calendar.timegm((2000 + ep//2, 6*(ep % 2)+1, 1, 0, 0, 0))
            for s in (0, 1, 3*3600, 11*3600, 13*3600, 86400, 10*86400+5, 100*86400-1, 180*86400):
                for bits, cplx, nchan, flen, rate in ((8, 0, 1, 5, 80.0), (4, 1, 1, 12, 6400.0), (2, 0, 2, 12, 12800.0)):
                    ns = (flen*8-32)*8//bits//nchan//(2 if cplx else 1)
                    fps = int(rate)//ns
                    for fr in sorted({0, 1, fps//2, fps-1}):
                        if fr >= fps:
                            continue
                        with ctx.case('VDIF epoch %i seconds %i frame %i of %i bits=%i' % (ep, s, fr, fps, bits)):
                            e = Fr(e0+s) + Fr(fr, fps)
                            h = vdif.FrameHeader(ref_epoch=ep, seconds_from_epoch=s, frame_in_second=fr, frame_length=flen, bits_per_sample=bits,
                                                 nchan=nchan, is_complex=cplx, sample_rate=rate)
                            t = h.time
                            if any(calendar.timegm((y, m, d, 0, 0, 0)) <= e <= calendar.timegm((y, m, d, 0, 0, 0))+86401 for y, m, d, _ in LEAPS):
                                # a day of 86401 s: only to the second
                                ctx.check(abs(t.unix-float(e)) < 1.001, 'vdif-time')
                            else:
                                ctx.check(abs(t.unix - float(e)) < 1e-6, 'vdif-time', lambda: 'VDIF time off by %r s' % (t.unix-float(e)))
                            ctx.step()
                            ctx.state((ep, s, fr, bits))
    return fn


def units(tier):
    out = {}
    for d in DAYS:
        out['convert %04i-%02i-%02i' % d] = convert(d)
    for d in (DAYS if tier == 'thorough' else DAYS[1:3] + DAYS[8:10]):
        out['arithmetic %04i-%02i-%02i' % d] = arithmetic(d)
        out['ordering %04i-%02i-%02i' % d] = ordering(d)
    for lo in range(10, 52, 6):
        out['vdif epochs %i-%i' % (lo, lo+5)] = vdif_times(lo, lo+6)
    return out
