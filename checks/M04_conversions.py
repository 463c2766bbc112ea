"""
M04 - MCS and NDP number formats and C structures.

Complete enumeration of the 16 bit delay and gain words, of every day and a
lattice of times of day, of tuning words around every bit boundary, of all short
C structures and array shapes, and of a lattice of pointing corrections.
"""
import math
import struct
import itertools
from datetime import datetime, timedelta, timezone

import numpy as np
import vmc
from lsl.common import ndp, mcs

BOUNDS = ('all 65536 delay words and 32768 gains in both formats; all days 1972-2049 x 9 times and every 1009th (thorough: 37th) millisecond of 4 days, in 5 time zones; all tuning words within 64 of a multiple of 2^20 (thorough: 2^16); '
          'all C structures of up to 3 (thorough: 4) fields of 14 types, scalars and arrays, in 3 byte orders; all array shapes up to 4 dimensions of 1-4; pointing corrections on a lattice of 7x8x6x6x7 angles')
ASSUMPTIONS = ['delays within the 16 bit format; gains from 0 to 1']


def swap(v):
    return ((v & 0xFF) << 8) | (v >> 8)


def unit_delays(ctx):
    step = 1e9/196e6/16
    last = -1.0
    for v in range(65536):
        with ctx.case(word=v):
            ctx.step(2)
            d = v*step
            got = ndp.ndpd_to_delay(swap(v))
            ctx.check(abs(got-d) < 1e-6, 'delay', f'word {v:#06x} is {d} ns, not {got}')
            ctx.check(abs(mcs.mcsd_to_delay(v)-d) < 1e-6, 'delay', f'MCS word {v:#06x} is {d} ns, not {mcs.mcsd_to_delay(v)}')
            for off in (0.0, 0.3, 0.5, 0.999):
                if v*step+off*step >= 65535*step:
                    continue
                w = ndp.delay_to_ndpd(d+off*step)
                ctx.check(isinstance(w, int) and 0 <= w < 65536, 'delay-word', f'{w}')
                err = swap(w)*step-(d+off*step)
                ctx.check(abs(err) <= step*(1+1e-6), 'delay-word', f'{d+off*step} ns becomes {swap(w)*step} ns')
                ctx.equal(mcs.delay_to_mcsd(d+off*step), swap(w), 'delay-mcs', 'MCS and NDP words')
    ctx.state('delays')


def unit_gains(ctx):
    for v in range(32768):
        with ctx.case(word=v):
            ctx.step(2)
            g = v/32767.0
            ctx.check(abs(ndp.ndpg_to_gain(swap(v))-g) < 1e-9, 'gain')
            ctx.check(abs(mcs.mcsg_to_gain(v)-g) < 1e-9, 'gain')
            for off in (0.0, 0.4):
                x = min(1.0, g+off/32767)
                w = ndp.gain_to_ndpg(x)
                ctx.check(0 <= swap(w) < 32768 and abs(swap(w)-x*32767) <= 1+1e-6, 'gain-word', f'gain {x} becomes {swap(w)/32767}')
                ctx.equal(mcs.gain_to_mcsg(x), swap(w), 'gain-mcs')


def unit_tuning(ctx):
    stride = 2**20 if ctx.tier == 'quick' else 2**16
    top = 2**32
    for base in range(0, top, stride):
        with ctx.case(base=base):
            for w in range(max(0, base-(64 if stride == 2**20 else 8)), min(top, base+(64 if stride == 2**20 else 8))):
                ctx.step()
                f = ndp.word_to_freq(w)
                ctx.check(abs(f-w*(196e6/top)) < 1e-6, 'frequency', f'word {w} is {w*196e6/top} Hz, not {f}')
                for off in (-0.49, 0, 0.49):
                    ctx.equal(ndp.freq_to_word(f+off*196e6/top), w, 'tuning-word', f'{f} Hz + {off} steps')


def unit_times(ctx):
    epoch = datetime(1858, 11, 17)
    zones = [timezone.utc]+[timezone(timedelta(minutes=m)) for m in (-420, 330, 765, -1)]
    times = (0, 1, 999, 1000, 59999, 43200000, 86399000, 86399998, 86399999)
    def one(mjd, mpm, zone):
        want = epoch+timedelta(days=mjd, milliseconds=mpm)
        dt = mcs.mjdmpm_to_datetime(mjd, mpm)
        ctx.check(dt.tzinfo is not None and dt.utcoffset() == timedelta(0), 'time-zone', 'UTC by default')
        ctx.check(abs(dt.replace(tzinfo=None)-want) <= timedelta(microseconds=2), 'to-datetime', f'{mjd}, {mpm} is {want}, not {dt}')
        loc = mcs.mjdmpm_to_datetime(mjd, mpm, tz=zone)
        ctx.check(loc == dt and loc.utcoffset() == zone.utcoffset(None), 'time-zone', f'{loc} for {zone}')
        for us in (0, 999):
            w = want+timedelta(microseconds=us)
            ctx.equal(mcs.datetime_to_mjdmpm(w), (mjd, mpm), 'from-datetime', f'{w}')
            ctx.equal(mcs.datetime_to_mjdmpm(w.replace(tzinfo=timezone.utc).astimezone(zone)), (mjd, mpm), 'from-datetime', f'{w} in {zone}')
    for mjd in range(41317, 69800):
        with ctx.case(mjd=mjd):
            for i, mpm in enumerate(times if mjd % 7 == 0 or ctx.tier != 'quick' else times[mjd % 3::3]):
                ctx.step()
                one(mjd, mpm, zones[(i+mjd) % len(zones)])
    for mjd in (41317, 51603, 60902, 69799):
        for mpm in range(0, 86400000, 1009*7 if ctx.tier == 'quick' else 37*7):
            with ctx.case(mjd=mjd, mpm=mpm):
                ctx.step()
                one(mjd, mpm, zones[mpm % len(zones)])


# -------------------------------------------------------------- structures
TYPES = [('int', 'i'), ('unsigned int', 'I'), ('signed short int', 'h'), ('unsigned short', 'H'), ('long', 'q'), ('unsigned long int', 'Q'), ('long long', 'q'), ('unsigned long long', 'Q'),
         ('float', 'f'), ('double', 'd'), ('char', 's'), ('signed char', 'b'), ('unsigned char', 'B'), ('signed int', 'i')]
SIZE = {'i': 4, 'I': 4, 'h': 2, 'H': 2, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 's': 1, 'b': 1, 'B': 1}
DIMS = [(), (3,), (2, 3), (2, 1, 3), (1, 2, 2, 2)]


def value(code, i):
    if code in 'fd':
        return 1.5+i
    if code == 's':
        return 65+(i % 26)
    top = {1: 100, 2: 30000, 4: 2000000000, 8: 2**62}[SIZE[code]]
    return (top-1-i*37) % top


def build(fields, order):
    """bytes, values and size of the structure as a C compiler lays it out"""
    out, vals, align, n = b'', [], 1, 0
    for code, dims in fields:
        size = SIZE[code]
        align = max(align, size)
        out += b'\0'*(-len(out) % size)
        count = int(np.prod(dims)) if dims else 1
        v = [value(code, n+i) for i in range(count)]
        n += count
        out += struct.pack(order+'%d%s' % (count, code if code != 's' else 'B'), *v)
        vals.append((code, dims, v))
    out += b'\0'*(-len(out) % align)
    return out, vals


def declare(fields, names, style):
    lines = []
    for (typ, dims), name in zip(fields, names):
        d = ''.join('[%s]' % x for x in dims)
        if style:
            d = d.replace('[3]', '[1+2]').replace('[2]', '[2*1]')
        lines.append(f'    {typ} {name}{d};' + ('  /* a comment: int x; */' if style else ''))
    return ('' if not style else 'typedef struct {\n    // int unused;\n')+'\n'.join(lines)+('\n}' if style else '\n')


def unit_structures(ctx):
    import ctypes
    depth = 2 if ctx.tier == 'quick' else 3
    orders = (('little', '<'), ('big', '>'), ('network', '>'), ('native', '<'))
    n = 0
    def one(fields, dims, which):
        nonlocal n
        n += 1
        names = ['f%d_x' % i for i in range(len(fields))]
        data, vals = build([(c, d) for (t, c), d in zip(fields, dims)], which[1])
        ctx.step()
        s = mcs.parse_c_struct(declare([(t, d) for (t, c), d in zip(fields, dims)], names, n % 2), endianness=which[0], char_mode='int')
        ctx.equal(s.sizeof(), len(data), 'structure-size')
        ctypes.memmove(ctypes.addressof(s), data, len(data))
        for name, (code, d, v) in zip(names, vals):
            g = getattr(s, name)
            g = list(g) if d else [g]
            ctx.equal(g, v, 'structure-value', f'{name} in {which[0]}')
            ctx.equal(list(s.dims[name]), list(d), 'structure-dims', name)
            ctx.equal(list(s.as_dict()[name]) if d else s.as_dict()[name], v if d else v[0], 'structure-dict', name)
    for fields in vmc.sequences(TYPES, depth+1, 1):
        if len(fields) > depth and len({c for t, c in fields}) < len(fields):
            continue
        with ctx.case(fields=[t for t, c in fields]):
            for which in (orders if len(fields) <= 2 else (orders[n % 4],)):
                one(fields, [()]*len(fields), which)
            one(fields, [DIMS[(n+i) % 5] for i in range(len(fields))], orders[n % 4])
    for (t, c), d, which in itertools.product(TYPES, DIMS, orders):
        with ctx.case(type=t, dims=d, order=which[0]):
            one([(t, c), ('unsigned char', 'B'), ('double', 'd')], [d, (), ()], which)
    with ctx.case(strings=True):
        s = mcs.parse_c_struct('char a[4];\nchar b[2][3];\nint c;\n')
        ctypes.memmove(ctypes.addressof(s), b'ab\0dXYZ12\0\0\0\x07\0\0\0', 16)
        ctx.equal((s.a, s.b, s.c), (b'ab', b'XYZ12', 7), 'structure-string')
    with ctx.case(macros=True):
        s = mcs.parse_c_struct('int a[ME_MAX_NDR];\nint b[2*ME_MAX_NSTD][ME_MAX_FEEID_LENGTH+1];\n')
        ctx.equal((list(s.dims['a']), list(s.dims['b'])), ([5], [512, 11]), 'structure-macro')
        s = mcs.parse_c_struct('int a[ME_MAX_NDR];\nint b[OTHER];\n', overrides={'ME_MAX_NDR': 3, 'OTHER': 2})
        ctx.equal((list(s.dims['a']), list(s.dims['b'])), ([3], [2]), 'structure-macro', 'overrides')
        s = mcs.parse_c_struct('int a[ME_MAX_NDR];\n')
        ctx.equal(list(s.dims['a']), [5], 'structure-macro', 'after overrides')
    for bad in ('int a[UNKNOWN];\n', 'bool a;\n', 'int a\n', 'unsigned float a;\n'):
        with ctx.case(bad=bad):
            ctx.raises(RuntimeError, lambda: mcs.parse_c_struct(bad), 'structure-bad')
    for kw in ({'endianness': 'middle'}, {'char_mode': 'float'}):
        with ctx.case(bad=kw):
            ctx.raises(RuntimeError, lambda: mcs.parse_c_struct('int a;\n', **kw), 'structure-bad')


def unit_shapes(ctx):
    top = 4 if ctx.tier == 'quick' else 5
    for nd in range(1, 5):
        for shape in itertools.product(range(1, top+1), repeat=nd):
            with ctx.case(shape=shape):
                ctx.step()
                n = int(np.prod(shape))
                want = np.arange(n).reshape(shape).tolist()
                ctx.equal(mcs.flat_to_multi(list(range(n)), *shape), want, 'shape')
                ctx.equal(mcs.flat_to_multi(tuple(range(n)), *shape), want, 'shape', 'tuple')
                for m in (n-1, n+1):
                    ctx.raises(ValueError, lambda: mcs.flat_to_multi(list(range(m)), *shape), 'shape-bad')


def unit_pointing(ctx):
    def unit(az, el):
        return np.array([math.cos(el)*math.sin(az), math.cos(el)*math.cos(az), math.sin(el)])   # east, north, up
    def rotate(v, theta, phi, psi):
        k = np.array([math.cos(phi)*math.sin(theta), math.sin(phi)*math.sin(theta), math.cos(theta)])
        return v*math.cos(psi)+np.cross(k, v)*math.sin(psi)+k*np.dot(k, v)*(1-math.cos(psi))
    r = math.radians
    for az, el in itertools.product((0, 45, 90, 123.4, 180, 270, 359), (-10, 0, 15, 30, 45, 60, 75, 89)):
        for theta, phi in itertools.product((0, 10, 45, 90, 135, 180), (0, 30, 90, 180, 250, 350)):
            for psi in (0, 1, 45, 90, 180, -30, 360):
                with ctx.case(az=az, el=el, axis=(theta, phi), psi=psi):
                    ctx.step()
                    want = rotate(unit(r(az), r(el)), r(theta), r(phi), r(psi))
                    if (theta+phi+psi) % 2:
                        a, e = mcs.apply_pointing_correction(az, el, theta, phi, psi)
                        got = unit(r(float(a)), r(float(e)))
                    else:
                        a, e = mcs.apply_pointing_correction(r(az), r(el), r(theta), r(phi), r(psi), degrees=False)
                        got = unit(float(a), float(e))
                    ctx.check(np.abs(got-want).max() < 1e-9, 'pointing', f'{got}, should be {want}')


def units(tier):
    return {'delays': unit_delays, 'gains': unit_gains, 'tuning': unit_tuning, 'times': unit_times, 'structures': unit_structures, 'shapes': unit_shapes, 'pointing': unit_pointing}
