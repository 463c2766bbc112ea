"""
M05 - stations are what their SSMIF says, and know where they are.

Small stations are written as text and as binary SSMIF from one description, with
every wiring of their antennas to FEEs, cables, ARX channels and digitizers, and
read back; locations are compared with independent WGS84 formulas on a lattice;
copies and shared antennas go through all short histories.
"""
import gc
import io
import copy
import math
import pickle
import struct
import itertools
import warnings

import numpy as np
import vmc
from lsl.common import stations as S
from lsl.common.data_access import DataAccess

warnings.simplefilter('ignore')

BOUNDS = ('stations of 2 (thorough: also 3) stands: all permutations of the antennas on each of FEE, cable, ARX and digitizer, all board shapes, all pairs of settings; as text with 4 layouts and as binary; unconnected parts; '
          'locations on a lattice of 13x12x4; all histories of length 4 (thorough: 5) of 9 operations on stations that share antennas')
ASSUMPTIONS = ['ASP settings are indexed by stand']
HANG_S = 240

C = 299792458.0


# ------------------------------------------------------------ description
class Desc:
    """A station with n stands; every value differs from every other one."""
    def __init__(self, n=2, idn='VL'):
        m = 2*n
        self.n, self.idn = n, idn
        self.lat, self.lon, self.elv = 34.0689, -107.6284, 2133.6
        self.pos = [[1.5+10*i, -2.25-10*i, 0.25+i] for i in range(n)]
        self.ant_std = [i//2+1 for i in range(m)]
        self.ant_orie = [i % 2 for i in range(m)]
        self.ant_stat = [(3-i) % 4 for i in range(m)]
        self.ant_theta = [0.5*i for i in range(m)]
        self.ant_phi = [-1.5*i for i in range(m)]
        self.fee = [('F%03d' % (i+1), (i+1) % 4, 35.5+i, 30.25+i) for i in range(n)]
        self.fee_ant = [(2*i+1, 2*i+2) for i in range(n)]
        self.rpd = [('RPD-%d' % (i+1), 100.0+i, 83.0-i, 2.5+0.25*i, 0.0078125*(i+1), 0.0009765625*i, 10e6+1e6*i, 1.0+0.125*i) for i in range(m)]
        self.rpd_ant = [i+1 for i in range(m)]
        self.arx_shape = (1, m)
        self.arx_ant = [i+1 for i in range(m)]
        self.snap_shape = (1, m)
        self.snap_ant = [i+1 for i in range(m)]
        self.at = ([0]*n, [0]*n, [0]*n)
        self.drx_gain = 6

    # what the station has to say about antenna number a
    def want(self, a):
        i = a-1
        std = self.ant_std[i]
        w = {'id': a, 'stand': (std,)+tuple(self.pos[std-1]), 'pol': self.ant_orie[i], 'theta': self.ant_theta[i], 'phi': self.ant_phi[i], 'status': self.ant_stat[i]}
        w['fee'] = ('', 0, 0.0, 0.0, 0, 1)
        for k, (f, pair) in enumerate(zip(self.fee, self.fee_ant)):
            if a in pair:
                w['fee'] = (f[0], k+1, f[2], f[3], f[1], pair.index(a)+1)
        w['combined'] = 10*w['status']+w['fee'][4]
        w['cable'] = None
        for r, b in zip(self.rpd, self.rpd_ant):
            if b == a:
                atten = 2*(self.at[0][std-1]-min(self.at[0]))+2*(self.at[1][std-1]-min(self.at[1]))+0.5*(self.at[2][std-1]-min(self.at[2]))
                w['cable'] = (r[0], r[1], r[2]/100, r[3]*1e-9, r[4], r[5], r[6], r[7], atten)
        w['arx'] = None
        nb, nc = self.arx_shape
        for k, b in enumerate(self.arx_ant):
            if b == a:
                w['arx'] = (300+k//nc, k % nc+1, k+1, 'I%d.%d' % (k//nc+1, k % nc+1), 'O%d.%d' % (k//nc+1, k % nc+1))
        w['digitizer'] = None
        nb, nc = self.snap_shape
        for k, b in enumerate(self.snap_ant):
            if b == a:
                w['digitizer'] = (k//nc+1, k+1, 'R%d.%d' % (k//nc+1, k % nc+1))
        return w


def write_text(d, name, layout=0):
    L = []
    def kv(key, value, *idx):
        k = key+''.join('[%d]' % i for i in idx)
        if layout == 0:
            L.append(f'{k} {value}')
        elif layout == 1:
            L.append(f'{k}    {value}    # a comment {k}')
        elif layout == 2:
            L.append(f'{k}\t{value}\r')
        else:
            L.append(f'# {k} 99')
            L.append('')
            L.append(f'{k} {value}  ')
    kv('FORMAT_VERSION', 10)
    kv('STATION_ID', d.idn)
    kv('GEO_N', repr(d.lat)); kv('GEO_E', repr(d.lon)); kv('GEO_EL', repr(d.elv))
    kv('N_STD', d.n)
    for i, p in enumerate(d.pos):
        kv('STD_LX', p[0], i+1); kv('STD_LY', p[1], i+1); kv('STD_LZ', p[2], i+1)
    for key, v in (('ANT_STD', d.ant_std), ('ANT_ORIE', d.ant_orie), ('ANT_STAT', d.ant_stat), ('ANT_THETA', d.ant_theta), ('ANT_PHI', d.ant_phi)):
        for i, x in enumerate(v):
            kv(key, x, i+1)
    kv('N_FEE', len(d.fee))
    for i, (f, pair) in enumerate(zip(d.fee, d.fee_ant)):
        kv('FEE_ID', f[0], i+1); kv('FEE_STAT', f[1], i+1); kv('FEE_GAI1', f[2], i+1); kv('FEE_GAI2', f[3], i+1); kv('FEE_ANT1', pair[0], i+1); kv('FEE_ANT2', pair[1], i+1)
    kv('N_RPD', len(d.rpd))
    for i, (r, a) in enumerate(zip(d.rpd, d.rpd_ant)):
        for key, x in zip(('RPD_ID', 'RPD_LENG', 'RPD_VF', 'RPD_DD', 'RPD_A0', 'RPD_A1', 'RPD_FREF', 'RPD_STR'), r):
            kv(key, x, i+1)
        kv('RPD_ANT', a, i+1)
    kv('N_SEP', 2*d.n)
    nb, nc = d.arx_shape
    kv('N_ARB', nb); kv('N_ARBCH', nc)
    for b in range(nb):
        kv('ARB_ID', 300+b, b+1)
        for c in range(nc):
            kv('ARB_ANT', d.arx_ant[b*nc+c], b+1, c+1); kv('ARB_IN', 'I%d.%d' % (b+1, c+1), b+1, c+1); kv('ARB_OUT', 'O%d.%d' % (b+1, c+1), b+1, c+1)
    nb, nc = d.snap_shape
    kv('N_SNAP', nb); kv('N_SNAPCH', nc)
    for b in range(nb):
        for c in range(nc):
            kv('SNAP_ANT', d.snap_ant[b*nc+c], b+1, c+1); kv('SNAP_INR', 'R%d.%d' % (b+1, c+1), b+1, c+1)
    for k, v in enumerate(d.at):
        if len(set(v)) == 1 and layout % 2:
            kv('ASP_AT%d' % (k+1), v[0])
        else:
            for i, x in enumerate(v):
                kv('ASP_AT%d' % (k+1), x, i+1)
    kv('DRX_GAIN', d.drx_gain)
    with open(name, 'w', newline='') as fh:
        fh.write('\n'.join(L)+'\n')


def write_binary(d, name):
    fmt, vals = '@', []
    def num(code, v, size):
        nonlocal fmt
        v = list(v)+[0]*(size-len(v))
        fmt += '%d%s' % (size, code)
        vals.extend(v)
    def txt(v, width, size):
        nonlocal fmt
        v = [x.encode() for x in v]+[b'']*(size-len(v))
        for x in v:
            fmt += '%ds' % width
            vals.append(x)
    def grid(v, nb, nc, mb, mc, fill=0):
        out = []
        for b in range(mb):
            for c in range(mc):
                out.append(v[b*nc+c] if b < nb and c < nc else fill)
        return out
    num('i', [10], 1); txt([d.idn], 3, 1); num('d', [d.lat, d.lon, d.elv], 3)
    num('i', [d.n], 1)
    for k in range(3):
        num('d', [p[k] for p in d.pos], 256)
    num('i', d.ant_std, 512); num('i', d.ant_orie, 512); num('i', d.ant_stat, 512); num('f', d.ant_theta, 512); num('f', d.ant_phi, 512); num('i', [], 512)
    num('i', [len(d.fee)], 1)
    txt([f[0] for f in d.fee], 11, 256); num('i', [f[1] for f in d.fee], 256); num('i', [], 256); num('f', [f[2] for f in d.fee], 256); num('f', [f[3] for f in d.fee], 256)
    num('i', [p[0] for p in d.fee_ant], 256); num('i', [p[1] for p in d.fee_ant], 256); num('i', [], 256); num('i', [], 256)
    num('i', [len(d.rpd)], 1)
    txt([r[0] for r in d.rpd], 26, 512); num('i', [], 512); num('i', [], 512)
    for k in (1, 2, 3, 4, 5, 6, 7):
        num('f', [r[k] for r in d.rpd], 512)
    num('i', d.rpd_ant, 512)
    num('i', [2*d.n], 1)
    txt([], 26, 512); num('i', [], 512); txt([], 26, 512); num('f', [], 512); num('i', [], 512); num('f', [], 512); num('i', [], 512)
    nb, nc = d.arx_shape
    num('i', [nb, nc], 2)
    txt([str(300+b) for b in range(nb)], 11, 32)
    for k in range(4):
        num('i', [], 32)
    num('i', [], 512); num('f', [], 512)
    num('i', grid(d.arx_ant, nb, nc, 32, 16), 512)
    for c in 'IO':
        txt(grid(['%s%d.%d' % (c, k//nc+1, k % nc+1) for k in range(nb*nc)], nb, nc, 32, 16, ''), 11, 512)
    nb, nc = d.snap_shape
    num('i', [nb, nc], 2)
    txt([], 11, 16); txt([], 11, 16); num('i', [], 16); num('i', [], 1024)
    txt(grid(['R%d.%d' % (k//nc+1, k % nc+1) for k in range(nb*nc)], nb, nc, 16, 64, ''), 11, 1024)
    txt([], 11, 1024)
    num('i', grid(d.snap_ant, nb, nc, 16, 64), 1024)
    num('i', [0], 1); txt([], 11, 5); txt([], 11, 5); num('i', [], 5); num('i', [], 5)
    num('i', [0], 1); num('i', [], 5); txt([], 11, 5); txt([], 11, 5); num('i', [], 5)
    num('i', [0], 1); num('i', [], 8); num('i', [], 400); txt([], 4, 400)
    num('i', [0], 1); num('f', [0, 0, 0], 3)
    data = struct.pack(fmt+'0d', *vals)
    assert len(data) == 153136, len(data)
    fmt, vals = '@', []
    num('h', [-1]*18, 18); num('h', [], 256); num('h', [], 256)
    for v in d.at:
        num('h', v, 256)
    num('h', [d.drx_gain], 1)
    data += struct.pack(fmt, *vals)
    with open(name, 'wb') as fh:
        fh.write(data)


def near(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a-b) <= 1e-6*max(1e-9, abs(b))
    return a == b


def check_station(ctx, st, d):
    ctx.equal((st.id, st.name), (d.idn, {'VL': 'LWA1', 'NA': 'LWANA', 'SV': 'LWASV'}.get(d.idn, 'New LWA Station')), 'station-id')
    ctx.check(near((math.degrees(st.lat), math.degrees(st.long), float(st.elev)), (d.lat, d.lon, d.elv)), 'station-location')
    ctx.equal(st.default_drx_gain, d.drx_gain, 'station-gain')
    ctx.equal(len(st.antennas), 2*d.n, 'station-antennas', 'number of antennas')
    dig = [a.digitizer for a in st.antennas]
    ctx.equal(dig, sorted(dig), 'station-order', 'digitizers')
    ctx.equal(sorted(a.id for a in st.antennas), list(range(1, 2*d.n+1)), 'station-antennas', 'ids')
    for a in st.antennas:
        w = d.want(a.id)
        g = {'id': a.id, 'stand': (a.stand.id, a.stand.x, a.stand.y, a.stand.z), 'pol': a.pol, 'theta': a.theta, 'phi': a.phi, 'status': a.status,
             'fee': (a.fee.id, a.fee.id_number, a.fee.gain1, a.fee.gain2, a.fee.status, a.fee_port), 'combined': a.combined_status}
        c = a.cable
        g['cable'] = (c.id, c.length, c.vf, c.dd, c.a0, c.a1, c.ref_freq, c.stretch, float(c.asp_atten_db))
        g['arx'] = (a.arx.id, a.arx.channel, a.arx.asp_channel, a.arx.input, a.arx.output)
        g['digitizer'] = (a.board, a.digitizer, a.input)
        for k in w:
            if w[k] is None:
                blank = {'cable': S.Cable('', 0).id == c.id, 'arx': a.arx.asp_channel == 0, 'digitizer': a.digitizer == 0}
                ctx.check(blank[k], f'unconnected-{k}', f'antenna {a.id} has {k} {g[k]}')
            else:
                ctx.check(near(g[k], w[k]), f'antenna-{k}', f'antenna {a.id} has {k} {g[k]}, the file says {w[k]}')
    ctx.equal([s.id for s in st.stands], [a.stand.id for a in st.antennas], 'station-lists', 'stands')
    ctx.equal(list(st.pols), [a.pol for a in st.antennas], 'station-lists', 'pols')
    ctx.equal([c.id for c in st.cables], [a.cable.id for a in st.antennas], 'station-lists', 'cables')


N = [0]


def both(ctx, d, binary=True):
    N[0] += 1
    ctx.step(2)
    write_text(d, 's.txt', N[0] % 4)
    if N[0] % 3 == 0:
        with open('s.txt', 'rb' if N[0] % 2 else 'r') as fh:
            check_station(ctx, S.parse_ssmif(fh), d)
    else:
        check_station(ctx, S.parse_ssmif('s.txt'), d)
    if binary:
        write_binary(d, 's.dat')
        if N[0] % 2:
            check_station(ctx, S.parse_ssmif('s.dat'), d)
        else:
            with open('s.dat', 'rb') as fh:
                check_station(ctx, S.parse_ssmif(fh), d)


def shapes(m):
    return [(b, m//b) for b in range(1, m+1) if m % b == 0]


def wiring_unit(part):
    def fn(ctx):
        for n in ((2,) if ctx.tier == 'quick' else (2, 3)):
            m = 2*n
            for k, perm in enumerate(itertools.permutations(range(1, m+1))):
                d = Desc(n)
                for shape in (shapes(m) if part in ('arx', 'snap') else [None]):
                    with ctx.case(part=part, order=perm, shape=shape):
                        if part == 'fee':
                            d.fee_ant = [(perm[2*i], perm[2*i+1]) for i in range(n)]
                        elif part == 'rpd':
                            d.rpd_ant = list(perm)
                            d.at = ([i for i in range(n)], [3*i+1 for i in range(n)], [n-i for i in range(n)])
                        elif part == 'arx':
                            d.arx_shape, d.arx_ant = shape, list(perm)
                        elif part == 'snap':
                            d.snap_shape, d.snap_ant = shape, list(perm)
                        elif part == 'stand':
                            d.ant_std = [(p-1)//2+1 for p in perm]
                            d.ant_orie = [(p-1) % 2 for p in perm]
                            d.at = ([i for i in range(n)], [2]*n, [5*i for i in range(n)])
                        both(ctx, d, binary=(n == 2 or k % 12 == 0))
                        ctx.state((part, perm, shape))
        # parts that are not connected
        for miss in itertools.product((0, 1), repeat=4):
            d = Desc(2)
            with ctx.case(part=part, missing=miss):
                if part == 'fee':
                    ants = [a*(1-x) for a, x in zip((1, 2, 3, 4), miss)]
                    d.fee_ant = [(ants[0], ants[1]), (ants[2], ants[3])]
                    both(ctx, d)
                elif part == 'rpd':
                    d.rpd_ant = [a*(1-x) for a, x in zip((1, 2, 3, 4), miss)]
                    both(ctx, d)
                elif part == 'arx':
                    d.arx_ant = [a*(1-x) for a, x in zip((1, 2, 3, 4), miss)]
                    both(ctx, d)
                elif part == 'snap':
                    d.snap_ant = [a*(1-x) for a, x in zip((1, 2, 3, 4), miss)]
                    both(ctx, d)
    return fn


def unit_settings(ctx):
    lists = list(itertools.product((0, 1, 15), repeat=2))
    for a1, a2 in itertools.product(lists, lists):
        for which in ((0, 1), (0, 2), (1, 2)):
            d = Desc(2)
            at = [[4, 4], [2, 2], [7, 7]]
            at[which[0]], at[which[1]] = list(a1), list(a2)
            d.at = tuple(at)
            with ctx.case(attenuators=at):
                both(ctx, d, binary=a1 != a2)
    for idn in ('VL', 'NA', 'SV', 'CS', 'ZZ'):
        for gain in (0, 6, 15):
            d = Desc(2, idn)
            d.drx_gain = gain
            with ctx.case(id=idn, gain=gain):
                both(ctx, d)
    for n in (1, 3, 5, 16):
        for boards in shapes(2*n):
            if boards[0] > 16 or boards[1] > 64:
                continue
            d = Desc(n)
            d.snap_shape = boards
            if boards[1] <= 16:
                d.arx_shape = boards
            else:
                continue
            with ctx.case(stands=n, boards=boards):
                both(ctx, d)
    for v in (9, 11):
        with ctx.case(version=v):
            write_text(Desc(), 'v.txt')
            s = open('v.txt').read().replace('FORMAT_VERSION 10', 'FORMAT_VERSION %d' % v)
            open('v.txt', 'w').write(s)
            ctx.raises(RuntimeError, lambda: S.parse_ssmif('v.txt'), 'version')
            write_binary(Desc(), 'v.dat')
            with open('v.dat', 'r+b') as fh:
                fh.write(struct.pack('<i', v))
            ctx.raises(RuntimeError, lambda: S.parse_ssmif('v.dat'), 'version')


# ---------------------------------------------------------------- geodesy
A, F = 6378137.0, 1/298.257223563


def ecef(lat, lon, h):
    e2 = F*(2-F)
    n = A/math.sqrt(1-e2*math.sin(lat)**2)
    return np.array([(n+h)*math.cos(lat)*math.cos(lon), (n+h)*math.cos(lat)*math.sin(lon), (n*(1-e2)+h)*math.sin(lat)])


def enu(lat, lon):
    return np.array([[-math.sin(lon), math.cos(lon), 0], [-math.sin(lat)*math.cos(lon), -math.sin(lat)*math.sin(lon), math.cos(lat)],
                     [math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon), math.sin(lat)]])


def unit_geodesy(ctx):
    r = math.radians
    lats, lons, hs = (-85, -60, -45, -30, -1, 0, 10, 34.07, 37.2, 45, 60, 80, 89), (-179, -118.3, -107.6, -90, -45, 0, 1, 45, 90, 120, 170, 180), (-100, 0, 2133.6, 9000)
    for lat, lon, h in itertools.product(lats, lons, hs):
        with ctx.case(lat=lat, lon=lon, h=h):
            ctx.step()
            xyz = ecef(r(lat), r(lon), h)
            ctx.check(np.abs(np.array(S.geo_to_ecef(r(lat), r(lon), h))-xyz).max() < 1e-3, 'to-ecef')
            la, lo, el = S.ecef_to_geo(*xyz)
            ctx.check(abs(la-r(lat)) < 1e-9 and abs(math.remainder(lo-r(lon), 2*math.pi)) < 1e-9 and abs(el-h) < 1e-3, 'from-ecef', f'{math.degrees(la)}, {math.degrees(lo)}, {el}')
            st = S.LWAStation('x', lat, lon, h)
            ctx.check(np.abs(np.array(st.geocentric_location)-xyz).max() < 1e-3, 'station-ecef')
            m, i = np.array(st.eci_transform_matrix), np.array(st.eci_inverse_transform_matrix)
            ctx.check(np.abs(m @ i-np.eye(3)).max() < 1e-12 and np.abs(m @ m.T-np.eye(3)).max() < 1e-12, 'eci-inverse')
            p = r(lat)
            want = np.array([[0, -math.sin(p), math.cos(p)], [1, 0, 0], [0, math.cos(p), math.sin(p)]])
            ctx.check(np.abs(m-want).max() < 1e-12, 'eci')
            o = st.get_observer()
            ctx.check(abs(o.lat-r(lat)) < 1e-12 and abs(o.long-r(lon)) < 1e-12 and abs(o.elev-h) < 1e-6, 'observer')
            ctx.check(near(tuple(map(float, st.aipy_location)), (r(lat), r(lon), float(h))), 'aipy')
    # Offsets between pairs
    places = [(34.0689, -107.6284, 2133.6), (34.3484, -106.8858, 1477.8), (37.2398, -118.2817, 1183.5), (-30.0, 21.4, 1000.0), (89.0, 10.0, 0.0), (0.5, 179.9, 10.0)]
    for a, b in itertools.product(places, places):
        if a == b:
            continue
        for how in ('tuple', 'station', 'location'):
            with ctx.case(start=a, to=b, how=how):
                ctx.step()
                st = S.LWAStation('x', *a)
                to = b if how == 'tuple' else S.LWAStation('y', *b)
                if how == 'location':
                    to = to.earth_location
                diff = enu(r(a[0]), r(a[1])) @ (ecef(r(b[0]), r(b[1]), b[2])-ecef(r(a[0]), r(a[1]), a[2]))
                tol = 1e-6*np.linalg.norm(diff)+0.01
                got = np.array(st.get_enz_offset(to))
                ctx.check(np.abs(got-diff).max() < tol, 'offset', f'{got}, should be {diff}')
                az, alt, dist = st.get_pointing_and_distance(to)
                ctx.check(abs(dist-np.linalg.norm(diff)) < tol, 'distance')
                v = np.array([math.sin(az)*math.cos(alt), math.cos(az)*math.cos(alt), math.sin(alt)])*dist
                ctx.check(np.abs(v-diff).max() < tol, 'pointing')
    # Stands
    for place in places[:4]:
        for x, y, z in itertools.product((-50.0, 0.0, 3.5), (-20.0, 0.0, 77.0), (-2.0, 0.0, 1.5)):
            with ctx.case(place=place, stand=(x, y, z)):
                ctx.step()
                stand = S.Stand(1, x, y, z)
                st = S.LWAStation('x', *place, antennas=[S.Antenna(1, stand=stand, digitizer=1)])
                e = stand.earth_location
                got = np.array([e.x.value, e.y.value, e.z.value])
                want = ecef(r(place[0]), r(place[1]), place[2])+enu(r(place[0]), r(place[1])).T @ np.array([x, y, z])
                ctx.check(np.abs(got-want).max() < 0.01, 'stand-location', f'off by {got-want} m')
    with ctx.case(stand='alone'):
        ctx.raises(RuntimeError, lambda: S.Stand(1, 0, 0, 0).earth_location, 'stand-location')


# ----------------------------------------------------------------- cables
def unit_cables(ctx):
    freqs = np.array([5e6, 10e6, 20e6, 38e6, 49e6, 74e6, 88e6])
    for length, vf, dd, a0, a1, stretch in itertools.product((0.0, 1.0, 150.0), (0.83, 1.0), (0.0, 2.4e-9), (0.0, 0.00428), (0.0, 1e-5), (1.0, 1.05)):
        for clock, atten, fref in ((0.0, 0.0, 10e6), (5e-9, 6.0, 10e6), (-1e-9, 0.5, 20e6)):
            with ctx.case(cable=(length, vf, dd, a0, a1, stretch), clock=clock, atten=atten):
                ctx.step()
                c = S.Cable('x', length, vf=vf, dd=dd, a0=a0, a1=a1, ref_freq=fref, stretch=stretch)
                c.clock_offset, c.asp_atten_db = clock, atten
                L = length*stretch
                d = L/(vf*C)+dd*L/100/np.sqrt(freqs/fref)+clock
                a = np.exp(2*a0*L*np.sqrt(freqs/fref)+a1*L*freqs/fref)
                ok = lambda x, y: np.allclose(x, y, rtol=1e-9, atol=1e-18)
                ctx.check(ok(c.delay(freqs), d) and ok(c.delay(freqs, ns=True), d*1e9), 'cable-delay')
                for inc, k in ((True, 10**(atten/10)), (False, 1.0)):
                    ctx.check(ok(c.attenuation(freqs, include_asp_atten=inc), a*k), 'cable-attenuation', f'ASP {inc}')
                    ctx.check(ok(c.gain(freqs, include_asp_atten=inc), 1/(a*k)), 'cable-gain', f'ASP {inc}')
                    ctx.check(np.allclose(c.attenuation(freqs, dB=True, include_asp_atten=inc), 10*np.log10(a*k)), 'cable-dB')
                    ctx.check(np.allclose(c.gain(freqs, dB=True, include_asp_atten=inc), -10*np.log10(a*k)), 'cable-dB')
                for i, f in enumerate(freqs):
                    ctx.check(ok(c.delay(f), d[i]) and ok(c.attenuation(f, include_asp_atten=False), a[i]), 'cable-scalar')


def unit_arx(ctx):
    """Every filter of every revision gives its own response, from stand-in test data."""
    data = {}
    real = DataAccess.open
    def fake(name, mode='r'):
        buf = io.BytesIO()
        board = int(name.split('_')[2])
        ncol = 8 if 300 <= board < 500 else 4
        np.savez(buf, freq=np.arange(5.0)*1e6, **{'ch%d' % c: -10.0*c-np.arange(5.0)[:, None]-0.125*np.arange(ncol)[None, :] for c in range(1, 17)})
        buf.seek(0)
        return buf
    names = {0: 'split', 1: 'full', 2: 'reduced', 4: 'split@3MHz', 5: 'full@3MHz'}
    # columns of the Rev. I data: high pass 3, 10, 20, 30 MHz with the 83 MHz low pass, then with the 73 MHz one
    hpf, lpf = {3: 0, 10: 1, 20: 2, 30: 3}, {83: 0, 73: 4}
    doc = {0: (30, 83), 1: (10, 83), 2: (30, 73), 3: (3, 73), 4: (20, 83), 5: (3, 83), 6: (10, 73), 7: (20, 73)}
    other = {0: 0, 1: 1, 2: 2, 4: 3}
    try:
        DataAccess.open = fake
        for board, rev in ((100, 'D'), (199, 'D'), (200, 'G'), (299, 'G'), (300, 'I'), (343, 'I'), (499, 'I'), (8200, 'H'), (8243, 'H'), (8300, 'H'), (1, 'unknown'), (99, 'unknown'), (500, 'unknown')):
            for ch in (1, 9, 16):
                for flt in range(8):
                    for key in [flt]+([names[flt]] if flt in names else []):
                        for dB in (True, False):
                            with ctx.case(board=board, channel=ch, filter=key, dB=dB):
                                ctx.step()
                                arx = S.ARX(board, channel=ch)
                                ctx.equal(arx.revision(), rev, 'arx-revision')
                                col = hpf[doc[flt][0]]+lpf[doc[flt][1]] if rev == 'I' else other.get(flt)
                                if col is None:
                                    ctx.raises(ValueError, lambda: arx.response(filter=key, dB=dB), 'arx-unsupported')
                                    continue
                                f, g = arx.response(filter=key, dB=dB)
                                want = -10.0*ch-np.arange(5.0)-0.125*col
                                ctx.check(np.array_equal(f, np.arange(5.0)*1e6) and np.allclose(g, want if dB else 10**(want/10)), 'arx-response', f'{g}, should be {want}')
        for key in (8, -1, 'other'):
            with ctx.case(filter=key):
                ctx.raises(ValueError, lambda: S.ARX(343, channel=1).response(filter=key), 'arx-unsupported')
    finally:
        DataAccess.open = real


# -------------------------------------------------------------- histories
PLACE = (34.0689, -107.6284, 2133.6)


def build():
    ants = []
    stands = [S.Stand(i+1, 3.0*i, -2.0*i, 0.5*i) for i in range(2)]
    for i, dig in enumerate((3, 1, 4, 2)):
        c = S.Cable('c%d' % i, 100.0+i, vf=0.83, dd=2.4e-9, a0=0.004)
        c.clock_offset, c.asp_atten_db = 1e-9*i, 2.0*i
        ants.append(S.Antenna(i+1, arx=S.ARX(300+i, channel=i+1, asp_channel=i+1, input='i', output='o'), board=1, digitizer=dig, input='x%d' % i, stand=stands[i//2], pol=i % 2, theta=i, phi=-i,
                              fee=S.FEE('f%d' % i, i, 35, 36, 3), fee_port=i % 2+1, cable=c, status=i % 4))
    st = S.LWAStation('LWA1', *PLACE, id='VL', antennas=ants, interface=S.LSLInterface(backend='lsl.common.ndp', mcs='lsl.common.mcs'))
    st.beamformer_min_delay, st.beamformer_min_delay_samples, st.default_drx_gain = 1e-6, 196, 6
    return st


def flat(st):
    out = [st.name, st.id, round(math.degrees(st.lat), 9), round(math.degrees(st.long), 9), float(st.elev), st.beamformer_min_delay, st.beamformer_min_delay_samples, st.default_drx_gain, st.interface.backend, st.interface.mcs]
    for a in st.antennas:
        out += [a.id, a.arx.id, a.arx.channel, a.arx.asp_channel, a.arx.input, a.arx.output, a.board, a.digitizer, a.input, a.stand.id, a.stand.xyz, a.pol, a.theta, a.phi,
                a.fee.id, a.fee.id_number, a.fee.gain1, a.fee.gain2, a.fee.status, a.fee_port, a.cable.id, a.cable.length, a.cable.vf, a.cable.dd, a.cable.a0, a.cable.a1, a.cable.ref_freq, a.cable.stretch,
                a.cable.clock_offset, a.cable.asp_atten_db, a.status]
    return out


def located(st):
    """offsets of the stands from the station, from their locations"""
    r = math.radians
    rows = []
    for s in {a.stand.id: a.stand for a in st.antennas}.values():
        e = s.earth_location
        v = enu(r(PLACE[0]), r(PLACE[1])) @ (np.array([e.x.value, e.y.value, e.z.value])-ecef(r(PLACE[0]), r(PLACE[1]), PLACE[2]))
        if np.abs(v-np.array(s.xyz)).max() > 0.01:
            rows.append((s.id, s.xyz, v))
    return rows


def unit_history(ctx):
    depth = 4 if ctx.tier == 'quick' else 5
    ops = ('sub', 'drop', 'copy', 'deepcopy', 'pickle', 'swap', 'antennas', 'setitem', 'base')
    want = None
    for hist in vmc.sequences(ops, depth, depth):
        if 'drop' in hist[:1]:
            continue
        with ctx.case(history=hist):
            ctx.step(len(hist))
            st = build()
            want = flat(st)
            others = []
            for op in hist:
                if op == 'sub':
                    others.append(S.LWAStation('sub', *PLACE, antennas=st.antennas[:2]))
                elif op == 'drop':
                    others = []
                    gc.collect(0)
                elif op == 'copy':
                    others.append(copy.copy(st))
                    ctx.equal(flat(others[-1]), want, 'copy', 'copy')
                elif op == 'deepcopy':
                    others.append(copy.deepcopy(st))
                    ctx.equal(flat(others[-1]), want, 'copy', 'deep copy')
                    ctx.check(all(x is not y and x.stand is not y.stand and x.cable is not y.cable for x, y in zip(st.antennas, others[-1].antennas)), 'copy', 'a deep copy shares parts')
                    others[-1].antennas[0].stand.x += 100
                    others[-1].antennas[0].cable.clock_offset = 5
                elif op == 'pickle':
                    others.append(pickle.loads(pickle.dumps(st)))
                    ctx.equal(flat(others[-1]), want, 'copy', 'pickle')
                elif op == 'swap':
                    others.append(st)
                    st = copy.copy(st)
                elif op == 'antennas':
                    st.antennas = st.antennas[::-1]
                elif op == 'setitem':
                    st[0] = copy.copy(st[0])
                elif op == 'base':
                    others.append(S.LWAStation('other', *PLACE, antennas=[copy.deepcopy(a) for a in st.antennas]))
                ids = [a.digitizer for a in sorted(st.antennas, key=lambda x: x.digitizer)]
                got = flat(st)
                if op == 'antennas':
                    # a new list is sorted the way the old one was
                    ctx.equal([a.digitizer for a in st.antennas], sorted(ids), 'sorted')
                ctx.equal(got, want, 'changed', f'the station after {op}')
                ctx.outcome(op)
            del others
            gc.collect(0)
            ctx.equal(located(st), [], 'located', 'stands')


def unit_objects(ctx):
    """Ordering, equality and arithmetic."""
    makers = {'Stand': lambda i: S.Stand(i, i, 2*i, 3*i), 'Antenna': lambda i: S.Antenna(i), 'FEE': lambda i: S.FEE('%03d' % i, i), 'Cable': lambda i: S.Cable('%03d' % i, 5)}
    for name, make in makers.items():
        for i, j in itertools.product(range(5), repeat=2):
            with ctx.case(type=name, ids=(i, j)):
                ctx.step()
                a, b = make(i), make(j)
                ctx.equal((a < b, a <= b, a == b, a != b, a >= b, a > b), (i < j, i <= j, i == j, i != j, i >= j, i > j), 'order')
                ctx.raises(TypeError, lambda: a == i, 'order-type')
        for perm in itertools.permutations(range(4)):
            with ctx.case(type=name, order=perm):
                x = sorted(make(i) for i in perm)
                ctx.equal([str(o.id) for o in x], [str(make(i).id) for i in range(4)], 'order')
    for p, q in itertools.product(itertools.product((-1.5, 0.0, 2.0), repeat=3), repeat=2):
        with ctx.case(a=p, b=q):
            ctx.step()
            a, b = S.Stand(1, *p), S.Stand(2, *q)
            plus, minus = tuple(x+y for x, y in zip(p, q)), tuple(x-y for x, y in zip(p, q))
            for o in (b, q, list(q), np.array(q)):
                ctx.equal((tuple(float(v) for v in a+o), tuple(float(v) for v in a-o)), (plus, minus), 'stand-arithmetic', type(o).__name__)
            ctx.equal((a+1.5, a-1.5), (tuple(x+1.5 for x in p), tuple(x-1.5 for x in p)), 'stand-arithmetic', 'number')
            ctx.equal((a[0], a[1], a[2], a.xyz), (p[0], p[1], p[2], p), 'stand-items')
            a[0], a[1], a[2] = q
            ctx.equal(a.xyz, q, 'stand-items')
    for st in S.get_all_stations():
        with ctx.case(station=st.name):
            n = len(st.antennas)
            ctx.equal([a.digitizer for a in st.antennas], list(range(1, n+1)), 'builtin', 'digitizers')
            ctx.equal(sorted(a.id for a in st.antennas), list(range(1, n+1)), 'builtin', 'ids')
            ctx.equal(len({(a.stand.id, a.pol) for a in st.antennas}), n, 'builtin', 'stand and polarization')
            ctx.equal(len({(a.arx.id, a.arx.channel) for a in st.antennas}), n, 'builtin', 'ARX channels')


def units(tier):
    u = {'wiring-'+p: wiring_unit(p) for p in ('fee', 'rpd', 'arx', 'snap', 'stand')}
    u.update({'settings': unit_settings, 'geodesy': unit_geodesy, 'cables': unit_cables, 'arx': unit_arx, 'history': unit_history, 'objects': unit_objects})
    return u
