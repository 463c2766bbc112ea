"""
M03 - metadata tarballs are read as they are and stay in their scratch directory.

Session, observation, command script, session metadata, MIB and dynamic MIB files
are packed independently (module struct) with every field at its limits, in every
sequence of step and command kinds; tarballs hold every subset of members in every
order; files at one name are replaced in every short history; and every hostile
kind of member is tried with every reader.
"""
import os
import io
import dbm.gnu
import glob
import signal
import shutil
import struct
import sys
import tarfile
import tempfile
import itertools
import warnings
import logging

import vmc
from lsl.common import metabundle as MB
from lsl.common import sdm as SDMM, stations
from lsl.common.mcs import ObservingMode, SubsystemID, CommandID, MIB

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

BOUNDS = ('every field of the four binary files at each of its limits; all sequences of up to 3 (thorough: 4) kinds of step and of up to 3 (thorough: 4) kinds of command, cut at every byte of a command script and at every field boundary and its neighbours otherwise; '
          'all 256 subsets of the members of a tarball in 3 orders and all 720 orders of 6 members in 2 (thorough: 4) compressions; all histories of length 4 (thorough: 5) of replacing and reading; every reader x 9 kinds of hostile member x 3 positions')
ASSUMPTIONS = ['a tarball that is changed in place gets a new modification time or size',
               'command data hold no NUL byte before their end']
HANG_S = 240

SES = struct.Struct('@H9sIHh32sQQQI18h4b0Q')
OSF = struct.Struct('@H9sIh32sIQQQH32sffHIIHIH0Q')
STEP = struct.Struct('@ffIIIH0I')
BEAM = struct.Struct('@512H1024h')
FOOT = struct.Struct('@512h256h256h256h256hIhI')
ACT = struct.Struct('@qqiiii')
SIZE = {'H': 2, 'h': 2, 'I': 4, 'Q': 8, 'b': 1, 'i': 4, 'q': 8}
MIBS = ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS')


def limits(c):
    n = SIZE[c]*8
    if c in 'HIQ':
        return (0, 1, 2**(n-1)-1, 2**(n-1), 2**n-1)
    return (0, 1, -1, -2**(n-1), 2**(n-1)-1)


def text(b, n):
    return (b.rstrip(b'\0'))


# ---------------------------------------------------------------- session
SES_FIELDS = ['version', 'project_id', 'session_id', 'configuration_authority', 'drx_beam', 'spc_setup', 'mjd', 'mpm', 'dur', 'nobs'] + \
             [('record_mib', k) for k in MIBS] + [('update_mib', k) for k in MIBS] + \
             ['include_mcssch_log', 'include_mcsexe_log', 'include_station_smib', 'include_station_design']
SES_CODES = 'HsIHhsQQQI' + 'h'*18 + 'b'*4
SES_BASE = [8, b'AB012', 77, 3, 2, b'1024 6144', 60902, 71494000, 130000, 5] + [101+i for i in range(18)] + [1, 2, 3, 4]


def ses_bytes(vals=None):
    return SES.pack(*(vals or SES_BASE))


def ses_view(d):
    out = []
    for f in SES_FIELDS:
        out.append(d[f] if isinstance(f, str) else d[f[0]][f[1]])
    return out


def strings(n):
    return (b'', b'A', b'A'*(n-1), b'x y', b'[]{}#')


def put(name, data):
    with open(name, 'wb') as fh:
        fh.write(data)
    return name


def unit_session(ctx):
    for i, c in enumerate(SES_CODES):
        for v in (limits(c) if c != 's' else strings({1: 9, 5: 32}[i])):
            vals = list(SES_BASE)
            vals[i] = v
            with ctx.case(field=str(SES_FIELDS[i]), value=v):
                ctx.step()
                got = ses_view(MB.read_ses_file(put('a.ses', ses_bytes(vals))))
                ctx.equal(got, vals, 'session-field', f'{SES_FIELDS[i]} = {v!r}')
                ctx.state(('ses', i, v))
    for n in range(128):
        with ctx.case(cut=n):
            ctx.step()
            ctx.raises(Exception, lambda: MB.read_ses_file(put('a.ses', ses_bytes()[:n])), 'session-cut')


# ------------------------------------------------------------ observation
OSF_FIELDS = ['version', 'project_id', 'session_id', 'drx_beam', 'spc_setup', 'obs_id', 'mjd', 'mpm', 'dur', 'mode', 'beamdipole_mode', 'ra', 'dec',
              'beam', 'freq1', 'freq2', 'bw', 'nsteps', 'is_radec']
OSF_CODES = 'HsIhsIQQQHsffHIIHIH'
OSF_BASE = [8, b'AB012', 77, 2, b'1024 6144', 4, 60902, 71499000, 120000, 4, b'STD 35 0.5', 5.25, -80.5, 2, 832697741, 1621569285, 7, 0, 1]


def foot_vals(k=0):
    return ([(i*7+k) % 3001 - 1500 for i in range(512)], [(i*3+k) % 251 for i in range(256)], [(i*5+1+k) % 257 for i in range(256)],
            [(i*11+2+k) % 263 for i in range(256)], [(i*13+3+k) % 269 for i in range(256)], 4000000000+k, -7-k)


def foot_bytes(f):
    return FOOT.pack(*f[0], *f[1], *f[2], *f[3], *f[4], f[5], f[6], 2**32-1)


def step_vals(kind, i):
    """kind: 1, 2 plain beams, 3 custom delays and gains"""
    v = [1.5+i, -2.25-i, 1000*(i+1), 3000000000+i, 12345+i, kind]
    delay = gain = None
    if kind == 3:
        delay = [(j*97+i) % 65536 for j in range(512)]
        gain = [(j*61+i) % 65536 - 32768 for j in range(1024)]
    return v, delay, gain


def obs_bytes(vals=None, kinds=(), foot=None):
    vals = list(vals or OSF_BASE)
    vals[17] = len(kinds)
    parts = [OSF.pack(*vals)]
    for i, k in enumerate(kinds):
        v, delay, gain = step_vals(k, i)
        parts.append(STEP.pack(*v))
        if k == 3:
            parts.append(BEAM.pack(*delay, *gain))
        parts.append(struct.pack('<I', 2**32-2))
    parts.append(foot_bytes(foot or foot_vals()))
    return parts


def check_obs(ctx, d, vals, kinds, foot):
    want = list(vals)
    want[17] = len(kinds)
    for f, w in zip(OSF_FIELDS, want):
        g = d[f]
        if f == 'mode':
            w = ObservingMode(w)
        elif f in ('freq1', 'freq2'):
            w = w*196e6/2**32
            if abs(g-w) <= 1e-6:
                continue
        ctx.check(g == w, 'observation-field', f'{f}: read {g!r}, written {w!r}')
    ctx.equal(len(d['steps']), len(kinds), 'observation-steps', 'number of steps')
    for i, (s, k) in enumerate(zip(d['steps'], kinds)):
        v, delay, gain = step_vals(k, i)
        ctx.equal([s.OBS_STP_C1, s.OBS_STP_C2, s.OBS_STP_T, s.OBS_STP_FREQ1, s.OBS_STP_FREQ2, s.OBS_STP_B], v, 'observation-steps', f'step {i+1}')
        ctx.equal(list(s.delay), delay or [], 'observation-steps', f'delays of step {i+1}')
        g = [x for stand in s.gain for row in stand for x in row]
        ctx.equal(g, gain or [], 'observation-steps', f'gains of step {i+1}')
    ctx.equal([x for p in d['fee_power'] for x in p], foot[0], 'observation-footer', 'FEE power')
    for k, n in ((1, 'asp_filter'), (2, 'asp_atten_1'), (3, 'asp_atten_2'), (4, 'asp_atten_3'), (5, 'tbt_samples'), (6, 'drx_gain')):
        ctx.equal(list(d[n]) if k < 5 else d[n], foot[k], 'observation-footer', n)


def unit_observation_fields(ctx):
    for i, c in enumerate(OSF_CODES):
        f = OSF_FIELDS[i]
        if f == 'nsteps':
            continue
        if f == 'mode':
            values = [m.value for m in ObservingMode]
        elif c == 's':
            values = strings({1: 9, 4: 32, 10: 32}[i])
        elif c == 'f':
            values = (0.0, 1.5, -90.0, 359.984375)
        else:
            values = limits(c)
        for v in values:
            vals = list(OSF_BASE)
            vals[i] = v
            with ctx.case(field=f, value=v):
                ctx.step()
                check_obs(ctx, MB.read_obs_file(put('a.obs', b''.join(obs_bytes(vals)))), vals, (), foot_vals())
                ctx.state(('obs', f, v))
    for n in (1025, 2**32-1):
        with ctx.case(nsteps=n):
            vals = list(OSF_BASE)
            vals[17] = n
            ctx.raises(Exception, lambda: MB.read_obs_file(put('a.obs', OSF.pack(*vals)+foot_bytes(foot_vals()))), 'observation-steps')


def unit_observation_steps(ctx):
    depth = 3 if ctx.tier == 'quick' else 4
    for kinds in vmc.sequences((1, 2, 3), depth):
        foot = foot_vals(len(kinds))
        parts = obs_bytes(None, kinds, foot)
        whole = b''.join(parts)
        with ctx.case(kinds=kinds):
            ctx.step()
            check_obs(ctx, MB.read_obs_file(put('a.obs', whole)), OSF_BASE, kinds, foot)
            ctx.state(('steps', kinds))
        edge = 0
        cuts = {0, len(whole)-1, len(whole)-4}
        for p in parts:
            edge += len(p)
            cuts |= {edge-1, edge, edge+1, edge-len(p)//2}
        for n in sorted(c for c in cuts if 0 <= c < len(whole)):
            with ctx.case(kinds=kinds, cut=n):
                ctx.step()
                ctx.raises(Exception, lambda: MB.read_obs_file(put('a.obs', whole[:n])), 'observation-cut')
    n = 1024
    with ctx.case(nsteps=n):
        kinds = (1, 2)*(n//2)
        check_obs(ctx, MB.read_obs_file(put('a.obs', b''.join(obs_bytes(None, kinds)))), OSF_BASE, kinds, foot_vals())


# --------------------------------------------------------- command script
COMMANDS = [((1755287494, 0, 0, 10, 34, 0), b''), ((1755287494, 250000, 1, 14, 21, 4), b'60 1'), ((1, 999999, 0, 20, 17, 1), b'x'),
            ((4102444800, 1, -1, 12, 8, 256), b'y'*256)]


def cs_bytes(kinds):
    return [ACT.pack(*COMMANDS[k][0])+COMMANDS[k][1] for k in kinds]


def check_cs(ctx, got, kinds, key='command'):
    ctx.equal(len(got), len(kinds), key, 'number of commands')
    for g, k in zip(got, kinds):
        (ts, tu, asap, sid, cid, n), data = COMMANDS[k]
        ctx.check(abs(g['time']-(ts+tu*1e-6)) < 1e-6, key, f"time {g['time']}")
        ctx.equal((g['ignore_time'], g['subsystem_id'], g['command_id'], g['command_length'], g['data']),
                  (asap != 0, SubsystemID(sid), CommandID(cid), n, data if n else None), key)


def unit_commands(ctx):
    depth = 3 if ctx.tier == 'quick' else 4
    for kinds in vmc.sequences(range(len(COMMANDS)), depth):
        parts = cs_bytes(kinds)
        whole = b''.join(parts)
        edges = [sum(map(len, parts[:i])) for i in range(len(parts)+1)]
        with ctx.case(kinds=kinds):
            ctx.step()
            check_cs(ctx, MB.read_cs_file(put('a.cs', whole)), kinds)
            ctx.state(('cs', kinds))
        with ctx.case(kinds=kinds, end='marked'):
            check_cs(ctx, MB.read_cs_file(put('a.cs', whole+ACT.pack(0, 0, 0, 0, 0, 0)+b'rest of the file')), kinds)
        if len(kinds) < depth or ctx.tier != 'quick':
            for n in range(len(whole)):
                with ctx.case(kinds=kinds, cut=n):
                    ctx.step()
                    try:
                        got = MB.read_cs_file(put('a.cs', whole[:n]))
                    except Exception:
                        continue
                    ctx.check(n in edges, 'command-cut', 'a script cut inside a command was read without an error')
                    check_cs(ctx, got, kinds[:edges.index(n)])
    for sid in SubsystemID:
        for cid in CommandID:
            with ctx.case(sid=sid.name, cid=cid.name):
                ctx.step()
                f = put('a.cs', cs_bytes((1,))[0]+ACT.pack(5, 0, 0, sid.value, cid.value, 0))
                if sid.name in ('DP', 'ADP'):
                    ctx.raises(RuntimeError, lambda: MB.read_cs_file(f), 'command-old')
                else:
                    got = MB.read_cs_file(f)
                    ctx.equal([(c['subsystem_id'], c['command_id']) for c in got], [(SubsystemID.DR1, CommandID.REC), (sid, cid)], 'command')
    for n in (257, 2**31-1):
        with ctx.case(length=n):
            ctx.raises(Exception, lambda: MB.read_cs_file(put('a.cs', cs_bytes((0,))[0]+ACT.pack(5, 0, 0, 10, 34, n)+b'z'*300)), 'command-length')


# ------------------------------------------------------------ dynamic MIB
def sdm_bytes(k=0):
    p, want = [], {}
    want['sub'] = []
    for i in range(9):
        v = ((i+k) % 7, b'info %d' % (i+k), 1755287494+i, 250000*(i % 4))
        want['sub'].append(v)
        p.append(struct.pack('@i256sqq', *v))
    n = 0
    for name, size in (('fee', 256), ('rpd', 512), ('sep', 512), ('arb', 512), ('snap', 1024), ('server', 5), ('dr', 5)):
        v = [(n*31+i*7+k) % 1009 for i in range(size)]
        n += 1
        want[name] = v
        p.append(struct.pack('@%di' % size, *v))
    want['ant'] = [(i*5+i//97+k) % 4 for i in range(512)]
    p.append(struct.pack('@512i', *want['ant']))
    want['ndpo'] = [9, 8, 7, 6, 5]
    p.append(struct.pack('@5i', *want['ndpo']))
    want['mib'] = [201+i+k for i in range(18)]
    p.append(struct.pack('@18h', *want['mib']))
    for j, name in enumerate(('fee_power', 'asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3')):
        want[name] = [(i*(j+2)+j*17+k) % 1013 - 300 for i in range(256)]
        p.append(struct.pack('@256h', *want[name]))
    want['drx_gain'] = -12+k
    p.append(struct.pack('@h', want['drx_gain']))
    return p, want


def check_sdm(ctx, d, want):
    subs = [d.station, d.shl, d.asp, d.ndp]+list(d.dr)
    for s, (summary, info, ts, tu) in zip(subs, want['sub']):
        code = s.summary if isinstance(s.summary, int) else s.summary.value
        text = s.info if isinstance(s.info, bytes) else s.info.encode()
        ctx.equal((code, text), (summary, info), 'dynamic', f'status of {s.name}')
        ctx.check(abs(s.time-ts-tu*1e-6) < 1e-6, 'dynamic', f'time of {s.name}: {s.time}')
        ctx.check(info.decode() in str(s) and s.name in str(s), 'dynamic-print', str(s))
    flat = lambda v: [x for r in v for x in r]
    for name in ('fee', 'rpd', 'sep', 'server', 'dr'):
        ctx.equal(list(getattr(d.status, name)), want[name], 'dynamic', name)
    for name, n in (('arb', 16), ('snap', 64)):
        ctx.equal(flat(getattr(d.status, name)), want[name], 'dynamic', name)
        ctx.check(all(len(r) == n for r in getattr(d.status, name)), 'dynamic', f'{name} shape')
    ctx.equal(flat(d.ant_status), want['ant'], 'dynamic', 'antennas')
    ctx.equal(list(d.ndpo_status), want['ndpo'], 'dynamic', 'ndp outputs')
    order = ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS')
    ctx.equal([d.settings.report[k] for k in order], want['mib'][:9], 'dynamic', 'reports')
    ctx.equal([d.settings.update[k] for k in order], want['mib'][9:], 'dynamic', 'updates')
    for name in ('fee_power', 'asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3'):
        ctx.equal(list(getattr(d.settings, name)), want[name], 'dynamic', name)
    ctx.equal(d.settings.drx_gain, want['drx_gain'], 'dynamic', 'DRX gain')


def unit_dynamic(ctx):
    station = stations.lwa1
    for k in range(4 if ctx.tier == 'quick' else 28):
        parts, want = sdm_bytes(k)
        with ctx.case(values=k):
            ctx.step()
            d = SDMM.parse_sdm(put('sdm.dat', b''.join(parts)+b'\0'*6))
            check_sdm(ctx, d, want)
            ants = [a for a in station.antennas]
            before = [a.status for a in ants]
            new = d.update_antennas(ants)
            ctx.equal([a.status for a in new], [want['ant'][2*(a.stand.id-1)+a.pol] for a in ants], 'dynamic-antennas', 'status')
            ctx.equal([(a.id, a.stand.id, a.pol, a.digitizer) for a in new], [(a.id, a.stand.id, a.pol, a.digitizer) for a in ants], 'dynamic-antennas', 'order')
            ctx.equal([a.status for a in ants], before, 'dynamic-antennas', 'the original antennas')
    parts, want = sdm_bytes()
    whole, edge = b''.join(parts), 0
    cuts = set(range(0, 600, 7))
    for p in parts:
        edge += len(p)
        cuts |= {edge-1, edge, edge-len(p)//2, edge+1}
    for n in sorted(c for c in cuts if 0 <= c < len(whole)):
        with ctx.case(cut=n):
            ctx.step()
            ctx.raises(Exception, lambda: SDMM.parse_sdm(put('sdm.dat', whole[:n])), 'dynamic-cut')


# --------------------------------------------------------------- MIB, ASP
def mib_entry(index, val, dbm_type, icd=b'a', branch=False, tv=(1755287494, 500000000)):
    return struct.pack('@i12s8192s6s6sqq', 0 if branch else 1, index, val, dbm_type, icd, *tv)


def write_mib(name, entries):
    with dbm.gnu.open(name, 'nf') as db:
        for i, e in enumerate(entries):
            db[b'LABEL_%d' % i] = e


def unit_mib(ctx):
    kinds = []
    for code, fmt, values in (('i1u', '<B', (0, 1, 10, 127, 128, 255)), ('i2u', '<H', (0, 1, 255, 256, 257, 65280, 65535)),
                              ('i4u', '<I', (0, 1, 256, 65536, 2**24, 2**31, 2**32-1)), ('i4s', '<i', (0, 1, -1, -2**31, 2**31-1, 256, -256, 65536)),
                              ('i8u', '<Q', (0, 1, 2**8, 2**32, 2**56, 2**63, 2**64-1)),
                              ('f4', '<f', (0.0, 1.0, -1.5, 0.5, 2.0**-30)), ('f4r', '>f', (0.0, 1.0, -1.5, 0.5, 2.0**-30)),
                              ('f8', '<d', (0.0, 1.0, -1.5, 0.1, 1e-200)), ('f8r', '>d', (0.0, 1.0, -1.5, 0.1, 1e-200))):
        kinds += [(code, struct.pack(fmt, v), v) for v in values]
    kinds += [('a10', s.encode(), s) for s in ('', '0', '31', 'printable', ' spaces ')]
    kinds += [('NUL', b'', '')]
    # All pairs of neighbours, so that a value cannot leak into another one
    for (c1, b1, v1), (c2, b2, v2) in itertools.product(kinds, kinds[::1 if ctx.tier != 'quick' else 7]):
        with ctx.case(first=(c1, v1), second=(c2, v2)):
            ctx.step()
            write_mib('a.gdb', [mib_entry(b'0', b'', b'NUL', branch=True), mib_entry(b'1.1', b1, c1.encode(), tv=(1000000000, 250000000)), mib_entry(b'MCS-RESERVED', b'x', b'a1'),
                                mib_entry(b'1.2', b2, c2.encode())])
            m = MIB.from_file('a.gdb')
            ctx.equal(sorted(m.keys()), ['1.1', '1.2'], 'mib-keys')
            ctx.equal((m['1.1'].value, m['1.2'].value), (v1, v2), 'mib-value', f'{c1}, {c2}')
            ctx.equal((m['1.1'].dbmType, m['1.1'].eType, m['1.1'].updateTime.timestamp(), m['1.2'].updateTime.timestamp()), (c1, 1, 1000000000.25, 1755287494.5), 'mib-value')
            ctx.state(('mib', c1, v1))
    with ctx.case(short=True):
        write_mib('a.gdb', [mib_entry(b'1.1', b'5', b'a1')[:n] for n in (0, 1, 16, 100, 8000, 8239)]+[mib_entry(b'1.2', b'6', b'a1')])
        ctx.equal([m for m in MIB.from_file('a.gdb').keys()], ['1.2'], 'mib-short')


def unit_asp(ctx):
    n = 0
    stands = (1, 2, 128, 255, 256, 257, 300)
    for which, other in (('begin', 'end'), ('end', 'begin')):
        for param, prefix in (('asp_filter', '3.'), ('asp_atten_1', '4.1.'), ('asp_atten_2', '4.2.'), ('asp_atten_3', '4.3.')):
            for chosen in itertools.combinations(stands, 2):
                for order in (0, 1):
                    name = 'X_%d.tgz' % n
                    n += 1
                    with ctx.case(which=which, param=param, stands=chosen, order=order):
                        ctx.step()
                        write_mib('a.gdb', [mib_entry((prefix+str(s)).encode(), str(s % 32).encode(), b'a2') for s in chosen]+[mib_entry(b'2.1', b'9', b'a1'), mib_entry(b'4.4.1', b'9', b'a1')])
                        write_mib('b.gdb', [mib_entry((prefix+str(s)).encode(), b'30', b'a2') for s in stands])
                        members = [('X_ASP_%s.gdb' % which, open('a.gdb', 'rb').read()), ('X_ASP_%s.gdb' % other, open('b.gdb', 'rb').read())]
                        make_tar(name, members[::-1] if order else members, 'w')
                        want = {p: [-1]*256 for p in ('asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3')}
                        for s in chosen:
                            if s <= 256:
                                want[param][s-1] = s % 32
                        for spelling in (('beginning', 'begin', 'BEGIN') if which == 'begin' else ('end', 'End')):
                            ctx.equal(MB.get_asp_configuration(name, which=spelling), want, 'asp', spelling)
                        ctx.equal(MB.get_asp_configuration_summary(name, which=which), {p: -1 for p in want}, 'asp-summary')
                        os.unlink(name)
    for values in vmc.sequences((3, 7, 0), 4 if ctx.tier == 'quick' else 6, 1):
        with ctx.case(values=values):
            ctx.step()
            # The modes over 256 stands: 250 + some of the values
            write_mib('a.gdb', [mib_entry(b'3.%d' % s, b'%d' % values[s % len(values)], b'a2') for s in range(1, 257)])
            make_tar('Y.tgz', [('Y_ASP_begin.gdb', open('a.gdb', 'rb').read())], 'w')
            count = {v: sum(values[s % len(values)] == v for s in range(1, 257)) for v in values}
            best = max(count.values())
            got = MB.get_asp_configuration_summary('Y.tgz')
            ctx.check(count.get(got['asp_filter']) == best, 'asp-summary', f"{got['asp_filter']} is not the most common of {count}")
            ctx.equal({k: v for k, v in got.items() if k != 'asp_filter'}, {'asp_atten_1': -1, 'asp_atten_2': -1, 'asp_atten_3': -1}, 'asp-summary')
    with ctx.case(which='unknown'):
        ctx.raises(ValueError, lambda: MB.get_asp_configuration('Y.tgz', which='middle'), 'asp')


# ---------------------------------------------------------------- tarball
SDF = """PI_ID            99
PI_NAME          Last, First
PROJECT_ID       AB012
PROJECT_TITLE    A title
SESSION_ID       77
SESSION_TITLE    A session
OBS_ID           1
OBS_TARGET       Target
OBS_START_MJD    60902
OBS_START_MPM    71499000
OBS_START        UTC 2025 Aug 15 19:51:39.000
OBS_DUR          10000
OBS_DUR+         00:00:10.000
OBS_MODE         TRK_RADEC
OBS_RA           5.600000000
OBS_DEC          +22.000000000
OBS_B            SIMPLE
OBS_FREQ1        832697741
OBS_FREQ2        1621569285
OBS_BW           7
"""


def make_tar(name, members, mode='w:gz'):
    with tarfile.open(name, mode) as tf:
        for m in members:
            if isinstance(m, tarfile.TarInfo):
                tf.addfile(m)
                continue
            ti = tarfile.TarInfo(m[0])
            ti.size = len(m[1])
            ti.mode = 0o644
            tf.addfile(ti, io.BytesIO(m[1]))


def members(base, k=0):
    vals = list(SES_BASE)
    vals[2] = 77+k
    o1, o2 = list(OSF_BASE), list(OSF_BASE)
    o1[5], o2[5] = 1+k, 2+k
    return {'ses': (base+'.ses', ses_bytes(vals)),
            'obs1': (base+'_0001.obs', b''.join(obs_bytes(o1, (1, 3)))),
            'obs2': (base+'_0002.obs', b''.join(obs_bytes(o2, (2,)))),
            'cs': (base+'.cs', b''.join(cs_bytes((0, 1, 1) if k else (0, 1)))),
            'sdf': (base+'.txt', SDF.replace('PI_ID            99', 'PI_ID            %d' % (99+k)).encode()),
            'meta': (base+'_metadata.txt', b'%d [060902_000067516] [\'BAR%d\'] 3 [a message]\n' % (1+k, k)),
            'delay': ('mindelay.txt', b'%d\n' % (12+k)),
            'host': ('mcs.host', b'lwasv\n' if k else b'lwa1-old\n'),
            'sdm': ('dynamic/sdm.dat', b''.join(sdm_bytes(k)[0]))}


KEYS = ('ses', 'obs1', 'obs2', 'cs', 'sdf', 'meta', 'delay', 'host')


def expect(present, k=0):
    """reader -> (result or Exception)"""
    e = {'get_session_spec': 77+k if 'ses' in present else Exception,
         'get_observation_spec': [n+k for n, o in ((1, 'obs1'), (2, 'obs2')) if o in present],
         'get_command_script': (3 if k else 2) if 'cs' in present else Exception,
         'get_sdf': 99+k if 'sdf' in present else Exception,
         'get_session_metadata': {1+k: ('060902_000067516', 'BAR%d' % k, 3, 'a message')} if 'meta' in present else Exception,
         'get_beamformer_min_delay': 12+k if 'delay' in present else None,
         'get_mcs_hostname': ('lwasv' if k else 'lwa1-old') if 'host' in present else 'unknown',
         'get_sdm': sdm_bytes(k)[1]['drx_gain'] if 'sdm' in present else None}
    return e


def view(reader, got):
    if reader == 'get_session_spec':
        return got['session_id']
    if reader == 'get_observation_spec':
        return [o['obs_id'] for o in got]
    if reader == 'get_command_script':
        return len(got)
    if reader == 'get_sdf':
        return got.observer.id
    if reader == 'get_session_metadata':
        return {k: (v['tag'], v['barcode'], v['outcome'], v['msg']) for k, v in got.items()}
    if reader == 'get_sdm':
        return None if got is None else got.settings.drx_gain
    return got


def read_all(ctx, name, present, k=0, readers=None, key='tarball'):
    for reader, want in expect(present, k).items():
        if readers is not None and reader not in readers:
            continue
        try:
            got = view(reader, getattr(MB, reader)(name))
        except Exception as err:
            got = Exception
            detail = f'{type(err).__name__}: {err}'
        else:
            detail = repr(got)
        ctx.check(got == want, key, f'{reader} with {sorted(present)}: {detail}, should be {want!r}')


def unit_subsets(ctx):
    mem = members('AB012_0077')
    n = 0
    for r in range(len(KEYS)+1):
        for present in itertools.combinations(KEYS, r):
            for order in (0, 1, 2):
                chosen = list(present)
                if order == 1:
                    chosen.reverse()
                elif order == 2:
                    chosen = chosen[len(chosen)//2:]+chosen[:len(chosen)//2]
                name = 'AB012_0077.tgz' if n % 2 else 'other-name.tgz'
                n += 1
                with ctx.case(members=chosen, name=name):
                    ctx.step()
                    make_tar('new', [mem[c] for c in chosen], 'w:gz')
                    os.replace('new', name)
                    read_all(ctx, name, set(present))
                    if order == 0:
                        ctx.equal(MB.is_valid(name), 'ses' in present and 'cs' in present, 'valid', f'with {present}')
                    ctx.state(('set', present, order))


def unit_orders(ctx):
    keys = ('ses', 'obs1', 'cs', 'sdf', 'meta', 'delay')
    mem = members('AB012_0077')
    modes = ('w:gz', 'w') if ctx.tier == 'quick' else ('w:gz', 'w', 'w:bz2', 'w:xz')
    n = 0
    for chosen in itertools.permutations(keys):
        for mode in modes:
            name = 'T%d.tgz' % n
            n += 1
            with ctx.case(members=chosen, mode=mode):
                ctx.step()
                make_tar(name, [mem[c] for c in chosen], mode)
                read_all(ctx, name, set(keys), readers=('get_session_spec', 'get_observation_spec', 'get_command_script', 'get_sdf', 'get_session_metadata'))
                os.unlink(name)
    for chosen in itertools.permutations(('obs1', 'obs2', 'sdm', 'host')):
        with ctx.case(members=chosen):
            make_tar('S.tgz', [mem[c] for c in chosen])
            read_all(ctx, 'S.tgz', set(chosen))
            for ids, want in (((1,), 1), ((2,), 2), (2, 2), ((1, 2), [1, 2]), ((2, 1), [1, 2]), ((3,), []), (3, [])):
                got = MB.get_observation_spec('S.tgz', obs_id=ids)
                got = got['obs_id'] if isinstance(got, dict) else [o['obs_id'] for o in got]
                if isinstance(want, int):
                    got = got if isinstance(got, int) else got[0] if len(got) == 1 else got
                ctx.equal(got, want, 'observation-select', f'obs_id={ids}')
            os.unlink('S.tgz')


def unit_metadata(ctx):
    tags, codes = ('060902_000067516', '1_2'), ("'S10TCC13S0001'", 'S15TCV23S0001', 'UNK', "''X''")
    msgs = ('', 'UNK', 'two words', "quotes ' and numbers 12", 'Error: 5')
    lines = list(itertools.product((1, 2, 10), tags, codes, range(7), msgs))
    n = 0
    for i, (oid, tag, code, outcome, msg) in enumerate(lines):
        for mate in (lines[(i*17+5) % len(lines)],) if ctx.tier == 'quick' else (lines[(i*17+5) % len(lines)], lines[(i*29+3) % len(lines)], lines[(i*31+1) % len(lines)]):
            if mate[0] == oid:
                mate = (oid % 10+3,)+mate[1:]
            pair = ((oid, tag, code, outcome, msg), mate)
            with ctx.case(lines=pair):
                ctx.step()
                text = ''.join('%d  [%s]  [%s]  %d  [%s]\n' % p for p in pair)
                name = 'm%d.tar' % n
                n += 1
                make_tar(name, [('P_0001_metadata.txt', text.encode())], 'w')
                want = {}
                for p in pair:
                    b = p[2]
                    b = b[1:] if b[0] == "'" else b
                    b = b[:-1] if b[-1] == "'" else b
                    want[p[0]] = {'tag': p[1], 'barcode': b, 'outcome': p[3], 'msg': p[4]}
                ctx.equal(MB.get_session_metadata(name), want, 'metadata')
                os.unlink(name)


def unit_history(ctx):
    """Two versions of a tarball at two names, replaced and read in every order."""
    depth = 4 if ctx.tier == 'quick' else 5
    mems = [members('AB012_0077', k) for k in (0, 1)]
    present = set(KEYS)
    os.makedirs('lib', exist_ok=True)
    for k in (0, 1):
        make_tar('lib/%d.tgz' % k, [mems[k][c] for c in KEYS])
    alphabet = [('write', name, k, how) for name in ('a.tgz', 'b.tgz') for k in (0, 1) for how in ('replace', 'rewrite')][:6]
    alphabet += [('read', 'a.tgz'), ('read', 'b.tgz'), ('other',), ('remove', 'a.tgz')]
    clock = [1700000000]
    readers = ('get_session_spec', 'get_observation_spec', 'get_session_metadata', 'get_beamformer_min_delay')
    for hist in vmc.sequences(alphabet, depth, depth):
        if not any(h[0] == 'read' for h in hist[1:]) or hist[-1][0] not in ('read',):
            continue
        with ctx.case(history=hist):
            ctx.step(len(hist))
            shutil.rmtree('h', ignore_errors=True)
            os.makedirs('h/sub')
            now = {'h/a.tgz': None, 'h/b.tgz': None, 'h/sub/a.tgz': 1}
            shutil.copy('lib/1.tgz', 'h/sub/a.tgz')
            for n, op in enumerate(hist):
                if op[0] == 'write':
                    _, name, k, how = op
                    name = 'h/'+name
                    clock[0] += 1
                    if how == 'replace' or now[name] is None:
                        shutil.copy('lib/%d.tgz' % k, 'h/new')
                        os.utime('h/new', (clock[0], clock[0]))
                        os.replace('h/new', name)
                    else:
                        with open(name, 'r+b') as fh:
                            fh.write(open('lib/%d.tgz' % k, 'rb').read())
                            fh.truncate()
                        os.utime(name, (clock[0], clock[0]))
                    now[name] = k
                elif op[0] == 'remove':
                    if now['h/a.tgz'] is not None:
                        os.unlink('h/a.tgz')
                        now['h/a.tgz'] = None
                elif op[0] == 'read':
                    name = 'h/'+op[1]
                    if now[name] is None:
                        ctx.raises(OSError, lambda: MB.get_session_spec(name), 'history', what=f'{op}')
                    else:
                        read_all(ctx, name, present, now[name], readers=readers, key='history')
                else:
                    # the same relative name in another directory
                    os.chdir('h/sub')
                    try:
                        read_all(ctx, 'a.tgz', present, 1, readers=readers, key='history')
                    finally:
                        os.chdir('../..')
            ctx.state(tuple(sorted((k, v) for k, v in now.items())))
    os.chdir('h')
    with ctx.case(relative=True):
        shutil.copy('../lib/0.tgz', 'a.tgz')
        read_all(ctx, 'a.tgz', present, 0, readers=readers, key='history')
        os.chdir('sub')
        read_all(ctx, 'a.tgz', present, 1, readers=readers, key='history')


# -------------------------------------------------------------- hostility
READERS = {'get_session_spec': ('ses', 'AB012_0077.ses'), 'get_observation_spec': ('obs1', 'AB012_0077_0001.obs'), 'get_command_script': ('cs', 'AB012_0077.cs'),
           'get_sdf': ('sdf', 'AB012_0077.txt'), 'get_session_metadata': ('meta', 'AB012_0077_metadata.txt'), 'get_beamformer_min_delay': ('delay', 'mindelay.txt'),
           'get_mcs_hostname': ('host', 'mcs.host'), 'get_sdm': ('sdm', 'dynamic/sdm.dat'), 'get_asp_configuration': (None, 'AB012_ASP_begin.gdb'), 'get_station': (None, 'ssmif.dat')}


def unit_containment(ctx):
    top = os.getcwd()
    tmp = os.path.join(top, 'deep', 'er', 'tmp')
    out = os.path.join(top, 'outside')
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    opened = []

    def hook(event, args):
        if event == 'open' and armed[0] and isinstance(args[0], (str, bytes)):
            p = os.fsdecode(args[0])
            if args[1] is None and not os.path.isabs(p):
                return      # relative to a directory descriptor: the clean-up of shutil.rmtree
            real = os.path.realpath(p)
            if real.startswith(top) and not real.startswith(tmp+'/metadata-bundle') and real not in allowed:
                opened.append(p)
    armed, allowed = [False], set()
    sys.addaudithook(hook)
    mem = members('AB012_0077', 0)     # what the good members say
    evil = members('AB012_0077', 1)    # what the outside files say
    write_mib('evil.gdb', [mib_entry(b'3.%d' % s, b'5', b'a1') for s in range(1, 257)])
    write_mib('good.gdb', [mib_entry(b'3.%d' % s, b'4', b'a1') for s in range(1, 257)])
    evil_data = {'get_asp_configuration': open('evil.gdb', 'rb').read(), 'get_station': b'junk'}
    good_data = {'get_asp_configuration': open('good.gdb', 'rb').read()}
    n = 0

    def snapshot():
        s = {}
        for base, dirs, files in os.walk(top):
            if base.startswith(tmp):
                continue
            for f in files+dirs:
                p = os.path.join(base, f)
                st = os.lstat(p)
                s[p] = (st.st_mode, st.st_size, st.st_mtime_ns if not os.path.isdir(p) else 0, st.st_nlink if not os.path.isdir(p) else 0)
        return s

    for reader, (kind, fname) in READERS.items():
        data = evil[kind][1] if kind else evil_data[reader]
        suffix = fname.rsplit('/', 1)[-1]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, 'dynamic'))
        target = os.path.join(out, suffix)
        put(target, data)
        put(os.path.join(out, 'dynamic', suffix), data)
        rel = os.path.relpath(target, os.path.join(tmp, 'metadata-bundle-x'))

        def link(name, to, typ):
            ti = tarfile.TarInfo(name)
            ti.type = typ
            ti.linkname = to
            ti.mode = 0o777
            return ti
        first_dir = fname.split('/')[0]
        hostile = {'symlink': [link(fname, target, tarfile.SYMTYPE)],
                   'relative symlink': [link(fname, ('../' if '/' in fname else '')+rel, tarfile.SYMTYPE)],
                   'symlink directory': [link(first_dir if '/' in fname else 'd.obs', out, tarfile.SYMTYPE)]+[(fname if '/' in fname else 'd.obs/'+suffix, data)],
                   'hardlink': [link('x', target, tarfile.SYMTYPE), link(fname, 'x', tarfile.LNKTYPE)],
                   'fifo': [link(fname, '', tarfile.FIFOTYPE)],
                   'directory': [link(fname, '', tarfile.DIRTYPE)],
                   'absolute': [(target, data[:-1]+b'Z')],
                   'dotdot': [(rel, data[:-1]+b'Z')],
                   'inner dotdot': [('a/../'+rel, data[:-1]+b'Z')]}
        for what, ms in hostile.items():
            for place in ('alone', 'before', 'after'):
                if reader in ('get_station', 'get_beamformer_min_delay', 'get_mcs_hostname', 'get_sdm') and what in ('absolute', 'dotdot', 'inner dotdot') and place != 'alone':
                    pass
                name = os.path.join(top, 'H%d.tar' % n)
                n += 1
                good = [mem[kind]] if kind else [(fname, good_data[reader])] if reader in good_data else []
                good = [(('also_'+g[0]) if '/' not in g[0] and g[0] not in ('mcs.host', 'mindelay.txt', 'ssmif.dat') else g[0], g[1]) for g in good]
                make_tar(name, ms if place == 'alone' else ms+good if place == 'before' else good+ms, 'w')
                with ctx.case(reader=reader, member=what, place=place):
                    ctx.step()
                    allowed.clear()
                    allowed.add(os.path.realpath(name))
                    before = snapshot()
                    del opened[:]
                    old = signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(vmc.Fail('hang', f'{reader} waits for ever')))
                    signal.alarm(20)
                    armed[0] = True
                    try:
                        got = getattr(MB, reader)(name)
                    except vmc.Fail:
                        raise
                    except Exception as err:
                        got = err
                    finally:
                        armed[0] = False
                        signal.alarm(0)
                        signal.signal(signal.SIGALRM, old)
                    ctx.equal(opened, [], 'outside-open', f'{reader} of a tarball with {what}')
                    ctx.equal(snapshot(), before, 'outside-change', f'{reader} of a tarball with {what}')
                    ctx.equal(os.listdir(tmp), [], 'left-over', f'{reader}')
                    ctx.outcome((reader, what, place, type(got).__name__))
                os.unlink(name)


def units(tier):
    return {'session': unit_session, 'observation-fields': unit_observation_fields, 'observation-steps': unit_observation_steps, 'commands': unit_commands,
            'dynamic': unit_dynamic, 'mib': unit_mib, 'asp': unit_asp, 'subsets': unit_subsets, 'orders': unit_orders, 'metadata': unit_metadata,
            'history': unit_history, 'containment': unit_containment}
