"""
M01 - session definition files say what the project says.

Every single observation setting, every ordered pair (and triple) of
observations with different settings, every sequence of steps, every session
setting and pair of session settings is rendered, parsed and rendered again;
every limit is probed from both sides; every way of writing a time and a
duration is read back.
"""
import os
import copy
import itertools
from datetime import datetime, timedelta, timezone

import ephem
from astropy import units as U
from astropy.time import Time as ATime
from astropy.coordinates import Angle as AAngle

import logging
logging.disable(logging.CRITICAL)

from lsl.common import sdf
from lsl.common._sdf_utils import parse_time
from lsl.common.mcs import LWA_MAX_NSTD, MAX_STP_N
from lsl.common.stations import lwa1
from lsl.common import stations as STN

BOUNDS = ('30 kinds of observation in every ordered pair and three families of triples (quick) / every triple (thorough); 8 kinds of beam step in all sequences of up to 3; every session setting alone and in pairs; '
          'all relations of two and three observation intervals; both sides of every limit; all combinations of 11 zones/offsets, 4 date layouts, 24 second values and 9 dates for times')
ASSUMPTIONS = ('texts are single lines without surrounding blanks; None is written as "None provided"; coordinates are kept to 1e-9; '
               'targets are above the horizon of LWA1 on 2024-07-02 17 h UTC')
HANG_S = 300

T0 = datetime(2024, 7, 2, 17, 0, 0, tzinfo=timezone.utc)
MJD0 = 60493
MPM0 = 17*3600*1000
FS, W32 = 196e6, 2**32
N = LWA_MAX_NSTD


def hz(word):
    return word*FS/W32


def per_stand(default, **at):
    out = [copy.deepcopy(default) for i in range(N)]
    for k, v in at.items():
        out[int(k[1:])] = v
    return out


DELAYS = [(7*i) % 65536 for i in range(2*N)]
GAINS = [[[(3*i) % 30000, (5*i+1) % 30000], [(7*i+2) % 30000, -((11*i+3) % 30000)]] for i in range(N)]


def step(c1=3.25, c2=70.5, dur=1250, w1=832697741, w2=1621569285, hd=False, delays=None, gains=None):
    return {'c1': c1, 'c2': c2, 'dur': dur, 'w1': w1, 'w2': w2, 'hd': hd, 'delays': delays, 'gains': gains}


STEPS = {
    'plain': step(),
    'other': step(c1=23.999999, c2=60.0, dur=777, w1=222417950, w2=1928352663),
    'highdr': step(c1=0.0, c2=89.999999, dur=5, hd=True),
    'spec': step(c1=12.5, c2=75.0, dur=1001, delays=DELAYS, gains=GAINS),
    'spec2': step(c1=12.5, c2=75.0, dur=1001, delays=DELAYS[::-1], gains=GAINS[::-1]),
    'one': step(c1=1.0, c2=80.0, dur=999, w2=0),
    'spechd': step(c1=2.0, c2=65.0, dur=6, hd=True, delays=[0]*(2*N), gains=[[[0, 0], [0, 0]]]*N),
    'long': step(c1=7.123456789, c2=70.987654321, dur=1499),
}
AZALT = {
    'plain': step(c1=0.0, c2=45.0), 'far': step(c1=359.999999, c2=90.0, dur=1999),
    'spec': step(c1=180.5, c2=0.5, dur=10, delays=DELAYS, gains=GAINS),
    'highdr': step(c1=90.25, c2=30.125, dur=11, hd=True),
}


def obs(mode, **kw):
    d = {'mode': mode, 'name': 'name of '+mode, 'target': 'target of '+mode, 'dur': 4321, 'comments': 'about '+mode}
    if mode == 'TRK_RADEC':
        d.update(ra=5.5, dec=70.25)
    if mode.startswith('TRK'):
        d.update(w1=438261968, w2=1928352663, filter=7, gain=-1, hd=False, bdm=None)
    elif mode == 'TBS':
        d.update(w1=832697741, filter=8)
    elif mode == 'TBT':
        d.update(samples=1960000)
        d.pop('dur')
    else:
        d.update(steps=['plain'], radec=True, filter=6, gain=-1)
        d.pop('dur')
    d.update(fee=per_stand([-1, -1]), flt=per_stand(-1), at1=per_stand(-1), at2=per_stand(-1), at3=per_stand(-1))
    d.update(kw)
    return d


BEAM = {
    'drx': obs('TRK_RADEC'),
    'drx-ra': obs('TRK_RADEC', ra=23.999999, dec=89.5, comments=None),
    'drx-dec': obs('TRK_RADEC', ra=0.0, dec=60.123456789),
    'drx-hd': obs('TRK_RADEC', hd=True),
    'drx-gain': obs('TRK_RADEC', gain=6),
    'drx-gain0': obs('TRK_RADEC', gain=0, w2=0),
    'drx-filter': obs('TRK_RADEC', filter=1, dur=1),
    'drx-bdm': obs('TRK_RADEC', bdm=[1, 0.0, 1.0, 'X']),
    'drx-bdm2': obs('TRK_RADEC', bdm=[256, 0.04, 0.9999, 'Y'], hd=True),
    'drx-fee0': obs('TRK_RADEC', fee=per_stand([1, 1])),
    'drx-feex': obs('TRK_RADEC', fee=per_stand([0, -1])),
    'drx-feey': obs('TRK_RADEC', fee=per_stand([-1, 1])),
    'drx-fee1': obs('TRK_RADEC', fee=per_stand([-1, -1], s0=[0, 1], s255=[1, -1])),
    'drx-flt': obs('TRK_RADEC', flt=per_stand(7)),
    'drx-flt1': obs('TRK_RADEC', flt=per_stand(-1, s0=0, s3=2)),
    'drx-at1': obs('TRK_RADEC', at1=per_stand(15)),
    'drx-at11': obs('TRK_RADEC', at1=per_stand(3, s255=-1)),
    'drx-at2': obs('TRK_RADEC', at2=per_stand(0)),
    'drx-at21': obs('TRK_RADEC', at2=per_stand(1, s128=2)),
    'drx-at3': obs('TRK_RADEC', at3=per_stand(31)),
    'drx-at31': obs('TRK_RADEC', at3=per_stand(-1, s255=30)),
    'sun': obs('TRK_SOL'),
    'sun-hd': obs('TRK_SOL', hd=True, gain=3, filter=5, fee=per_stand([1, 0])),
    'jup': obs('TRK_JOV', bdm=[12, 0.5, 0.25, 'Y']),
    'moon': obs('TRK_LUN', w1=222417950, w2=0, comments='a;;b, c  d', flt=per_stand(2)),
    'stp': obs('STEPPED'),
    'stp-az': obs('STEPPED', steps=['plain', 'far'], radec=False, gain=2),
    'stp-spec': obs('STEPPED', steps=['spec', 'plain'], comments=None),
    'stp-bdm': obs('STEPPED', steps=['highdr', 'one'], bdm=[7, 0.1, 0.2, 'X'], filter=1, at3=per_stand(4)),
    'stp-fee': obs('STEPPED', steps=['long', 'other', 'highdr'], fee=per_stand([1, -1])),
}
WIDE = {
    'tbs': obs('TBS'), 'tbs-lo': obs('TBS', w1=65739295, dur=60000, comments=None), 'tbs-hi': obs('TBS', w1=2037918156, dur=1, at1=per_stand(2)),
    'tbt': obs('TBT'), 'tbt-1': obs('TBT', samples=1, flt=per_stand(1), comments=None), 'tbt-max': obs('TBT', samples=392000000, fee=per_stand([0, 0])),
}


def spec_of(name):
    return BEAM[name] if name in BEAM else WIDE[name]


def steps_of(s):
    table = STEPS if s['radec'] else AZALT
    return [table[k] for k in s['steps']]


def length(s):
    """Duration in ms."""
    if s['mode'] == 'STEPPED':
        return sum(k['dur'] for k in steps_of(s))
    if s['mode'] == 'TBT':
        return int(round((s['samples']/196000 + 1)*150 + 5000))
    return s['dur']


def build_step(k, radec):
    return sdf.BeamStep(k['c1'], k['c2'], k['dur']/1000.0, hz(k['w1']), hz(k['w2']), is_radec=radec, high_dr=k['hd'],
                        spec_delays=copy.deepcopy(k['delays']), spec_gains=copy.deepcopy(k['gains']))


def build(s, ms):
    """The observation of a specification, starting `ms` after T0."""
    start = T0 + timedelta(milliseconds=ms)
    m = s['mode']
    if m == 'TBT':
        o = sdf.TBT(s['name'], s['target'], start, s['samples'], comments=s['comments'])
    elif m == 'TBS':
        o = sdf.TBS(s['name'], s['target'], start, s['dur']/1000.0, hz(s['w1']), s['filter'], comments=s['comments'])
    elif m == 'STEPPED':
        o = sdf.Stepped(s['name'], s['target'], start, s['filter'], steps=[build_step(k, s['radec']) for k in steps_of(s)],
                        is_radec=s['radec'], gain=s['gain'], comments=s['comments'])
    else:
        args = [s['name'], s['target'], start, s['dur']/1000.0]
        if m == 'TRK_RADEC':
            args += [s['ra'], s['dec']]
        args += [hz(s['w1']), hz(s['w2']), s['filter']]
        cls = {'TRK_RADEC': sdf.DRX, 'TRK_SOL': sdf.Solar, 'TRK_JOV': sdf.Jovian, 'TRK_LUN': sdf.Lunar}[m]
        o = cls(*args, gain=s['gain'], high_dr=s['hd'], comments=s['comments'])
    if s.get('bdm') is not None:
        o.beamDipole = list(s['bdm'])
    o.fee_power = copy.deepcopy(s['fee'])
    o.asp_filter, o.asp_atten_1, o.asp_atten_2, o.asp_atten_3 = [list(s[k]) for k in ('flt', 'at1', 'at2', 'at3')]
    return o


def said(o):
    """What an observation says."""
    d = {'mode': o.mode, 'name': o.name, 'target': o.target, 'comments': o.comments, 'when': (o.mjd-MJD0)*86400000+o.mpm-MPM0, 'dur': o.dur,
         'fee': [list(f) for f in o.fee_power], 'flt': list(o.asp_filter), 'at1': list(o.asp_atten_1), 'at2': list(o.asp_atten_2), 'at3': list(o.asp_atten_3)}
    d['bdm'] = None if o.beamDipole is None else [int(o.beamDipole[0])]+list(o.beamDipole[1:])
    if o.mode == 'TBT':
        d['samples'] = o.samples
    elif o.mode == 'TBS':
        d.update(w1=o.freq1, filter=o.filter)
    elif o.mode == 'STEPPED':
        d.update(filter=o.filter, gain=o.gain, radec=o.is_radec)
        d['steps'] = [(round(k.c1, 9), round(k.c2, 9), k.dur, k.freq1, k.freq2, k.is_radec, k.get_beam_type(), k.delays, k.gains) for k in o.steps]
    else:
        d.update(w1=o.freq1, w2=o.freq2, filter=o.filter, gain=o.gain, beam=o.get_beam_type())
        if o.mode == 'TRK_RADEC':
            d.update(ra=round(o.ra, 9), dec=round(o.dec, 9))
    return d


def expected(s, ms, read=False):
    d = {k: s[k] for k in ('mode', 'name', 'target', 'comments', 'fee', 'flt', 'at1', 'at2', 'at3')}
    if read and d['comments'] is None:
        d['comments'] = 'None provided'
    d['when'], d['dur'] = ms, length(s)
    d['bdm'] = s.get('bdm')
    m = s['mode']
    if m == 'TBT':
        d['samples'] = s['samples']
    elif m == 'TBS':
        d.update(w1=s['w1'], filter=s['filter'])
    elif m == 'STEPPED':
        d.update(filter=s['filter'], gain=s['gain'], radec=s['radec'])
        d['steps'] = [(round(k['c1'], 9), round(k['c2'], 9), k['dur'], k['w1'], k['w2'], s['radec'],
                       'SPEC_DELAYS_GAINS' if k['delays'] is not None else 'HIGH_DR' if k['hd'] else 'SIMPLE', k['delays'], k['gains']) for k in steps_of(s)]
    else:
        d.update(w1=s['w1'], w2=s['w2'], filter=s['filter'], gain=s['gain'], beam='HIGH_DR' if s['hd'] else 'SIMPLE')
        if m == 'TRK_RADEC':
            d.update(ra=round(s['ra'], 9), dec=round(s['dec'], 9))
    return d


SESSION = ('name', 'id', 'data_return_method', 'ucf_username', 'configuration_authority', 'drx_beam', 'spc_setup', 'spc_metatag', 'record_mib', 'update_mib',
           'include_mcssch_log', 'include_mcsexe_log', 'include_station_smib', 'include_station_design')


def session_says(ses):
    out = {k: copy.deepcopy(getattr(ses, k)) for k in SESSION}
    out['spc_setup'] = list(out['spc_setup'])
    return out


def project(names, specs=None, gap=1000, order=None, **ses):
    specs = specs or [spec_of(n) for n in names]
    at, ms = [], 0
    for s in specs:
        at.append(ms)
        ms += length(s) + gap
    ob = [build(s, t) for s, t in zip(specs, at)]
    if order is not None:
        ob = [ob[i] for i in order]
    session = sdf.Session('a session', ses.pop('id', 101), observations=ob, comments=ses.pop('comments', None))
    for k, v in ses.items():
        setattr(session, k, v)
    p = sdf.Project(sdf.Observer('Doe, Jane', 99), 'the project', 'DJ001', [session], comments='all about it')
    return p, specs, at


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def short(d):
    return {k: tuple(str(x)[:80] for x in v) for k, v in d.items()}


def reread(ctx, text):
    path = os.path.join(ctx.scratch, 'x.sdf')
    with open(path, 'w') as fh:
        fh.write(text)
    return sdf.parse_sdf(path)


def round_trip(ctx, p, specs, at, what, session=0):
    ses = p.sessions[session]
    before = session_says(ses)
    office = (p.project_office.project, copy.deepcopy(p.project_office.sessions), copy.deepcopy(p.project_office.observations))
    remarks = (p.comments, ses.comments)
    for o, (s, t) in zip(sorted(ses.observations, key=lambda o: (o.mjd, o.mpm)), zip(specs, at)):
        ctx.check(not diff(said(o), expected(s, t)), 'an observation does not say what it was made with', what=what, different=lambda: short(diff(said(o), expected(s, t))))
    text = p.render(session)
    ctx.step()
    ctx.check(p.render(session) == text, 'rendering a project twice gives two different files', what=what)
    ctx.check(not diff(session_says(ses), before) and remarks == (p.comments, ses.comments)
              and office == (p.project_office.project, p.project_office.sessions, p.project_office.observations),
              'rendering a project changes its settings', what=what)
    q = reread(ctx, text)
    ctx.step()
    ctx.equal(len(q.sessions), 1, 'sessions in the file', what=what)
    got = q.sessions[0].observations
    ctx.equal(len(got), len(specs), 'observations read back', what=what)
    for i, (o, s, t) in enumerate(zip(got, specs, at)):
        d = diff(said(o), expected(s, t, True))
        ctx.check(not d, 'an observation changes on its way through a file', what=what, observation=i, different=short(d))
    ctx.equal((q.observer.name, q.observer.id, q.name, q.id, q.comments), (p.observer.name, p.observer.id, p.name, p.id, p.comments or 'None provided'),
              'project information', what=what)
    d = diff(session_says(q.sessions[0]), dict(before, name=before['name'] or 'None provided'))
    ctx.check(not d, 'a session setting changes on its way through a file', what=what, different=short(d))
    ctx.check(q.validate(), 'a project that was rendered is not valid once read back', what=what)
    again = q.render()
    ctx.check(again == text, 'a file that is read and rendered again is different', what=what,
              different=lambda: [(a, b) for a, b in itertools.zip_longest(text.split('\n'), again.split('\n')) if a != b][:4])
    return text, q


def singles(ctx):
    for name in list(BEAM)+list(WIDE):
        with ctx.case(observation=name):
            p, specs, at = project([name])
            text, q = round_trip(ctx, p, specs, at, name)
            path = os.path.join(ctx.scratch, 'y.sdf')
            if os.path.exists(path):
                os.unlink(path)
            p.writeto(path)
            ctx.equal(open(path).read(), text, 'file contents written')
            ctx.check(sdf.is_valid(path), 'a rendered file is not valid')
            ctx.raises(lambda: p.writeto(path), RuntimeError, 'writing over a file without being asked to')
            p.writeto(path, overwrite=True)
            ctx.equal(open(path).read(), text, 'file contents overwritten')
            ctx.state(text)


def pairs(which):
    def run(ctx):
        table = BEAM if which == 'beam' else WIDE
        for names in itertools.product(table, repeat=2):
            with ctx.case(observations=names):
                # Back to back, in the file in the order of their times whatever
                # the order they were given in
                p, specs, at = project(names, gap=0, order=(1, 0))
                round_trip(ctx, p, specs, at, names)
                ctx.state(names)
    return run


def triples(part, parts, which='beam'):
    def run(ctx):
        table = BEAM if which == 'beam' else WIDE
        for i, names in enumerate(itertools.product(table, repeat=3)):
            if i % parts != part:
                continue
            with ctx.case(observations=names):
                p, specs, at = project(names, gap=0)
                round_trip(ctx, p, specs, at, names)
                ctx.state(names)
    return run


def middle(b):
    """Settings of the outer observations never reach the middle one."""
    def run(ctx):
        for a, c in itertools.product(BEAM, repeat=2):
            with ctx.case(observations=(a, b, c)):
                p, specs, at = project((a, b, c), gap=1)
                round_trip(ctx, p, specs, at, (a, b, c))
                ctx.state((a, b, c))
    return run


def last(c):
    """Settings of two earlier observations never reach a third."""
    def run(ctx):
        for a, b in itertools.product(BEAM, repeat=2):
            with ctx.case(observations=(a, b, c)):
                p, specs, at = project((a, b, c), gap=1)
                round_trip(ctx, p, specs, at, (a, b, c))
                ctx.state((a, b, c))
    return run


def step_sequences(depth):
    def run(ctx):
        for table, radec in ((STEPS, True), (AZALT, False)):
            for n in range(1, depth+1):
                for names in itertools.product(table, repeat=n):
                    with ctx.case(steps=names, radec=radec):
                        p, specs, at = project(None, [obs('STEPPED', steps=list(names), radec=radec)])
                        round_trip(ctx, p, specs, at, names)
                        ctx.state((names, radec))
    return run


SUBSYSTEMS = ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS')


def mib(name, value):
    return {k: (value if k == name else -1) for k in SUBSYSTEMS}


SETTINGS = ([('id', v) for v in (1, 9999)] + [('configuration_authority', v) for v in (1, 65535)] + [('drx_beam', v) for v in (1, 2, 3, 4)]
            + [('spc_setup', [a, b]) for a, b in ((2, 384), (8192, 196608), (1024, 768), (32, 6144))]
            + [('data_return_method', v) for v in ('UCF', 'USB Harddrives')]
            + [('ucf_username', v) for v in ('jdoe', 'jdoe/a/b-c', 'J_9')]
            + [(f'include_{v}', True) for v in ('mcssch_log', 'mcsexe_log', 'station_smib', 'station_design')]
            + [(w, mib(k, v)) for w in ('record_mib', 'update_mib') for k in SUBSYSTEMS for v in (0, 5)])


def sessions(ctx):
    for a, b in itertools.combinations_with_replacement(SETTINGS, 2):
        if a[0] == b[0] and a != b:
            continue
        with ctx.case(a=a, b=b):
            p, specs, at = project(['drx', 'stp'], **{a[0]: copy.deepcopy(a[1]), b[0]: copy.deepcopy(b[1])})
            round_trip(ctx, p, specs, at, (a, b))
            ctx.state((a, b))
    for chan in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
        for win in (384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608):
            for tag, short_tag in ((None, ''), ('{Stokes=XXYY}', 'Stokes=XXYY'), ('{Stokes=IQUV}', '{Stokes=IQUV'), ('{Stokes=IV}', 'Stokes=IV}')):
                with ctx.case(spectrometer=(chan, win, tag)):
                    p, specs, at = project(['sun'])
                    ses = p.sessions[0]
                    ses.spectrometer_channels, ses.spectrometer_integration, ses.spectrometer_metatag = chan, win, short_tag
                    ctx.equal((ses.spc_setup, ses.spc_metatag), ([chan, win], tag), 'spectrometer setup')
                    round_trip(ctx, p, specs, at, (chan, win, tag))
                    ses.spectrometer_channels = ses.spectrometer_integration = 0
                    ses.spectrometer_metatag = ''
                    text, q = round_trip(ctx, p, specs, at, 'disabled')
                    ctx.equal(q.sessions[0].spc_setup, [0, 0], 'disabled spectrometer')


TEXTS = (None, 'plain', 'two  words', 'a;;b', ';;', '#1', 'OBS_ID 3', 'Requested data return method', '100% [sure]')


def texts(ctx):
    """Comments of every level, and project office remarks."""
    for text in TEXTS:
        for user in (None, 'jdoe', 'jdoe/sub/dir'):
            with ctx.case(comments=text, user=user):
                p, specs, at = project(['drx', 'sun'], comments=text, ucf_username=user)
                p.comments = text
                out, q = round_trip(ctx, p, specs, at, (text, user))
                c = q.sessions[0].comments
                if user is None:
                    ctx.equal(c, text or 'None provided', 'session comments')
                else:
                    ctx.check(c.startswith('ucfuser:'+user) and c.endswith(text or user), 'session comments lost', got=c)
                for i in range(3):
                    q = reread(ctx, q.render())
                ctx.equal(q.render(), out, 'after three more rounds')
        for level in ('project', 'session', 'observation'):
            for other in (None, 'other'):
                if text is None or text.startswith(';;'):
                    continue
                with ctx.case(office=text, level=level, other=other):
                    p, specs, at = project(['drx', 'sun'])
                    po = p.project_office
                    po.project, po.sessions, po.observations = other, [other], [[other]]
                    if level == 'project':
                        po.project = text
                    elif level == 'session':
                        po.sessions = [text]
                    else:
                        po.observations = [[other, text]]
                    out, q = round_trip(ctx, p, specs, at, (text, level))
                    got = q.project_office
                    ctx.equal({'project': got.project, 'session': got.sessions[0], 'observation': got.observations[0][1]}[level], text, 'project office comments', level=level)
                    ctx.state((text, level, other))
    for flag, key in (('SESSION_LOG_SCH', 'include_mcssch_log'), ('SESSION_LOG_EXE', 'include_mcsexe_log'), ('SESSION_INC_SMIB', 'include_station_smib'), ('SESSION_INC_DES', 'include_station_design')):
        for value in (0, 1):
            with ctx.case(flag=flag, value=value):
                p, specs, at = project(['drx'])
                q = reread(ctx, p.render().replace('\nOBS_ID ', f'{flag}  {value}\n\nOBS_ID ', 1))
                ctx.equal(getattr(q.sessions[0], key), bool(value), 'session flag')


def several_sessions(ctx):
    """Each session of a project has a file of its own."""
    for names in itertools.product(('drx', 'drx-gain', 'stp', 'sun-hd', 'tbs'), repeat=2):
        with ctx.case(sessions=names):
            p, s0, a0 = project([names[0]], id=1)
            r, s1, a1 = project([names[1]], id=2, drx_beam=3)
            p.append(r.sessions[0])
            round_trip(ctx, p, s0, a0, names, 0)
            round_trip(ctx, p, s1, a1, names, 1)
            ctx.raises(lambda: p.render(2), IndexError, 'a session that does not exist')


def limits(ctx):
    """Only what the station can do is valid, and only what is valid is rendered."""
    def judge(p, ok, **what):
        with ctx.case(expect=ok, **what):
            got = p.validate()
            ctx.equal(bool(got), ok, 'validity', **what)
            ctx.outcome(str(ok))
            if ok:
                ctx.check(isinstance(p.render(), str), 'a valid project is not rendered')
            else:
                ctx.raises(lambda: p.render(), RuntimeError, 'rendering an invalid project', **what)

    for v in (-1, 0, 1, 2, 9998, 9999, 10000):
        judge(project(['drx'], id=v)[0], 1 <= v <= 9999, session_id=v)
    for v in (-1, 0, 1, 65535, 65536):
        judge(project(['drx'], configuration_authority=v)[0], 0 <= v <= 65535, authority=v)
    for v in (-2, -1, 0, 1, 4, 5):
        judge(project(['drx'], drx_beam=v)[0], v == -1 or 1 <= v <= 4, beam=v)
    for k in SUBSYSTEMS:
        for w in ('record_mib', 'update_mib'):
            for v in (-2, -1, 0):
                judge(project(['drx'], **{w: mib(k, v)})[0], v >= -1, interval=(w, k, v))
    for n in (1, 7, 8, 9):
        p = project(['drx'])[0]
        p.id = 'X'*n
        judge(p, n <= 8, project_id=n)
    for kind in ('drx', 'sun', 'jup', 'moon'):
        for f in range(-1, 10):
            judge(project(None, [dict(BEAM[kind], filter=f)])[0], 1 <= f <= 7, kind=kind, filter=f)
        for w in (222417949, 222417950, 1928352663, 1928352664, 0):
            judge(project(None, [dict(BEAM[kind], w1=w)])[0], 222417950 <= w <= 1928352663, kind=kind, word1=w)
            judge(project(None, [dict(BEAM[kind], w2=w)])[0], w == 0 or 222417950 <= w <= 1928352663, kind=kind, word2=w)
        for d in (0, 1, 2):
            judge(project(None, [dict(BEAM[kind], dur=d)])[0], d >= 1, kind=kind, duration=d)
    for f in range(0, 10):
        judge(project(None, [dict(WIDE['tbs'], filter=f)])[0], f == 8, kind='tbs', filter=f)
        judge(project(None, [dict(BEAM['stp'], filter=f)])[0], 1 <= f <= 7, kind='stp', filter=f)
    for w in (65739294, 65739295, 2037918156, 2037918157, 0):
        judge(project(None, [dict(WIDE['tbs'], w1=w)])[0], 65739295 <= w <= 2037918156, kind='tbs', word1=w)
    for v in (391999999, 392000000, 392000001):
        judge(project(None, [dict(WIDE['tbt'], samples=v)])[0], v <= 392000000, samples=v)
    for kind in ('drx', 'stp', 'tbs', 'tbt'):
        base = spec_of(kind)
        for stand in (0, 100, N-1):
            for v in (-2, -1, 0, 1, 2):
                for pol in (0, 1):
                    fee = [-1, -1]
                    fee[pol] = v
                    judge(project(None, [dict(base, fee=per_stand([-1, -1], **{'s%i' % stand: fee}))])[0], v in (-1, 0, 1), kind=kind, fee=(stand, pol, v))
            for key, top in (('flt', 7), ('at1', 15), ('at2', 15), ('at3', 31)):
                for v in (-2, -1, 0, top, top+1):
                    judge(project(None, [dict(base, **{key: per_stand(-1, **{'s%i' % stand: v})})])[0], -1 <= v <= top, kind=kind, asp=(key, stand, v))
    # Steps
    def stepped(steps, radec=True, is_radec=None):
        p = project(['stp'])[0]
        o = p.sessions[0].observations[0]
        while len(o.steps):
            o.steps.pop()
        o.is_radec = radec
        for k in steps:
            o.append(build_step(k, radec if is_radec is None else is_radec))
        return p
    for n in (0, 1, 2):
        judge(stepped([STEPS['plain']]*n), n > 0, steps=n)
    for d in (0, 4, 5, 6):
        judge(stepped([dict(STEPS['plain'], dur=d), STEPS['long']]), d >= 5, dwell=d)
    for w in (222417949, 222417950, 1928352663, 1928352664, 0):
        judge(stepped([STEPS['plain'], dict(STEPS['plain'], w1=w)]), 222417950 <= w <= 1928352663, step_word1=w)
        judge(stepped([dict(STEPS['plain'], w2=w), STEPS['plain']]), w == 0 or 222417950 <= w <= 1928352663, step_word2=w)
    for a, b in itertools.product((True, False), repeat=2):
        judge(stepped([dict(STEPS['plain'], c1=1.0, c2=70.0)], a, b), a == b, coordinates=(a, b))
    for dl, g in itertools.product((None, 2*N-1, 2*N, 2*N+1), (None, N-1, N, N+1)):
        k = dict(STEPS['plain'], delays=None if dl is None else [0]*dl, gains=None if g is None else [[[1, 0], [0, 1]]]*g)
        judge(stepped([k]), (dl, g) in ((None, None), (2*N, N)), delays=dl, gains=g)
    # Something below the horizon, for the observation or for one step only
    for dec, ok in ((-89.0, False), (-60.0, False), (60.0, True), (89.0, True)):
        judge(project(None, [dict(BEAM['drx'], dec=dec)])[0], ok, dec=dec)
        judge(stepped([STEPS['plain'], dict(STEPS['plain'], c2=dec)]), ok, step_dec=dec)
    judge(stepped([dict(AZALT['plain'], c2=1.0)], False), True, altitude=1.0)
    judge(stepped([AZALT['far'], dict(AZALT['plain'], c2=0.0)], False), False, altitude=0.0)
    # Modes that cannot be in one session
    for a, b in itertools.product(list(WIDE)[:1]+['tbt', 'drx', 'sun', 'jup', 'moon', 'stp'], repeat=2):
        judge(project([a, b])[0], (a in WIDE) == (b in WIDE), modes=(a, b))
    for a in ('drx', 'stp', 'tbs', 'tbt'):
        judge(project([a], spc_setup=[1024, 768])[0], a in BEAM, spectrometer=a)
    for setup in itertools.product((0, 1, 2, 3, 1000, 1024, 8192, 16384), (0, 1, 384, 500, 768, 196608, 393216)):
        ok = setup == (0, 0) or (setup[0] in (2, 1024, 8192) and setup[1] in (384, 768, 196608))
        judge(project(['drx'], spc_setup=list(setup))[0], ok, spectrometer=setup)
    # Too much data
    rate = 4128*4*19.6e6/4096
    for hours, ok in ((10*1024**4/rate/3600-0.01, True), (10*1024**4/rate/3600+0.01, False)):
        judge(project(None, [dict(BEAM['drx'], dur=int(hours*3600000), dec=80.0)])[0], ok, hours=hours)
        half = int(hours*3600000/2)
        judge(project(None, [dict(BEAM['drx'], dur=half, dec=80.0)]*2)[0], ok, hours_in_two=hours)


def overlaps(ctx):
    """Two observations are refused exactly when their intervals overlap."""
    def at(ms, dur, kind):
        return build(dict(spec_of(kind), dur=dur), ms)
    span = range(0, 6)
    intervals = [(a, b) for a in span for b in span if a < b]
    midnight = 86400000 - MPM0 - 3
    for base in (0, midnight, 7*3600000):
        for x, y in itertools.product(intervals, repeat=2):
            with ctx.case(base=base, intervals=(x, y)):
                p = project(['tbs'])[0]
                obs_ = p.sessions[0].observations
                obs_[0] = at(base+x[0], x[1]-x[0], 'tbs')
                obs_.append(at(base+y[0], y[1]-y[0], 'tbs'))
                ok = x[1] <= y[0] or y[1] <= x[0]
                ctx.equal(bool(p.validate()), ok, 'validity of two intervals')
                ctx.state((base, x, y))
    for x, y, z in itertools.product([(a, b) for a, b in intervals if b <= 4], repeat=3):
        with ctx.case(intervals=(x, y, z)):
            p = project(['tbs'])[0]
            obs_ = p.sessions[0].observations
            obs_[0] = at(x[0], x[1]-x[0], 'tbs')
            obs_.extend([at(i[0], i[1]-i[0], 'tbs') for i in (y, z)])
            s = sorted((x, y, z))
            ctx.equal(bool(p.validate()), s[0][1] <= s[1][0] and s[1][1] <= s[2][0], 'validity of three intervals')


def values(ctx):
    """Coordinates, durations and frequencies in every accepted form."""
    def drx(ra=1.0, dec=70.0, dur=10.0, f1=38e6):
        return sdf.DRX('n', 't', T0, dur, ra, dec, f1, 74e6, 7)
    def bs(c1=1.0, c2=70.0, dur=10.0, f1=38e6, radec=True):
        return sdf.BeamStep(c1, c2, dur, f1, 74e6, is_radec=radec)
    for h in (0.0, 0.000001, 1.5, 11.999999, 12.0, 23.999):
        forms = (h, ephem.hours(h*ephem.pi/12), AAngle(h, 'hourangle'), AAngle(h*15, 'deg'), AAngle(h, 'hourangle').to_string(unit='hourangle', precision=9))
        for i, f in enumerate(forms):
            with ctx.case(ra=h, form=i):
                ctx.check(abs(drx(ra=f).ra-h) < 1e-9, 'right ascension')
                o = drx()
                o.ra = f
                ctx.check(abs(o.ra-h) < 1e-9, 'right ascension assigned')
                ctx.check(abs(bs(c1=f).c1-h) < 1e-9, 'right ascension of a step')
                k = bs()
                k.c1 = f
                ctx.check(abs(k.c1-h) < 1e-9, 'right ascension of a step assigned')
    for a in (0.0, 1.25, 180.0, 359.999):
        for i, f in enumerate((a, ephem.degrees(a*ephem.pi/180), AAngle(a, 'deg'), AAngle(a/15, 'hourangle'), '%.9fd' % a)):
            with ctx.case(azimuth=a, form=i):
                ctx.check(abs(bs(c1=f, radec=False).c1-a) < 1e-9, 'azimuth')
    for a in (-90.0, -12.345, -0.5, 0.0, 34.5, 90.0):
        for i, f in enumerate((a, ephem.degrees(a*ephem.pi/180), AAngle(a, 'deg'), '%+.9fd' % a)):
            with ctx.case(dec=a, form=i):
                ctx.check(abs(drx(dec=f).dec-a) < 1e-9, 'declination')
                ctx.check(abs(bs(c2=f).c2-a) < 1e-9, 'declination of a step')
                if a >= 0:
                    ctx.check(abs(bs(c2=f, radec=False).c2-a) < 1e-9, 'altitude')
    for bad in (-0.001, 24.0, 25.0, -24.0):
        with ctx.case(bad_ra=bad):
            ctx.raises(lambda: drx(ra=bad), ValueError, 'bad right ascension')
            ctx.raises(lambda: bs(c1=bad), ValueError, 'bad right ascension')
    for bad in (-90.001, 90.001, 180.0):
        with ctx.case(bad_dec=bad):
            ctx.raises(lambda: drx(dec=bad), ValueError, 'bad declination')
            ctx.raises(lambda: bs(c2=bad), ValueError, 'bad declination')
            ctx.raises(lambda: bs(c2=bad, radec=False), ValueError, 'bad altitude')
    for bad in (-0.001, 360.0):
        with ctx.case(bad_az=bad):
            ctx.raises(lambda: bs(c1=bad, radec=False), ValueError, 'bad azimuth')
    for ms in list(range(0, 1002)) + [59999, 60000, 60001, 61500, 3599999, 3600000, 3661001, 35999999, 36000000, 86399999, 86400000, 123456789]:
        h, rest = divmod(ms, 3600000)
        m, rest = divmod(rest, 60000)
        forms = [ms/1000.0, timedelta(milliseconds=ms), ms/1000.0*U.s, ms*U.ms, '%i:%02i:%06.3f' % (h, m, rest/1000.0), '%.3f' % (ms/1000.0), '%i:%06.3f' % (h*60+m, rest/1000.0),
                 timedelta(milliseconds=ms, microseconds=300)]
        for i, f in enumerate(forms):
            with ctx.case(duration=ms, form=i):
                o = drx(dur=f)
                ctx.equal((o.dur, bs(dur=f).dur), (ms, ms), 'duration')
                ctx.equal(drx(dur=o.duration).dur, ms, 'duration in the form it is given back')
    for w in (222417950, 222417951, 832697741, 1621569285, 1928352663):
        for i, f in enumerate((hz(w), hz(w)*U.Hz, hz(w)/1e6*U.MHz, '%.6f' % hz(w))):
            with ctx.case(word=w, form=i):
                ctx.equal((drx(f1=f).freq1, bs(f1=f).freq1), (w, w), 'tuning word')
    with ctx.case(types=True):
        good = drx()
        p, specs, at = project(['drx'])
        ses = p.sessions[0]
        ctx.raises(lambda: sdf.Session('x', 1, observations=[good, 'no']), TypeError, 'a session of something else')
        ctx.raises(lambda: ses.observations.extend([good, 3]), TypeError, 'an observation of something else')
        ctx.raises(lambda: ses.append(bs()), TypeError, 'a step for an observation')
        ctx.equal(len(ses.observations), 1, 'observations kept')
        q = reread(ctx, p.render())
        ctx.raises(lambda: q.append('no'), TypeError, 'a session of something else, on a parsed project')
        ctx.raises(lambda: q.sessions[0].append('no'), TypeError, 'an observation of something else, on a parsed project')
    # Beam-dipole mode: the stand is translated through the station's wiring
    wiring = {}
    for a in lwa1.antennas:
        wiring.setdefault(a.stand.id, set()).add((a.digitizer+1)//2)
    for stand in range(0, N+1):
        for cls in ('drx', 'stp'):
            with ctx.case(beam_dipole=stand, cls=cls):
                p, specs, at = project([cls])
                o = p.sessions[0].observations[0]
                if stand and stand not in wiring:
                    ctx.raises(lambda: o.set_beamdipole_mode(stand), ValueError, 'a stand that is not there')
                    continue
                o.set_beamdipole_mode(stand, beam_gain=0.25, dipole_gain=0.75, pol='y')
                if stand == 0:
                    ctx.equal(o.beamDipole, None, 'no beam-dipole mode')
                else:
                    ctx.check(o.beamDipole[0] in wiring[stand] and o.beamDipole[1:] == [0.25, 0.75, 'Y'], 'beam-dipole setup', got=o.beamDipole)
                    q = reread(ctx, p.render())
                    ctx.equal(q.sessions[0].observations[0].beamDipole, o.beamDipole, 'beam-dipole setup in the file')


MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
SECONDS = [('%02i' % s, s*1000) for s in (0, 7, 59)] + [('0', 0), ('5', 5000)] + \
          [('%s.%s' % (a, b), int(a)*1000+r) for a in ('0', '12', '59') for b, r in (('0', 0), ('5', 500), ('001', 1), ('0004', 0), ('9994', 999), ('9996', 1000), ('999', 999), ('123456', 123))]
ZONES = [(None, 0), ('UTC', 0), ('UT', 0)]
LOCAL = (('EST', 'EDT', -5), ('CST', 'CDT', -6), ('MST', 'MDT', -7), ('PST', 'PDT', -8))
OFFSETS = [('+00:00', 0), ('-07:00', -420), ('+05:30', 330), ('-03:30', -210), ('+0530', 330), ('-1200', -720), ('+5:30', 330), ('-3:30', -210), ('+14:00', 840), ('-0:30', -30)]
DATES = [(2024, 1, 1), (2024, 2, 29), (2024, 12, 31), (2023, 2, 28), (2000, 2, 29), (2024, 7, 4), (1999, 12, 31), (2016, 3, 1), (2030, 10, 9)]


def times(ctx):
    layouts = (lambda y, m, d: '%04i %02i %02i' % (y, m, d), lambda y, m, d: '%04i/%02i/%02i' % (y, m, d), lambda y, m, d: '%04i-%02i-%02i' % (y, m, d),
               lambda y, m, d: '%04i %s %i' % (y, MONTHS[m-1], d))
    for date in DATES:
        for hh, mm in ((0, 0), (23, 59), (9, 5)):
            for text, ms in SECONDS:
                base = datetime(*date, hh, mm, tzinfo=timezone.utc) + timedelta(milliseconds=ms)
                for li, lay in enumerate(layouts):
                    with ctx.case(date=date, time=(hh, mm, text), layout=li):
                        core = '%s%s%02i:%02i:%s' % (lay(*date), 'T' if li == 2 else ' ', hh, mm, text)
                        for z, off in ZONES:
                            got = parse_time((z+' ' if z else '')+core)
                            ctx.equal(got, base, 'instant', zone=z, text=core)
                            ctx.equal(got.utcoffset(), timedelta(0), 'time zone of the result')
                        for o, off in OFFSETS:
                            ctx.equal(parse_time(core+' '+o), base-timedelta(minutes=off), 'instant', offset=o, text=core)
                        for std, dst, off in LOCAL:
                            summer = date[1:] in ((7, 4), (10, 9))
                            ctx.equal(parse_time((dst if summer else std)+' '+core), base-timedelta(hours=off+summer), 'instant', zone=(std, dst), text=core)
                        ctx.step()
                # Instances
                for us in (0, 300, 1000, 999400, 999600, 123456):
                    for off in (0, -420, 330):
                        with ctx.case(date=date, time=(hh, mm), us=us, zone=off):
                            tz = timezone(timedelta(minutes=off))
                            t = datetime(*date, hh, mm, 59, us, tzinfo=tz)
                            want = datetime(*date, hh, mm, 59, tzinfo=timezone.utc) - timedelta(minutes=off) + timedelta(milliseconds=round(us/1000.0))
                            ctx.equal(parse_time(t), want, 'instant of a datetime')
                            if off == 0 and date[0] >= 2000:
                                got = parse_time(ATime(t.replace(tzinfo=None)))
                                ctx.check(abs(got-want) <= timedelta(milliseconds=1), 'instant of an astropy time', got=str(got), want=str(want))
                            o = sdf.TBS('n', 't', t, 1.0, 38e6, 8)
                            ctx.equal(datetime(1858, 11, 17, tzinfo=timezone.utc)+timedelta(days=o.mjd, milliseconds=o.mpm), want, 'MJD and MPM')
                            ctx.equal(parse_time(o.start[:-3]), want, 'start as text')
                            a, b = sdf.get_observation_start_stop(o)
                            ctx.equal((a, b), (want, want+timedelta(seconds=1)), 'start and stop')
    for bad in ('', 'yesterday', '2024/13/01 00:00:00', '2024/02/30 00:00:00', '2024/01/01 24:00:00', '2024/01/01 00:60:00', '2024/01/01', '2024 Foo 01 00:00:00', '2024/01/01 00:00:00 +99:00',
                datetime(2024, 1, 1)):
        with ctx.case(bad=bad):
            ctx.raises(lambda: parse_time(bad), ValueError, 'something that is not a time')


def sidereal(ctx):
    """The UT found for a sidereal time has that sidereal time."""
    site = lwa1.get_observer()
    for year in (2000, 2012, 2024, 2040):
        for month in range(1, 13):
            for hour in range(24):
                for text, sec in (('00:00', 0), ('59:59.999', 3599.999), ('30:15.25', 1815.25)):
                    with ctx.case(lst=(year, month, hour, text)):
                        t = parse_time('LST %04i %02i 15 %02i:%s' % (year, month, hour, text))
                        ctx.check(timedelta(0) <= t-datetime(year, month, 15, tzinfo=timezone.utc) <= timedelta(days=1), 'not on the date asked for', got=str(t))
                        site.date = ephem.Date(t.replace(tzinfo=None))
                        got = float(site.sidereal_time())*12/ephem.pi*3600
                        want = hour*3600 + sec
                        d = (got-want+43200) % 86400 - 43200
                        ctx.check(abs(d) < 3.0, 'sidereal time', off_by=d)


def units(tier):
    u = {'singles': singles, 'pairs-beam': pairs('beam'), 'pairs-wide': pairs('wide'), 'middle-drx': middle('drx'), 'middle-stp': middle('stp'), 'middle-sun': middle('sun'), 'last-drx': last('drx'), 'last-stp': last('stp'), 'triples-wide': triples(0, 1, 'wide'), 'steps': step_sequences(3),
         'sessions': sessions, 'texts': texts, 'several-sessions': several_sessions, 'limits': limits, 'overlaps': overlaps, 'values': values,
         'times': times, 'sidereal': sidereal}
    if tier == 'thorough':
        for i in range(12):
            u[f'triples-{i}'] = triples(i, 12)
    return u
