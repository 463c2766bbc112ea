"""
M02 - interferometer definition files, and the session files made from them,
say what the project says.

Every scan setting, every ordered pair and triple of scans, every sequence of
alternate phase centers and every run setting is rendered, parsed, rendered
again and turned into the session definition files of every station.
"""
import os
import copy
import math
import itertools
from datetime import datetime, timedelta, timezone

import ephem
from astropy import units as U
from astropy.coordinates import Angle as AAngle

import logging
logging.disable(logging.CRITICAL)

from lsl.common import idf, sdf
from lsl.common.stations import get_all_stations, lwa1, lwasv, lwana, ovrolwa

BOUNDS = ('17 kinds of scan in every ordered pair and triple; 5 kinds of alternate phase center in all sequences of up to 3; every run setting alone and in pairs; '
          'both sides of every limit; the session files of every station for every pair of scans')
ASSUMPTIONS = ('texts are single lines without surrounding blanks; None is written as "None provided"; coordinates are kept to 1e-9 and proper motions to 0.1 mas/yr; '
               'targets are above the horizon of every station on 2024-07-02 17 h UTC')
HANG_S = 300

T0 = datetime(2024, 7, 2, 17, 0, 0, tzinfo=timezone.utc)
MJD0, MPM0 = 60493, 17*3600*1000
FS, W32 = 196e6, 2**32


def hz(word):
    return word*FS/W32


CENTERS = {
    'a': ('first', 'target', 5.5, 70.25, (0.0, 0.0)),
    'b': ('second one', 'phasecal', 5.51, 70.5, (12.5, -3.0)),
    'c': ('third', 'fluxcal', 5.49, 70.0, (0.0, 0.1)),
    'd': ('fourth', 'dummy', 5.500000001, 70.250000001, (-1000.5, 0.0)),
    'e': ('fifth', 'target', 5.5, 70.6, (0.0, 0.0)),
}


def scan(mode='TRK_RADEC', **kw):
    d = {'mode': mode, 'target': 'target of '+mode, 'intent': 'target', 'dur': 4321, 'comments': 'about '+mode,
         'w1': 438261968, 'w2': 832697741, 'filter': 7, 'gain': -1, 'asp': -1, 'alt': ''}
    if mode == 'TRK_RADEC':
        d.update(ra=5.5, dec=70.25, pm=(0.0, 0.0))
    d.update(kw)
    return d


SCANS = {
    'drx': scan(), 'ra0': scan(ra=0.0, dec=89.5, comments=None), 'ra24': scan(ra=23.999999, dec=60.123456789, intent='fluxcal'),
    'pm': scan(pm=(105.5, -20.1)), 'pmra': scan(pm=(-3.0, 0.0), intent='phasecal'), 'pmdec': scan(pm=(0.0, 7.7), intent='dummy'),
    'edge': scan(ra=23.9999999, pm=(3000.0, 1000.0)), 'edge0': scan(ra=0.0000001, pm=(-3000.0, 0.0)),
    'gain': scan(gain=6), 'gain0': scan(gain=0, w2=0), 'asp': scan(asp=3), 'asp0': scan(asp=0, gain=1),
    'alt': scan(alt='a'), 'alts': scan(alt='bce', pm=(1.0, 2.0)),
    'sun': scan('TRK_SOL'), 'sun2': scan('TRK_SOL', gain=5, asp=7, comments=None, intent='dummy', w1=222417950, w2=1928352663),
    'jup': scan('TRK_JOV', dur=1),
}


def build(s, ms):
    start = T0 + timedelta(milliseconds=ms)
    args = [s['target'], s['intent'], start, s['dur']/1000.0]
    kw = dict(gain=s['gain'], comments=s['comments'])
    if s['mode'] == 'TRK_RADEC':
        args += [s['ra'], s['dec']]
        kw['pm'] = list(s['pm'])
    args += [hz(s['w1']), hz(s['w2']), s['filter']]
    o = {'TRK_RADEC': idf.DRX, 'TRK_SOL': idf.Solar, 'TRK_JOV': idf.Jovian}[s['mode']](*args, **kw)
    for i, c in enumerate(s['alt']):
        t, n, r, d, p = CENTERS[c]
        if i % 2:
            o.add_alt_phase_center(idf.AlternatePhaseCenter(t, n, r, d, pm=list(p)))
        else:
            o.add_alt_phase_center(t, n, r, d, pm=list(p))
    o.asp_filter = s['asp']
    return o


def said(o):
    d = {'mode': o.mode, 'target': o.target, 'intent': o.intent, 'comments': o.comments, 'when': (o.mjd-MJD0)*86400000+o.mpm-MPM0, 'dur': o.dur,
         'w1': o.freq1, 'w2': o.freq2, 'filter': o.filter, 'gain': o.gain, 'asp': o.asp_filter}
    d['alt'] = [(a.target, a.intent, round(a.ra, 9), round(a.dec, 9), tuple(a.pm)) for a in o.alt_phase_centers]
    if o.mode == 'TRK_RADEC':
        d.update(ra=round(o.ra, 9), dec=round(o.dec, 9), pm=tuple(o.pm))
    return d


def expected(s, ms, read=False):
    d = {k: s[k] for k in ('mode', 'target', 'intent', 'comments', 'dur', 'w1', 'w2', 'filter', 'gain', 'asp')}
    d['when'] = ms
    if read and d['comments'] is None:
        d['comments'] = 'None provided'
    d['alt'] = [(c[0], c[1], round(c[2], 9), round(c[3], 9), c[4]) for c in (CENTERS[k] for k in s['alt'])]
    if s['mode'] == 'TRK_RADEC':
        d.update(ra=round(s['ra'], 9), dec=round(s['dec'], 9), pm=tuple(s['pm']))
    return d


RUN = ('name', 'id', 'data_return_method', 'ucf_username', 'correlator_channels', 'correlator_inttime', 'correlator_basis')


def run_says(run):
    d = {k: getattr(run, k) for k in RUN}
    d['stations'] = [s.id for s in run.stations]
    return d


def project(names, specs=None, gap=1000, order=None, **run):
    specs = specs or [SCANS[n] for n in names]
    at, ms = [], 0
    for s in specs:
        at.append(ms)
        ms += s['dur'] + gap
    sc = [build(s, t) for s, t in zip(specs, at)]
    if order is not None:
        sc = [sc[i] for i in order]
    r = idf.Run('a run', run.pop('id', 101), scans=sc, comments=run.pop('comments', None))
    for k, v in run.items():
        setattr(r, k, v)
    p = idf.Project(idf.Observer('Doe, Jane', 99), 'the project', 'DJ001', [r], comments='all about it')
    return p, specs, at


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def reread(ctx, text):
    path = os.path.join(ctx.scratch, 'x.idf')
    with open(path, 'w') as fh:
        fh.write(text)
    return idf.parse_idf(path)


def round_trip(ctx, p, specs, at, what, run=0):
    r = p.runs[run]
    before = run_says(r)
    office = (p.project_office.project, copy.deepcopy(p.project_office.runs), copy.deepcopy(p.project_office.scans))
    remarks = (p.comments, r.comments)
    for o, s, t in zip(sorted(r.scans, key=lambda o: (o.mjd, o.mpm)), specs, at):
        d = diff(said(o), expected(s, t))
        ctx.check(not d, 'a scan does not say what it was made with', what=what, different=d)
    text = p.render(run)
    ctx.step()
    ctx.check(p.render(run) == text, 'rendering a project twice gives two different files', what=what)
    ctx.check(not diff(run_says(r), before) and remarks == (p.comments, r.comments)
              and office == (p.project_office.project, p.project_office.runs, p.project_office.scans), 'rendering a project changes its settings', what=what)
    q = reread(ctx, text)
    ctx.step()
    got = q.runs[0].scans
    ctx.equal(len(got), len(specs), 'scans read back', what=what)
    for i, (o, s, t) in enumerate(zip(got, specs, at)):
        d = diff(said(o), expected(s, t, True))
        ctx.check(not d, 'a scan changes on its way through a file', what=what, scan=i, different=d)
    ctx.equal((q.observer.name, q.observer.id, q.name, q.id, q.comments), (p.observer.name, p.observer.id, p.name, p.id, p.comments or 'None provided'),
              'project information', what=what)
    d = diff(run_says(q.runs[0]), before)
    ctx.check(not d, 'a run setting changes on its way through a file', what=what, different=d)
    ctx.check(q.validate(), 'a project that was rendered is not valid once read back', what=what)
    again = q.render()
    ctx.check(again == text, 'a file that is read and rendered again is different', what=what,
              different=lambda: [(a, b) for a, b in itertools.zip_longest(text.split('\n'), again.split('\n')) if a != b][:4])
    return text, q


def moved(ra, dec, pm, ms):
    years = (MJD0 + (MPM0+ms)/86400000.0 - 51544.5)/365.25
    return (ra + years*pm[0]/math.cos(math.radians(dec))/3600e3/15) % 24.0, dec + years*pm[1]/3600e3


def near(a, b, wrap=None):
    d = abs(a-b)
    return d < 2e-9 or (wrap is not None and abs(d-wrap) < 2e-9)


def sessions_of(ctx, p, specs, at, what, first=1):
    """The session files made from a run."""
    run = p.runs[0]
    out = p.generate_sdfs(first)
    ctx.step()
    ctx.equal(len(out), len(run.stations), 'session files', what=what)
    for i, (q, st) in enumerate(zip(out, run.stations)):
        ctx.equal((q.observer.name, q.observer.id, q.id, q.comments), (p.observer.name, p.observer.id, p.id, p.comments), 'project of a session file')
        ctx.equal(len(q.sessions), 1, 'sessions in a session file')
        ses = q.sessions[0]
        ctx.equal((ses.id, ses.station.id), (first+i, st.id), 'session number and station', what=what)
        ctx.equal(len(ses.observations), len(specs), 'observations', what=what)
        for j, (o, s, t) in enumerate(zip(ses.observations, specs, at)):
            e = expected(s, t)
            got = {'mode': o.mode, 'target': o.target, 'intent': o.name, 'when': (o.mjd-MJD0)*86400000+o.mpm-MPM0, 'dur': o.dur, 'w1': o.freq1, 'w2': o.freq2,
                   'filter': o.filter, 'gain': o.gain, 'asp': o.asp_filter[0] if len(set(o.asp_filter)) == 1 else o.asp_filter}
            want = {k: e[k] for k in got}
            ctx.check(not diff(got, want), 'an observation of a session file is not the scan', what=what, station=st.id, scan=j, different=lambda: diff(got, want))
            ctx.check((s['comments'] or '') in (o.comments or ''), 'comments of a scan are lost', what=what)
            if s['mode'] == 'TRK_RADEC':
                ra, dec = moved(s['ra'], s['dec'], s['pm'], t)
                ctx.check(near(o.ra, ra, 24.0) and near(o.dec, dec), 'pointing of an observation', what=what, got=(o.ra, o.dec), want=(ra, dec))
            text = ''
            for n, c in enumerate(s['alt']):
                c = CENTERS[c]
                ra, dec = moved(c[2], c[3], c[4], t)
                text += 'alttarget%i:%s;;altintent%i:%s;;altra%i:%.9f;;altdec%i:%+.9f;;' % (n+1, c[0], n+1, c[1], n+1, ra, n+1, dec)
            office = q.project_office.observations[0]
            note = office[j] if j < len(office) else None
            if text:
                ctx.equal((note or '')[:len(text)], text, 'alternate phase centers in the session file', what=what)
            else:
                ctx.check(not (note or '').startswith('alttarget'), 'alternate phase centers of another scan', what=what, got=note)
        note = q.project_office.sessions[0]
        for part in ('corrchannels:%i' % run.correlator_channels, 'corrinttime:%.3f' % run.correlator_inttime, 'corrbasis:%s' % run.correlator_basis, 'origuser:%s' % run.ucf_username,
                     'origreturn:%s' % run.data_return_method.lower()):
            ctx.check(part in note.split(';;'), 'correlator setup in the session file', what=what, missing=part, got=note)
        ctx.check(q.validate(), 'a session file made from a valid run is not valid', what=what, station=st.id)
        text = q.render()
        path = os.path.join(ctx.scratch, 'x.sdf')
        with open(path, 'w') as fh:
            fh.write(text)
        b = sdf.parse_sdf(path)
        ctx.equal([(o.mode, o.mjd, o.mpm, o.dur, o.freq1, o.freq2, o.gain, o.asp_filter) for o in b.sessions[0].observations],
                  [(o.mode, o.mjd, o.mpm, o.dur, o.freq1, o.freq2, o.gain, o.asp_filter) for o in ses.observations], 'session file read back', what=what)
    return out


def singles(ctx):
    for name in SCANS:
        with ctx.case(scan=name):
            p, specs, at = project([name])
            text, q = round_trip(ctx, p, specs, at, name)
            sessions_of(ctx, p, specs, at, name)
            sessions_of(ctx, q, [dict(s, comments=s['comments'] or 'None provided') for s in specs], at, name, 17)
            ctx.equal(p.render(), text, 'file after making session files')
            path = os.path.join(ctx.scratch, 'y.idf')
            if os.path.exists(path):
                os.unlink(path)
            p.writeto(path)
            ctx.equal(open(path).read(), text, 'file contents written')
            ctx.check(idf.is_valid(path), 'a rendered file is not valid')
            ctx.raises(RuntimeError, lambda: p.writeto(path), 'writing over a file without being asked to')


def pairs(ctx):
    for names in itertools.product(SCANS, repeat=2):
        with ctx.case(scans=names):
            p, specs, at = project(names, gap=0, order=(1, 0))
            round_trip(ctx, p, specs, at, names)
            sessions_of(ctx, p, specs, at, names)
            ctx.state(names)


def triples(part, parts, middle=None):
    def run(ctx):
        for i, names in enumerate(itertools.product(SCANS, (middle,) if middle else SCANS, SCANS)):
            if i % parts != part:
                continue
            with ctx.case(scans=names):
                p, specs, at = project(names, gap=0)
                round_trip(ctx, p, specs, at, names)
                ctx.state(names)
    return run


def centers(ctx):
    for n in (1, 2, 3):
        for alt in itertools.product(CENTERS, repeat=n):
            for second in (False, True):
                with ctx.case(centers=alt, second_scan=second):
                    specs = [scan(alt=''.join(alt))]
                    if second:
                        specs.append(scan(alt='e'))
                    p, specs, at = project(None, specs)
                    round_trip(ctx, p, specs, at, alt)
                    sessions_of(ctx, p, specs, at, alt)
                    ctx.state((alt, second))


STATIONS = ([lwa1, lwasv], [lwa1, lwana], [lwasv, lwana], [lwana, lwasv, lwa1], [lwa1, lwasv, lwana, ovrolwa], [ovrolwa, lwa1])
SETTINGS = ([('id', v) for v in (1, 9999)] + [('correlator_channels', v) for v in (16, 32768, 1024)] + [('correlator_inttime', v) for v in (0.1, 10.0, 1.234)]
            + [('correlator_basis', v) for v in ('circular', 'stokes')] + [('data_return_method', v) for v in ('UCF', 'USB Harddrives')]
            + [('ucf_username', v) for v in ('jdoe', 'jdoe/a/b-c')] + [('stations', v) for v in STATIONS] + [('comments', v) for v in ('some words', 'a;;b')])


def runs(ctx):
    for a, b in itertools.combinations_with_replacement(SETTINGS, 2):
        if a[0] == b[0] and a != b:
            continue
        label = [(k, [s.id for s in v] if k == 'stations' else v) for k, v in (a, b)]
        with ctx.case(settings=label):
            p, specs, at = project(['drx', 'alt'], **{a[0]: a[1], b[0]: b[1]})
            text, q = round_trip(ctx, p, specs, at, label)
            sessions_of(ctx, p, specs, at, label)
            for i in range(2):
                q = reread(ctx, q.render())
            ctx.equal(q.render(), text, 'after two more rounds')
            ctx.state(label)


TEXTS = (None, 'plain', 'two  words', 'a;;b', '#1', 'SCAN_ID 3', 'Requested data return method', '100% [sure]')


def texts(ctx):
    for text in TEXTS:
        for user in (None, 'jdoe', 'jdoe/sub/dir'):
            with ctx.case(comments=text, user=user):
                p, specs, at = project(['drx', 'sun'], comments=text, ucf_username=user)
                p.comments = text
                out, q = round_trip(ctx, p, specs, at, (text, user))
                ctx.check((text or '') in (q.runs[0].comments or ''), 'run comments lost', got=q.runs[0].comments)
                for i in range(3):
                    q = reread(ctx, q.render())
                ctx.equal(q.render(), out, 'after three more rounds')
        for level in ('project', 'run', 'scan'):
            for other in (None, 'other'):
                if text is None:
                    continue
                with ctx.case(office=text, level=level, other=other):
                    p, specs, at = project(['drx', 'alts'])
                    po = p.project_office
                    po.project, po.runs, po.scans = other, [other], [[other]]
                    if level == 'project':
                        po.project = text
                    elif level == 'run':
                        po.runs = [text]
                    else:
                        po.scans = [[other, text]]
                    out, q = round_trip(ctx, p, specs, at, (text, level))
                    got = q.project_office
                    ctx.equal({'project': got.project, 'run': got.runs[0], 'scan': got.scans[0][1]}[level], text, 'project office comments', level=level)
                    made = sessions_of(ctx, p, specs, at, (text, level))
                    ctx.equal(p.render(), out, 'file after making session files')
                    for m in made:
                        o = m.project_office
                        ctx.check({'project': o.project, 'run': o.sessions[0], 'scan': o.observations[0][1]}[level].endswith(text), 'project office comments in a session file', level=level)


def limits(ctx):
    def judge(p, ok, **what):
        with ctx.case(expect=ok, **what):
            ctx.equal(bool(p.validate()), ok, 'validity', **what)
            ctx.outcome(str(ok))
            if ok:
                ctx.check(isinstance(p.render(), str), 'a valid project is not rendered')
            else:
                ctx.raises(RuntimeError, lambda: p.render(), 'rendering an invalid project', **what)
                ctx.raises(RuntimeError, lambda: p.generate_sdfs(), 'session files of an invalid project', **what)

    for v in (-1, 0, 1, 2, 9998, 9999, 10000):
        judge(project(['drx'], id=v)[0], 1 <= v <= 9999, run_id=v)
    for n in (1, 7, 8, 9):
        p = project(['drx'])[0]
        p.id = 'X'*n
        judge(p, n <= 8, project_id=n)
    for kind in ('drx', 'sun', 'jup'):
        for f in range(-1, 10):
            judge(project(None, [dict(SCANS[kind], filter=f)])[0], 1 <= f <= 7, kind=kind, filter=f)
        for w in (222417949, 222417950, 1928352663, 1928352664, 0):
            judge(project(None, [dict(SCANS[kind], w1=w)])[0], 222417950 <= w <= 1928352663, kind=kind, word1=w)
            judge(project(None, [dict(SCANS[kind], w2=w)])[0], w == 0 or 222417950 <= w <= 1928352663, kind=kind, word2=w)
        for d in (0, 1, 2):
            judge(project(None, [dict(SCANS[kind], dur=d)])[0], d >= 1, kind=kind, duration=d)
    for a, b, c in itertools.product((1, 5, 7), repeat=3):
        judge(project(None, [scan(filter=f) for f in (a, b, c)])[0], a == b == c, filters=(a, b, c))
    for dec, ok in ((-89.0, False), (-60.0, False), (60.0, True), (89.0, True)):
        judge(project(None, [scan(dec=dec)])[0], ok, dec=dec)
    for st in STATIONS:
        judge(project(['drx'], stations=st)[0], True, stations=[s.id for s in st])
        judge(project(['drx'], stations=st+st[:1])[0], False, stations_twice=[s.id for s in st])
    for n in (0, 9, 10, 11):
        judge(project(None, [scan(alt='a'*n)])[0], n <= 10, centers=n)
    # Too far from the pointing center: half of the beam, 2 degrees at 74 MHz
    for w, limit in ((832697741, 1.0*74e6/hz(832697741)), (1928352663, 1.0*74e6/hz(1928352663))):
        for f in (0.5, 0.98, 1.02, 2.0):
            for sign in (1, -1):
                for order in ((438261968, w), (w, 438261968)):
                    p = project(None, [scan(w1=order[0], w2=order[1])])[0]
                    p.runs[0].scans[0].add_alt_phase_center('x', 'target', 5.5, 70.25+sign*limit*f)
                    judge(p, f < 1, words=order, offset=sign*f)
    rate = 4128*4*19.6e6/4096
    for hours, ok in ((10*1024**4/rate/3600-0.01, True), (10*1024**4/rate/3600+0.01, False)):
        judge(project(None, [scan(dur=int(hours*3600000), dec=80.0)])[0], ok, hours=hours)
        judge(project(None, [scan(dur=int(hours*3600000/2), dec=80.0)]*2)[0], ok, hours_in_two=hours)
    # Values refused at once
    r = project(['drx'])[0].runs[0]
    for key, good, bad in (('correlator_channels', (16, 18, 32768), (0, 14, 15, 17, 32769, 32770)), ('correlator_inttime', (0.1, 1.0, 10.0), (0.0, 0.0999, 10.001, -1.0)),
                           ('correlator_basis', ('linear', 'circular', 'stokes', 'Linear'), ('', 'both', 'xy')), ('data_return_method', ('UCF', 'DRSU', 'USB Harddrives'), ('', 'tape')),
                           ('stations', ([lwa1, lwasv],), ([], [lwa1]))):
        for v in good:
            with ctx.case(setting=key, value=str(v)):
                setattr(r, key, v)
                ctx.equal(getattr(r, key), v, 'setting')
        for v in bad:
            with ctx.case(setting=key, bad=str(v)):
                before = getattr(r, key)
                ctx.raises(ValueError, lambda: setattr(r, key, v), 'a bad setting', setting=key, value=str(v))
                ctx.equal(getattr(r, key), before, 'setting after a refused value')
    span = range(0, 6)
    intervals = [(a, b) for a in span for b in span if a < b]
    for base in (0, 86400000 - MPM0 - 3):
        for x, y in itertools.product(intervals, repeat=2):
            with ctx.case(base=base, intervals=(x, y)):
                p = project(['drx'])[0]
                sc = p.runs[0].scans
                sc[0] = build(scan(dur=x[1]-x[0]), base+x[0])
                sc.append(build(scan(dur=y[1]-y[0]), base+y[0]))
                ctx.equal(bool(p.validate()), x[1] <= y[0] or y[1] <= x[0], 'validity of two intervals')
                ctx.state((base, x, y))


def values(ctx):
    def drx(ra=1.0, dec=70.0, dur=10.0, f1=38e6):
        return idf.DRX('t', 'target', T0, dur, ra, dec, f1, 74e6, 7)
    def apc(ra=1.0, dec=70.0):
        return idf.AlternatePhaseCenter('t', 'target', ra, dec)
    for h in (0.0, 0.000001, 1.5, 12.0, 23.999):
        for i, f in enumerate((h, ephem.hours(h*ephem.pi/12), AAngle(h, 'hourangle'), AAngle(h*15, 'deg'), AAngle(h, 'hourangle').to_string(unit='hourangle', precision=9))):
            with ctx.case(ra=h, form=i):
                ctx.check(abs(drx(ra=f).ra-h) < 1e-9 and abs(apc(ra=f).ra-h) < 1e-9, 'right ascension')
    for a in (-90.0, -12.345, 0.0, 34.5, 90.0):
        for i, f in enumerate((a, ephem.degrees(a*ephem.pi/180), AAngle(a, 'deg'), '%+.9fd' % a)):
            with ctx.case(dec=a, form=i):
                ctx.check(abs(drx(dec=f).dec-a) < 1e-9 and abs(apc(dec=f).dec-a) < 1e-9, 'declination')
    for bad in (-0.001, 24.0, 25.0):
        with ctx.case(bad_ra=bad):
            ctx.raises(ValueError, lambda: drx(ra=bad), 'bad right ascension')
            ctx.raises(ValueError, lambda: apc(ra=bad), 'bad right ascension')
    for bad in (-90.001, 90.001):
        with ctx.case(bad_dec=bad):
            ctx.raises(ValueError, lambda: drx(dec=bad), 'bad declination')
            ctx.raises(ValueError, lambda: apc(dec=bad), 'bad declination')
    for ms in list(range(0, 1002)) + [59999, 60000, 60001, 61500, 3599999, 3600000, 3661001, 36000000, 86400000, 123456789]:
        h, rest = divmod(ms, 3600000)
        m, rest = divmod(rest, 60000)
        for i, f in enumerate([ms/1000.0, timedelta(milliseconds=ms), ms/1000.0*U.s, ms*U.ms, '%i:%02i:%06.3f' % (h, m, rest/1000.0), '%.3f' % (ms/1000.0)]):
            with ctx.case(duration=ms, form=i):
                o = drx(dur=f)
                ctx.equal(o.dur, ms, 'duration')
                ctx.equal(drx(dur=o.duration).dur, ms, 'duration in the form it is given back')
    for w in (222417950, 832697741, 1928352663):
        for i, f in enumerate((hz(w), hz(w)*U.Hz, hz(w)/1e6*U.MHz, '%.6f' % hz(w))):
            with ctx.case(word=w, form=i):
                ctx.equal(drx(f1=f).freq1, w, 'tuning word')
    for day in range(0, 400, 7):
        for ms in (0, 1, 499, 999, 59999, 3599999, 86399999, 43200000):
            with ctx.case(start=(day, ms)):
                t = datetime(2023, 12, 31, tzinfo=timezone.utc) + timedelta(days=day, milliseconds=ms)
                o = idf.Solar('t', 'target', t, 1.5, 38e6, 74e6, 7)
                ctx.equal((o.mjd, o.mpm), (60309+day, ms), 'MJD and MPM')
                ctx.equal(idf.get_scan_start_stop(o), (t, t+timedelta(milliseconds=1500)), 'start and stop')
                ctx.equal(idf.Solar('t', 'target', o.start[:-3], 1.5, 38e6, 74e6, 7).mpm, ms, 'start as text')
    with ctx.case(types=True):
        p, specs, at = project(['drx'])
        r = p.runs[0]
        ctx.raises(TypeError, lambda: idf.Run('x', 1, scans=[drx(), 'no']), 'a run of something else')
        ctx.raises(TypeError, lambda: r.scans.extend([drx(), 3]), 'a scan of something else')
        ctx.raises(TypeError, lambda: r.append(apc()), 'a phase center for a scan')
        ctx.equal(len(r.scans), 1, 'scans kept')
        q = reread(ctx, p.render())
        ctx.raises(TypeError, lambda: q.append('no'), 'a run of something else, on a parsed project')
    for bad in ('', 'Target!', 'cal'):
        with ctx.case(bad_intent=bad):
            ctx.raises(ValueError, lambda: idf.Solar('t', bad, T0, 1, 38e6, 74e6, 7), 'a bad intent')


def units(tier):
    u = {'singles': singles, 'pairs': pairs, 'centers': centers, 'runs': runs, 'texts': texts, 'limits': limits, 'values': values}
    for i in range(8):
        u[f'triples-{i}'] = triples(i, 8)
    return u
