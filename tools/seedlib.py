"""seed(): write one planted bug under seeded/; seedtest: confirm it (build, stable tests, demo, check)."""
import os, sys, json, subprocess, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def seed(id, prop, edits, needs, breaks, demo):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new, *mark in edits:
            p = os.path.join('/repo', f)
            s = open(p).read()
            if mark:
                # the first occurrence after a marker
                i = s.index(old, s.index(mark[0]))
                s = s[:i] + new + s[i+len(old):]
            else:
                assert s.count(old) == 1, (f, s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        sh('git -C /repo checkout -- .')
    with open(os.path.join(d, 'demo.py'), 'w') as fh:
        fh.write(demo.lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as fh:
        fh.write('#!/bin/bash\n'
                 '# exit 0: the property holds here; nonzero: it does not\n'
                 'D=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
                 'export HOME=$T LSLCONFIGDIR=$T/lsl XDG_CONFIG_HOME=$T MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 SCRATCH=$T PYTHONPATH=/repo\n'
                 'timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', id)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return set(b['stable'])


def test(id, tests=True):
    d = os.path.join(V, 'seeded', id)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    res = {}
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    res['demo clean'] = r.returncode
    if r.returncode:
        print(r.stdout.decode()[-1500:])
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stdout
        r = sh('bash /opt/vp/build.sh')
        res['build'] = r.returncode
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        res['demo bug'] = r.returncode
        res['demo says'] = r.stdout.decode().strip().splitlines()[-1:]
        r = sh('VERIF_TIER=quick VERIF_SEED=1 python3 %s/check.py %s quick' % (V, meta['property']), cwd=V)
        res['check'] = r.returncode
        res['check says'] = [l for l in r.stdout.decode().splitlines() if l.startswith('VIOLATION') or l.startswith('  key') or l.startswith('  case')][:3]
        if tests:
            r = sh('bash /opt/vp/test.sh /tmp/seed-%s.json' % id)
            t = json.load(open('/tmp/seed-%s.json' % id))
            res['tests lost'] = sorted(stable() - set(t['passed']))
            os.unlink('/tmp/seed-%s.json' % id)
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        sh('rm -f %s/replays/%s-*.json' % (V, meta['property']))
    ok = res['demo clean'] == 0 and res['build'] == 0 and res['demo bug'] != 0 and not res.get('tests lost')
    print(id, 'COUNTS' if ok else 'INVALID', 'CAUGHT' if res['check'] == 1 else 'MISSED', json.dumps(res), flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    nt = '--no-tests' in a
    for i in [x for x in a if not x.startswith('--')]:
        test(i, not nt)
