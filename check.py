#!/opt/venv/bin/python
"""
check.py ID [quick|thorough] [--unit NAME]... [-v] [--replay FILE]

Decides one property on /repo's current working tree.  Exit 0: it held on
everything explored.  Exit 1 with "VIOLATION property=ID replay=PATH": it is
broken.  Any other exit status: the check itself failed.
"""
import os
import sys

PY = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and os.path.exists(PY) and not os.environ.get('VMC_REEXEC'):
    os.environ['VMC_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)

import glob
import json
import time
import shutil
import tempfile
import argparse
import subprocess
import importlib.util
import importlib.machinery

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VMC_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'lib'))
EXTS = ['reader._gofast', 'correlator._core', 'correlator._spec', 'correlator._stokes',
        'imaging._gridder', 'misc._beamformer', 'misc._wisdom', 'sim._simfast']


class BuiltExtFinder(object):
    """Load LSL's C++ extensions from this run's own out-of-tree build."""
    def __init__(self, lib, version):
        self.map = {}
        for so in glob.glob(os.path.join(lib, 'lsl', '*', '*.so')):
            name = 'lsl.%s.%s' % (os.path.basename(os.path.dirname(so)), os.path.basename(so).split('.')[0])
            self.map[name] = so
        self.version = version

    def find_spec(self, name, path=None, target=None):
        if name in self.map:
            loader = importlib.machinery.ExtensionFileLoader(name, self.map[name])
            return importlib.util.spec_from_file_location(name, self.map[name], loader=loader)
        if name == 'lsl.version':
            return importlib.util.spec_from_file_location(name, self.version, submodule_search_locations=[os.path.join(REPO, 'lsl', 'version')])
        return None


def environment(scratch):
    """A private home/config area so that LSL touches nothing of the system's."""
    for k in ('PYTHONPATH', 'GITHUB_ACTIONS', 'LSLCONFIGDIR', 'WITH_GSL', 'WITH_FFTW'):
        os.environ.pop(k, None)
    home = os.path.join(scratch, 'home')
    os.makedirs(os.path.join(home, 'xdg'))
    os.makedirs(os.path.join(home, 'tmp'))
    if os.path.isdir('/opt/vp/etc/astropy'):
        shutil.copytree('/opt/vp/etc/astropy', os.path.join(home, 'xdg', 'astropy'))
    os.environ.update({'HOME': home, 'LSLCONFIGDIR': os.path.join(home, 'lsl'), 'XDG_CONFIG_HOME': os.path.join(home, 'xdg'),
                       'TMPDIR': os.path.join(home, 'tmp'),
                       'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '2', 'OPENBLAS_NUM_THREADS': '1', 'TZ': 'UTC',
                       'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
                       'PYTHONWARNINGS': 'ignore'})
    time.tzset()
    tempfile.tempdir = None
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, 'pycache')


def build(scratch):
    env = dict(os.environ, CCACHE_DISABLE='1')
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    out = os.path.join(scratch, 'ext')
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'lib', 'build_ext.py'), REPO, out] + EXTS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors='replace')[-4000:])
        print('check.py: building the extensions failed', file=sys.stderr)
        sys.exit(2)
    return os.path.join(out, 'lib'), os.path.join(out, 'version_init.py')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--unit', action='append')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    args = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args.replay:
        with open(args.replay) as fh:
            rp = json.load(fh)
        args.unit, args.tier = [rp['unit']], rp['tier']

    scratch = tempfile.mkdtemp(prefix='vmc-%s-' % args.id)
    rc = 2
    try:
        environment(scratch)
        lib, version = build(scratch)
        sys.path.insert(0, REPO)
        sys.meta_path.insert(0, BuiltExtFinder(lib, version))
        os.environ['VMC_EXTLIB'] = lib
        os.environ['VMC_VERSION'] = version
        os.chdir(scratch)
        files = glob.glob(os.path.join(VERIF, 'checks', args.id + '_*.py'))
        if len(files) != 1:
            print('check.py: no (unique) driver for %s' % args.id, file=sys.stderr)
            sys.exit(2)
        import warnings
        warnings.simplefilter('ignore')
        spec = importlib.util.spec_from_file_location('driver', files[0])
        drv = importlib.util.module_from_spec(spec)
        sys.modules['driver'] = drv
        spec.loader.exec_module(drv)
        import vmc
        units = drv.units(args.tier)
        if args.unit:
            units = {k: v for k, v in units.items() if k in args.unit}
        tlimit = 840 if args.tier == 'quick' else 6*3600
        results = vmc.supervise(units, args.tier, scratch, jobs=args.jobs, hang_s=getattr(drv, 'HANG_S', 120),
                                total_s=tlimit, verbose=args.v)
        rc = report(args, drv, results, t0, seed)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(args, drv, results, t0, seed):
    pid = args.id
    known = {}
    with open(os.path.join(VERIF, 'known_findings.json')) as fh:
        for k in json.load(fh)['findings']:
            if k['property'] == pid and k.get('status') == 'open':
                known[k['key']] = k
    states = set()
    for r in results:
        states.update(r['unit'] + h for h in r['states'])
    viol = []
    seen_known = {}
    for r in results:
        for v in r['violations']:
            kid = '%s/%s' % (v['unit'].split('#')[0], v['key'])
            if kid in known:
                seen_known.setdefault(kid, v)
            else:
                viol.append(v)
    for kid in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[kid]['what']))
    samples = []
    for r in results:
        for s in r['samples'][:2]:
            samples.append({'unit': r['unit'], 'case': s[:600]})
    capped = [c for r in results for c in r['capped']]
    ev = {'property': pid, 'tier': args.tier, 'seed': seed, 'level': getattr(drv, 'LEVEL', 'model_checking'),
          'coverage': {'states': len(states),
                       'transitions': sum(r['transitions'] for r in results),
                       'traces_validated_against_impl': sum(r['executions'] for r in results),
                       'distinct_outcomes': sum(r['outcomes'] for r in results),
                       'units': {r['unit']: {'executions': r['executions'], 'transitions': r['transitions'],
                                             'states': len(r['states']), 'wall_s': round(r['wall'], 2)} for r in results},
                       'bounds': getattr(drv, 'BOUNDS', ''),
                       'rule': 'every execution runs the code of /repo (there is no separate model to bind); each is compared step by step with the reference model in the driver',
                       'samples': samples[:24],
                       'exhaustive': not capped, 'caps': capped},
          'assumptions': list(getattr(drv, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time()-t0, 2), 'violations': len(viol), 'known_findings': sorted(seen_known)}
    if ev['level'] in ('exploration', 'fault_enumeration'):
        ev['coverage']['evaluations'] = ev['coverage'].pop('traces_validated_against_impl')
        ev['coverage']['distinct_nontrivial'] = ev['coverage'].pop('states')
    if not args.unit:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.%i' % (pid, os.getpid()))
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        done = set()
        for i, v in enumerate(viol):
            if (v['unit'], v['key']) in done:
                continue
            done.add((v['unit'], v['key']))
            path = os.path.join(VERIF, 'replays', '%s-%i.json' % (pid, len(done)))
            with open(path, 'w') as fh:
                json.dump(dict(v, property=pid, tier=args.tier,
                               how='%s/check.py %s --replay %s' % (VERIF, pid, path)), fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  unit: %s\n  key: %s\n  case: %s\n  %s' % (v['unit'], v['key'], v['case'][:1000], v['message'][:2000].replace('\n', '\n  ')))
            if len(done) >= 10:
                break
        return 1
    print('OK property=%s tier=%s states=%i transitions=%i executions=%i wall=%.1fs'
          % (pid, args.tier, len(states), sum(r['transitions'] for r in results), sum(r['executions'] for r in results), time.time()-t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
