"""
S08 - every module of the package works on its own and leaves the process alone.

Every module is imported in a fresh interpreter (and, thorough, every ordered pair of
modules), its list of public names is compared with what it defines, and the state of the
process before and after the import is compared.
"""
import json
import os
import subprocess
import sys
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import vmc
import lsl

BOUNDS = 'all modules of the package, each in a fresh interpreter; thorough: all ordered pairs of modules'
ASSUMPTIONS = 'modules that are programs (__main__) or helper scripts of the package are left out; the telemetry opt-in is off'
HANG_S = 2000

ROOT = os.path.dirname(os.path.abspath(lsl.__file__))
PROG = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'importer.py')


def modules():
    out = []
    for d, dirs, files in os.walk(ROOT):
        if '__init__.py' not in files:
            dirs[:] = []
            continue
        dirs.sort()
        rel = os.path.relpath(d, os.path.dirname(ROOT)).replace(os.sep, '.')
        out.append(rel)
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith('_'):
                out.append(rel + '.' + f[:-3])
    return [m for m in out if '__main__' not in m]


def run(ctx, first, then):
    home = os.path.join(ctx.scratch, 'home')
    os.makedirs(home, exist_ok=True)
    env = dict(os.environ, HOME=home, PYTHONPATH=os.path.dirname(ROOT), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg')
    p = subprocess.run([sys.executable, '-I', '-W', 'ignore', PROG, os.path.dirname(ROOT), first] + then, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ctx.scratch, timeout=1500)
    last = [l for l in p.stdout.decode('utf-8', 'replace').split('\n') if l.startswith('RESULT ')]
    if p.returncode != 0 or len(last) != 1 + len(then):
        raise vmc.Fail('import', 'importing %s failed: %s' % (first, p.stderr.decode('utf-8', 'replace')[-500:]))
    return [json.loads(l[7:]) for l in last]


def judge(ctx, m, r):
    ctx.check(r['error'] is None, 'import', 'importing %s fails: %s' % (m, r['error']))
    ctx.equal(r['missing'], [], 'exports', 'names that %s lists and does not define' % m)
    ctx.equal(r['foreign'], [], 'exports', 'names that %s lists and that cannot be imported with *' % m)
    ctx.equal(r['printed'], '', 'printed', 'what importing %s prints' % m)
    ctx.equal(r['changed'], [], 'state', 'process state changed by importing %s' % m)


def alone(part, n):
    def unit(ctx):
        ms = modules()
        for m in ms[part::n]:
            with ctx.case(module=m):
                r = run(ctx, m, [])[0]
                ctx.step()
                judge(ctx, m, r)
                ctx.state(m)
    return unit


def pairs(part, n):
    def unit(ctx):
        ms = modules()
        for m in ms[part::n]:
            with ctx.case(first=m):
                rs = run(ctx, m, [x for x in ms if x != m])
                judge(ctx, m, rs[0])
                for r in rs[1:]:
                    ctx.step()
                    judge(ctx, r['module'] + ' after ' + m, r)
                    ctx.state((m, r['module']))
    return unit


def units(tier):
    if tier == 'quick':
        return {'alone %d' % i: alone(i, 8) for i in range(8)}
    return {'pairs %d' % i: pairs(i, 8) for i in range(8)}
