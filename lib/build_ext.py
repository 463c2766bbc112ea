"""Build a subset of /repo's C++ extensions out of tree, from the current
working tree.  usage: build_ext.py REPO OUTDIR ext.name [ext.name ...]

/repo's own setup.py provides the flags; only the output directories differ,
so nothing is written below /repo (lsl/version/__init__.py, which setup.py
regenerates, is git-ignored and left as it was)."""
import os, sys, runpy
import setuptools

repo, out = sys.argv[1:3]
os.makedirs(out, exist_ok=True)
want = set(sys.argv[3:])
os.chdir(repo)
orig = setuptools.setup

def setup(**kw):
    ext = [e for e in kw.get('ext_modules', []) if e.name in want]
    missing = want - {e.name for e in ext}
    if missing:
        raise SystemExit('unknown extensions: %s' % sorted(missing))
    kw['ext_modules'] = ext
    orig(**kw)

setuptools.setup = setup
sys.argv = ['setup.py', '-q', 'build_ext', '--force', '-j8', '--build-lib', os.path.join(out, 'lib'), '--build-temp', os.path.join(out, 'tmp')]
sys.path.insert(0, repo)
real_open = open
import builtins
def guarded_open(f, mode='r', *a, **k):
    if isinstance(f, str) and f == 'lsl/version/__init__.py' and 'w' in mode:
        f = os.path.join(out, 'version_init.py')
    return real_open(f, mode, *a, **k)
builtins.open = guarded_open
runpy.run_path('setup.py', run_name='__main__')
