"""Import a module and then, in forked children, one further module each; report on it."""
import io
import os
import sys
root, first, then = sys.argv[1], sys.argv[2], sys.argv[3:]
sys.path.insert(0, root)


def state():
    import signal
    import locale
    d = {'cwd': os.getcwd(), 'umask': os.umask(0o22), 'locale': locale.setlocale(locale.LC_ALL),
         'recursion': sys.getrecursionlimit(), 'path': [p for p in sys.path if 'lsl' in p.lower()], 'stdout': sys.stdout is OUT,
         'sigterm': str(signal.getsignal(signal.SIGTERM)), 'sigalrm': str(signal.getsignal(signal.SIGALRM))}
    os.umask(d['umask'])
    if 'numpy' in sys.modules:
        import numpy
        d['errors'] = numpy.geterr()
    else:
        d['errors'] = {'divide': 'warn', 'over': 'warn', 'under': 'ignore', 'invalid': 'warn'}
    return d


def look(name):
    r = {'module': name, 'error': None, 'missing': [], 'foreign': [], 'printed': '', 'changed': []}
    before = state()
    OUT.seek(0)
    OUT.truncate()
    try:
        __import__(name)
    except BaseException as e:
        r['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
    r['printed'] = OUT.getvalue()[:300]
    after = state()
    r['changed'] = sorted(k for k in before if before[k] != after[k])
    if r['error'] is None:
        m = sys.modules[name]
        names = list(getattr(m, '__all__', ()))
        r['missing'] = sorted(set(n for n in names if not hasattr(m, n)))
        ns = {}
        try:
            exec('from %s import *' % name, ns)
            r['foreign'] = sorted(set(names) - set(ns))
        except BaseException as e:
            r['foreign'] = ['%s: %s' % (type(e).__name__, str(e)[:300])]
    return r


REAL = sys.stdout
OUT = sys.stdout = io.StringIO()
a = look(first)
import json
REAL.write('RESULT ' + json.dumps(a) + '\n')
REAL.flush()
for t in then:
    pid = os.fork()
    if pid == 0:
        try:
            r = look(t)
            REAL.write('RESULT ' + json.dumps(r) + '\n')
            REAL.flush()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
