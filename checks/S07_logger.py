"""
S07 - every log message reaches every enabled destination once, and nothing else.

All sequences of operations on lsl.logger up to the depth are run on a freshly loaded
module, with probe messages after every operation, and compared with a model of which
destinations are enabled at which level and of the filters.
"""
import importlib
import io
import itertools
import logging
import os
import re
import sys
import threading
import warnings

import lsl.logger
import vmc

BOUNDS = 'all sequences of up to 3 (quick) or 4 (thorough) out of 22 operations, with 7 probe messages after each of them; two threads that log at the same time'
ASSUMPTIONS = 'what happens to a message that matches one of several filters only is left open'
HANG_S = 300

LSL = os.path.dirname(os.path.abspath(lsl.logger.__file__))


def speaker(*path):
    """A function that logs as if it was in a certain LSL module."""
    code = compile("def say(logger, level, msg):\n    logger.log(level, msg)\n", os.path.join(LSL, *path), 'exec')
    space = {}
    exec(code, space)
    return space['say']


VOICES = {'lsl.common.sdf': speaker('common', 'sdf.py'), 'lsl.imaging.utils': speaker('imaging', 'utils.py')}
PROBES = [('lsl.common.sdf', logging.DEBUG), ('lsl.common.sdf', logging.INFO), ('lsl.common.sdf', logging.ERROR), ('lsl.imaging.utils', logging.WARNING), ('note', 25), ('warning', logging.WARNING), ('colored', logging.WARNING)]

OPS = [('console', 'A', None), ('console', 'B', logging.WARNING), ('console', None, logging.ERROR), ('console-off',),
       ('file', 'one', None, 'a'), ('file', 'two', logging.WARNING, 'w'), ('file', 'one', None, 'w'), ('file', 'missing/three', None, 'a'), ('file-off',),
       ('level', logging.DEBUG), ('level', logging.ERROR),
       ('handler+',), ('handler-',), ('threaded+',), ('threaded-',),
       ('filter+', 'lsl.common.*'), ('filter+', 'lsl.imaging.utils'), ('filter+', 'lsl_logger'), ('filter-', 'lsl.common.*'), ('filters-',),
       ('capture', True), ('capture', False)]


class Listing(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(self.format(record))


class Model(object):
    def __init__(self, stderr):
        self.console = ('stderr', 0)
        self.file = None
        self.level = logging.INFO
        self.handler = self.threaded = False
        self.filters = set()
        self.capture = False
        self.want = {k: [] for k in ('A', 'B', 'stderr', 'one', 'two', 'handler', 'threaded')}
        self.open = set()               # Messages about which nothing is said

    def apply(self, op):
        if op[0] == 'console':
            self.console = (op[1] or 'stderr', op[2] or 0)
        elif op[0] == 'console-off':
            self.console = None
        elif op[0] == 'file' and op[1] in ('one', 'two'):
            self.file = (op[1], op[2] or 0)
            if op[3] == 'w':
                self.want[op[1]] = []
        elif op[0] == 'file-off':
            self.file = None
        elif op[0] == 'level':
            self.level = op[1]
        elif op[0] in ('handler+', 'handler-'):
            self.handler = op[0] == 'handler+'
        elif op[0] in ('threaded+', 'threaded-'):
            self.threaded = op[0] == 'threaded+'
        elif op[0] == 'filter+':
            self.filters.add(op[1])
        elif op[0] == 'filter-':
            self.filters.discard(op[1])
        elif op[0] == 'filters-':
            self.filters.clear()
        elif op[0] == 'capture':
            self.capture = op[1]

    def say(self, n, who, level):
        if level < self.level:
            return
        if who in ('warning', 'colored'):
            if not self.capture:
                return
            names = {'py.warnings'}
        elif who == 'note':
            names = {'lsl_logger'}
        else:
            names = {'lsl_logger', who}
        import fnmatch
        match = [any(fnmatch.fnmatch(x, f) for x in names) for f in self.filters]
        if match and not all(match):
            if any(match):
                self.open.add(n)
            return
        for sink in (self.console, self.file, ('handler', 0) if self.handler else None, ('threaded', 0) if self.threaded else None):
            if sink is not None and level >= sink[1]:
                self.want[sink[0]].append((n, level))

    def key(self):
        return (self.console, self.file, self.level, self.handler, self.threaded, frozenset(self.filters), self.capture)


LINE = re.compile(r'probe-(\d+)-')
NAMES = {'DEBUG': 10, 'INFO': 20, 'NOTE': 25, 'WARNING': 30, 'ERROR': 40}


def parse(text):
    """(number, level) of the messages in text; level is None for lines that are not in the log format."""
    out = []
    for line in text.splitlines():
        m = LINE.search(line)
        if m is None:
            continue
        f = re.match(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[(\w+) *\] ', line)
        out.append((int(m.group(1)), NAMES.get(f.group(1)) if f else None))
    return out


def fresh(stream):
    """Load lsl.logger as a new session would."""
    logging.captureWarnings(False)
    for name in ('lsl_logger', 'py.warnings'):
        lg = logging.getLogger(name)
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()
        for f in list(lg.filters):
            lg.removeFilter(f)
    sys.stderr = stream
    return importlib.reload(lsl.logger)


def run(ctx, seq, where):
    streams = {'A': io.StringIO(), 'B': io.StringIO(), 'stderr': io.StringIO()}
    for name in ('one', 'two'):
        try:
            os.unlink(os.path.join(where, name))
        except OSError:
            pass
    log = fresh(streams['stderr'])
    listing, threaded = Listing(), log.ThreadedHandler()
    model = Model(streams['stderr'])
    n = 0
    records = []
    try:
        for op in (None,)+tuple(seq):
            if op is None:
                pass
            elif op[0] == 'console':
                if op[1] is None:
                    log.enable_console_logging(level=op[2])
                else:
                    log.enable_console_logging(level=op[2], stream=streams[op[1]])
            elif op[0] == 'console-off':
                log.disable_console_logging()
            elif op[0] == 'file':
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        log.enable_file_logging(os.path.join(where, op[1]), level=op[2], mode=op[3])
                    ctx.check(op[1] != 'missing/three', 'file-error', f"{seq}: no error for a file that cannot be opened")
                except OSError:
                    ctx.check(op[1] == 'missing/three', 'file-error', f"{seq}: cannot log to a file")
            elif op[0] == 'file-off':
                log.disable_file_logging()
            elif op[0] == 'level':
                log.set_log_level(op[1])
            elif op[0] == 'handler+':
                log.add_handler(listing)
            elif op[0] == 'handler-':
                log.remove_handler(listing)
            elif op[0] == 'threaded+':
                log.add_handler(threaded)
            elif op[0] == 'threaded-':
                log.remove_handler(threaded)
            elif op[0] == 'filter+':
                log.add_filter(op[1])
            elif op[0] == 'filter-':
                log.remove_filter(op[1])
            elif op[0] == 'filters-':
                log.clear_filters()
            elif op[0] == 'capture':
                log.capture_warnings(op[1])
            if op is not None:
                model.apply(op)
            ctx.equal(log.get_log_level(), model.level, 'level', f"{seq}: the log level")
            for who, level in PROBES:
                text = f"probe-{n}-"
                if who == 'note':
                    log.make_note(text)
                elif who == 'warning' or who == 'colored':
                    with warnings.catch_warnings(record=False):
                        # catch_warnings puts showwarning back, so only the filter is changed here
                        warnings.simplefilter('always')
                        if model.capture:
                            warnings.warn(text if who == 'warning' else f"\u001b[33m{text}\u001b[0m", RuntimeWarning)
                else:
                    VOICES[who](log.LSL_LOGGER, level, text)
                model.say(n, who, level)
                n += 1
            ctx.step()
            ctx.state(model.key())
        while not log.LSL_LOG_QUEUE.empty():
            records.append(log.LSL_LOG_QUEUE.get_nowait())
        got = {k: parse(v.getvalue()) for k, v in streams.items()}
        for name in ('one', 'two'):
            try:
                with open(os.path.join(where, name)) as fh:
                    text = fh.read()
            except OSError:
                text = ''
            got[name] = parse(text)
            streams[name] = io.StringIO(text)
        got['handler'] = [v for t in listing.got for v in parse(t)]
        got['threaded'] = [(int(LINE.search(r.getMessage()).group(1)), r.levelno) for r in records if LINE.search(r.getMessage())]
        for sink, want in model.want.items():
            a = [v for v in got[sink] if v[0] not in model.open]
            ctx.check(a == want, 'messages', lambda: f"{seq}: {sink} got {[v for v in a if v not in want] or 'too few or in another order'} that it should not have, and not {[v for v in want if v not in a]}")
            if sink in streams:
                bad = [l for l in streams[sink].getvalue().splitlines() if 'probe-' in l and '\u001b' in l]
                ctx.check(not bad, 'color', f"{seq}: {sink} has color codes in {bad[:1]!r}")
    finally:
        sys.stderr = sys.__stderr__
        fresh(sys.__stderr__)


def u_sequences(ctx, first, depth):
    where = os.path.join(ctx.scratch, 'logs')
    os.makedirs(where, exist_ok=True)
    logging.disable(logging.NOTSET)
    for d in range(0, depth):
        for rest in itertools.product(OPS, repeat=d):
            seq = (first,)+rest
            with ctx.case(sequence=seq):
                run(ctx, seq, where)
    ctx.outcome(first)


def u_threads(ctx):
    """Messages of several threads all arrive, in the order of each thread."""
    logging.disable(logging.NOTSET)
    for nthread, nmsg in itertools.product((2, 3), (1, 20)):
        with ctx.case(threads=nthread, messages=nmsg):
            stream = io.StringIO()
            log = fresh(stream)
            try:
                threaded = log.ThreadedHandler()
                log.add_handler(threaded)
                def talk(k):
                    for i in range(nmsg):
                        log.LSL_LOGGER.info(f"probe-{k*1000+i}-")
                ts = [threading.Thread(target=talk, args=(k,)) for k in range(nthread)]
                [t.start() for t in ts]
                [t.join() for t in ts]
                got = []
                while not log.LSL_LOG_QUEUE.empty():
                    got.append(int(LINE.search(log.LSL_LOG_QUEUE.get_nowait().getMessage()).group(1)))
                for k in range(nthread):
                    want = [k*1000+i for i in range(nmsg)]
                    ctx.equal([v for v in got if v//1000 == k], want, 'threads-queue', f"messages of thread {k} in the queue")
                    ctx.equal([v[0] for v in parse(stream.getvalue()) if v[0]//1000 == k], want, 'threads-stream', f"messages of thread {k} on the console")
            finally:
                sys.stderr = sys.__stderr__
                fresh(sys.__stderr__)
        ctx.state((nthread, nmsg))


def units(tier):
    depth = 3 if tier == 'quick' else 4
    out = {'threads': u_threads}
    for i, op in enumerate(OPS):
        out[f'from-{i:02d}'] = lambda ctx, op=op: u_sequences(ctx, op, depth)
    return out
