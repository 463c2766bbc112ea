"""
S06 - console helpers: colors, progress bars, busy indicators and the log.

All small trees of color tags against the styles of each character, all counts of
the progress bars, all short start/stop histories of the busy indicators and all
short histories of logger set up calls against a routing model.
"""
import io
import os
import re
import sys
import time
import logging
import warnings
import itertools

from lsl.common.color import colorfy, uncolorfy
from lsl.common.progress import ProgressBar, ProgressBarPlus, DownloadBar
from lsl.common.busy import BusyIndicator, BusyIndicatorPlus
import lsl.logger as L
from lsl.logger import LSL_LOGGER

warnings.simplefilter('ignore')

BOUNDS = ('all trees of color tags with up to 3 levels and 3 pieces over 4 tags and 8 texts; all counts 0..3 max of the bars for 4 widths, 6 maxima and both forms; all histories of 4 start/stop operations; '
          'all histories of 4 (quick) / 5 (thorough) of 14 logger operations')
HANG_S = 200

CODES = {'red': '31', 'bold': '1', 'bkg-blue': '44', 'Underline': '4'}
TEXTS = ['a', '', '\\1 \\', '%s 5%', '}', '\n', '{ {', 'é[0m']


def trees(depth, tags, texts, width):
    """Nested lists: str leaves and (tag, [children])"""
    leaves = list(texts)
    if depth == 0:
        return [[t] for t in leaves]
    inner = trees(depth-1, tags, texts, 1)
    nodes = leaves + [(g, i) for g in tags for i in inner]
    return [list(c) for n in range(1, width+1) for c in itertools.product(nodes, repeat=n)]


def source(tree):
    return ''.join(x if isinstance(x, str) else '{{%%%s %s}}' % (x[0], source(x[1])) for x in tree)


def styled(tree, active=()):
    for x in tree:
        if isinstance(x, str):
            for c in x:
                yield c, frozenset(active)
        else:
            code = CODES.get(x[0])
            yield from styled(x[1], active + ((code,) if code else ()))


def interpret(ctx, text):
    out, active, i = [], set(), 0
    ansi = re.compile('\x1b\\[(\\d+)m')
    while i < len(text):
        m = ansi.match(text, i)
        if m:
            if m.group(1) == '0':
                active = set()
            else:
                active.add(m.group(1))
            i = m.end()
        else:
            out.append((text[i], frozenset(active)))
            i += 1
    ctx.check(not active, 'color', 'the style is still on at the end of %r' % text)
    return out


def color_unit(part, nparts, tier):
    def fn(ctx):
        deep = trees(2 if tier == 'quick' else 3, ['red', 'bold', 'nocolor'] if tier == 'quick' else ['red', 'nocolor'], ['a', '\\1 ', '\n'], 2)
        wide = trees(1, list(CODES) + ['nocolor'], TEXTS, 2)
        for t in (deep + wide)[part::nparts]:
            with ctx.case(source(t)):
                text = source(t)
                if '}}}' in text or '{{{' in text:
                    continue
                got = interpret(ctx, colorfy(text))
                want = list(styled(t))
                ctx.equal(got, want, 'color', 'characters and styles of %r' % text)
                plain = ''.join(c for c, _ in want)
                if '\x1b' not in plain:
                    ctx.equal(uncolorfy(colorfy(text)), plain, 'uncolor')
                ctx.step()
                ctx.state(tuple(s for _, s in want))
        if part == 0:
            for text in ('{{', 'a {{', '}}', 'a }} b', '}} {{%red x}}', '{{x}}', '{{%red x', 'a}}b}}{{%bold c}}d', ''):
                with ctx.case(('unmatched', text)):
                    got = uncolorfy(colorfy(text))
                    ctx.check(got.replace('{{0{{', '{{').replace('}}0}}', '}}') == text or '%' in text and 'x' in got or 'c' in got, 'unmatched', '%r' % got)
                    if text == '}} {{%red x}}':
                        ctx.equal(interpret(ctx, colorfy(text))[-1], ('x', frozenset(['31'])), 'unmatched')
    return fn


def bar_unit(tier):
    def fn(ctx):
        real = time.time
        for kls, extra in ((ProgressBar, 0), (ProgressBarPlus, 9), (DownloadBar, 9)):
            for mx, span, pct, color, sym in itertools.product((1, 3, 7, 20, 100, 2.5), (12, 30, 70), (True, False), (None, 'red'), ('=', '#')):
                last = -1
                for n in range(0, int(3*mx)+1):
                    with ctx.case((kls.__name__, mx, span, pct, color, n)):
                        t = [1.0e9]
                        time.time = lambda: t[0]
                        try:
                            b = kls(max=mx, span=span, print_percent=pct, color=color, sym=sym)
                            if n:
                                b.inc(n-1)
                                t[0] += 100.0
                                b += 1
                            out = uncolorfy(b.show())
                        finally:
                            time.time = real
                        ctx.equal(uncolorfy(str(b)), out, 'bar', 'str()')
                        m = re.match(r'^\[(.*?)\] ?(.*)$', out, re.S)
                        ctx.check(m, 'bar', out)
                        bar, rest = m.groups()
                        barspan = span - {(ProgressBar, True): 9, (ProgressBar, False): 2, (ProgressBarPlus, True): 9, (ProgressBarPlus, False): 2, (DownloadBar, True): 10, (DownloadBar, False): 3}[(kls, pct)]
                        ctx.equal(len(bar), barspan, 'bar', 'width of the bar %r' % out)
                        full = len(bar) - len(bar.lstrip(sym))
                        want = min(int(float(n)/mx*barspan), barspan)
                        ctx.check(want <= full <= want+1, 'bar', '%i marks, expected %i: %r' % (full, want, out))
                        ctx.check(full >= last - 1, 'bar', 'the bar went back')
                        last = full
                        if pct:
                            p = '%5.1f%%' % (float(n)/mx*100)
                            if kls is DownloadBar and n > mx:
                                p = '-----%'
                            ctx.check(rest.lstrip().startswith(p.strip()), 'bar', 'percentage in %r, expected %r' % (out, p))
                        # arithmetic makes a new bar and leaves the old one
                        c = b + 2
                        d = c - 1
                        ctx.equal((b.amount, c.amount, d.amount), (n, n+2, n+1), 'bar', 'amounts')
                        b.dec(1)
                        ctx.equal(b.amount, max(n-1, 0), 'bar', 'amount after dec()')
                        b.dec(n + 50)
                        ctx.equal(b.amount, max(n-1, 0), 'bar', 'amount after too large a dec()')
                        ctx.step(5)
                        ctx.state((kls.__name__, span, pct, full))
    return fn


def busy_unit(tier):
    def fn(ctx):
        mk = [lambda c: BusyIndicator('Busy', interval=0.002, dots=3, color=c)] + [lambda c, s=s: BusyIndicatorPlus('Busy', interval=0.002, width=6, style=s, color=c) for s in ('boomerang', 'pingpong', 'flow')]
        for k, make in enumerate(mk):
            for color in (None, 'green'):
                for seq in itertools.product(('start', 'stop', 'fail', 'wait'), repeat=3 if tier == 'quick' else 4):
                    with ctx.case(('busy', k, color, seq)):
                        real, sys.stdout = sys.stdout, io.StringIO()
                        try:
                            b = make(color)
                            running, ends = False, []
                            for op in seq:
                                if op == 'start':
                                    if running:
                                        ends.append('Done')
                                    b.start()
                                    running = True
                                elif op == 'wait':
                                    time.sleep(0.03)
                                else:
                                    b.stop(success=op == 'stop')
                                    if running:
                                        ends.append('Done' if op == 'stop' else 'Failed')
                                    running = False
                            n0 = len(sys.stdout.getvalue())
                            if not running:
                                time.sleep(0.006)
                                ctx.equal(len(sys.stdout.getvalue()), n0, 'busy', 'output after stop()')
                            else:
                                b.stop()
                                ends.append('Done')
                            text = uncolorfy(sys.stdout.getvalue())
                        finally:
                            sys.stdout = real
                        lines = text.split('\n')
                        ctx.equal(lines[-1], '', 'busy', 'text after the last report')
                        ctx.equal(re.findall('Done|Failed', text), ends, 'busy', 'reports')
                        ctx.check(all(x.split('\r')[-1].rstrip().endswith(e) for x, e in zip(lines, ends)), 'busy', lambda: 'reports end their lines: %r' % lines)
                        ctx.step(len(seq))
                        ctx.state((k, tuple(ends)))
                for err in (None, KeyError):
                    with ctx.case(('busy with', k, color, err)):
                        real, sys.stdout = sys.stdout, io.StringIO()
                        try:
                            try:
                                with make(color):
                                    time.sleep(0.01)
                                    if err:
                                        raise err('x')
                                ctx.check(err is None, 'busy', 'the error was swallowed')
                            except KeyError:
                                ctx.check(err is not None, 'busy')
                            text = uncolorfy(sys.stdout.getvalue())
                        finally:
                            sys.stdout = real
                        ctx.equal(re.findall('Done|Failed', text), ['Failed' if err else 'Done'], 'busy', 'reports')
    return fn


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


LOPS = ['log', ('level', logging.DEBUG), ('level', logging.WARNING), ('console', None), ('console', logging.ERROR), 'noconsole', ('file', 'A', 'a', None), ('file', 'A', 'w', None),
        ('file', 'B', 'a', logging.WARNING), 'nofile', ('filter', 'lsl.sim.*'), ('filter', '*.vis'), ('unfilter', '*.vis'), 'clear', 'handler', 'nohandler']
RECORDS = [('lsl.sim.vis', logging.DEBUG), ('lsl.sim.vis', logging.WARNING), ('lsl.sim.beam', logging.INFO), ('lsl.imaging.vis', logging.ERROR), ('other', L.NOTE)]
FILTERS = {'lsl.sim.*': lambda n: n.startswith('lsl.sim.'), '*.vis': lambda n: n.endswith('.vis')}


def log_unit(part, nparts, tier):
    def fn(ctx):
        depth = 4 if tier == 'quick' else 5
        logging.lastResort = None
        catch = Catch()
        other = Catch()
        # the default handler writes to the standard error of the process
        for h in list(LSL_LOGGER.handlers):
            LSL_LOGGER.removeHandler(h)
        A, B = os.path.join(ctx.scratch, 'A.log'), os.path.join(ctx.scratch, 'B.log')
        for seq in itertools.product(LOPS[part::nparts], *[LOPS]*(depth-1)):
            if seq[-1] != 'log' and tier == 'quick':
                # a log is always made at the end; the others are covered as prefixes
                pass
            with ctx.case(seq):
                L.disable_console_logging()
                L.disable_file_logging()
                L.clear_filters()
                L.remove_handler(catch)
                L.set_log_level(logging.INFO)
                for f in (A, B):
                    if os.path.exists(f):
                        os.unlink(f)
                stream = None
                streams = []
                level, filters, console, file_, handler = logging.INFO, [], None, None, False
                want = {'A': [], 'B': [], 'handler': []}
                catch.got = []
                k = 0
                for op in seq + ('log',):
                    name = op if isinstance(op, str) else op[0]
                    if name == 'log':
                        for rn, lv in RECORDS:
                            k += 1
                            msg = 'message %i of %s' % (k, rn)
                            if LSL_LOGGER.isEnabledFor(lv):
                                LSL_LOGGER.handle(LSL_LOGGER.makeRecord(rn, lv, 'x.py', 1, msg, (), None))
                            if lv >= level and all(FILTERS[f](rn) for f in filters):
                                if console and lv >= (console[0] or 0):
                                    console[1].append(msg)
                                if file_ and lv >= (file_[1] or 0):
                                    want[file_[0]].append(msg)
                                if handler:
                                    want['handler'].append(msg)
                    elif name == 'level':
                        L.set_log_level(op[1])
                        level = op[1]
                        ctx.equal(L.get_log_level(), level, 'level')
                    elif name == 'console':
                        stream = io.StringIO()
                        L.enable_console_logging(level=op[1], stream=stream)
                        console = (op[1], [])
                        streams.append((stream, console[1]))
                    elif name == 'noconsole':
                        L.disable_console_logging()
                        console = None
                    elif name == 'file':
                        L.enable_file_logging({'A': A, 'B': B}[op[1]], level=op[3], mode=op[2])
                        if op[2] == 'w':
                            want[op[1]] = []
                        file_ = (op[1], op[3])
                    elif name == 'nofile':
                        L.disable_file_logging()
                        file_ = None
                    elif name == 'filter':
                        L.add_filter(op[1])
                        if op[1] not in filters:
                            filters.append(op[1])
                    elif name == 'unfilter':
                        L.remove_filter(op[1])
                        filters = [f for f in filters if f != op[1]]
                    elif name == 'clear':
                        L.clear_filters()
                        filters = []
                    elif name == 'handler':
                        L.add_handler(catch)
                        handler = True
                    elif name == 'nohandler':
                        L.remove_handler(catch)
                        handler = False
                    ctx.step()
                L.disable_file_logging()

                def messages(text):
                    return [l.split('] ', 1)[1] for l in text.splitlines()]
                for f in 'AB':
                    p = {'A': A, 'B': B}[f]
                    got = messages(open(p).read()) if os.path.exists(p) else []
                    ctx.equal(got, want[f], 'log', 'file %s' % f)
                for st, w in streams:
                    ctx.equal(messages(st.getvalue()), w, 'log', 'console')
                ctx.equal(catch.got, want['handler'], 'log', 'handler')
                ctx.state((level, tuple(sorted(filters)), console and console[0], file_, handler))
        with ctx.case('warnings'):
            L.clear_filters()
            L.remove_handler(catch)
            L.add_handler(catch)
            L.set_log_level(logging.INFO)
            catch.got = []
            with warnings.catch_warnings():
                warnings.simplefilter('always')
                L.capture_warnings(True)
                warnings.warn(colorfy('{{%yellow careful 100% now}}'), RuntimeWarning)
                L.capture_warnings(False)
            ctx.check(len(catch.got) == 1 and 'careful 100% now' in catch.got[0] and '\x1b' not in catch.got[0], 'log', 'captured warning %r' % catch.got)
            L.make_note('note %i', 5)
            ctx.equal(catch.got[1:], ['note 5'], 'log', 'note')
        with ctx.case('threaded'):
            h = L.ThreadedHandler()
            L.add_handler(h)
            LSL_LOGGER.error('one')
            LSL_LOGGER.info('two')
            L.remove_handler(h)
            LSL_LOGGER.error('three')
            got = []
            while not L.LSL_LOG_QUEUE.empty():
                got.append(L.LSL_LOG_QUEUE.get().getMessage())
            ctx.equal(got, ['one', 'two'], 'log', 'threaded handler')
    return fn


def units(tier):
    out = {}
    for i in range(4):
        out['color %i' % i] = color_unit(i, 4, tier)
    out['bars'] = bar_unit(tier)
    out['busy'] = busy_unit(tier)
    for i in range(8):
        out['log %i' % i] = log_unit(i, 8, tier)
    return out
