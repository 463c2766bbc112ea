"""
M07 - structured text headers are read back as they were written.

All sequences of operations on a header (values, lines, blank lines, rules, opening and
closing sections) up to a depth are executed on the real classes for all styles, parsed with
parse_header, and compared with a nested dictionary kept by the model.
"""
import argparse
import datetime
import io
import itertools
import json
import re
import warnings

warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

import vmc
from lsl.common import header as H

BOUNDS = ('all histories of up to 5 (thorough 6) operations (key_value, line, blank, rule, open and close a section at its end and by an exception, nested up to the length), for comment, box and text headers with three comment strings and three indents, automatic width; '
          'a catalog of values for every position; fixed widths from the smallest allowed to 60')
ASSUMPTIONS = ('keys and section names are distinct within a section, not empty and without colon or comment string; free-form lines have no colon, do not end in the comment string and are not made of it alone; the documented gap of '
               'fixed widths (blanks lost where a text is wrapped) is respected: there, numbers and short values are compared')
HANG_S = 300

OPS = ('kv', 'text', 'line', 'blank', 'rule', 'open', 'close')
STYLES = [('comment', c, i) for c in ('#', '//') for i in (1, 3)] + [('box', c, i) for c in ('#', '%%') for i in (1, 2)] + [('text', '', 1), ('text', '', 4)]


def make(style, comment, indent, width=0):
    if style == 'comment':
        return H.CommentHeader(comment=comment, width=width, indent=indent)
    if style == 'box':
        return H.BoxHeader(comment=comment, width=width, indent=indent)
    return H.TextHeader(width=width, indent=indent)


def leave(cm, fail):
    """Leave a section, at its end or with an exception."""
    if not fail:
        cm.__exit__(None, None, None)
    else:
        e = KeyError('verif')
        try:
            if cm.__exit__(KeyError, e, None):
                raise vmc.Fail('exception', 'a section swallows an exception')
        except KeyError:
            pass


def drive(h, ops, fail=False):
    """Run the operations; return the dictionary that describes the header."""
    root = {}
    stack = [(None, root)]
    n = 0
    for op in ops:
        n += 1
        cur = stack[-1][1]
        if op == 'kv':
            h.key_value('k%d' % n, n)
            cur['k%d' % n] = n
        elif op == 'text':
            h.key_value('Key %d' % n, 'a: #b %d' % n)
            cur['Key %d' % n] = 'a: #b %d' % n
        elif op == 'line':
            h.line('some words %d' % n)
            cur['_freeform'] = cur.get('_freeform', []) + ['some words %d' % n]
        elif op == 'blank':
            h.blank()
        elif op == 'rule':
            h.rule()
        elif op == 'open':
            cm = h.section('Part %d' % n)
            cm.__enter__()
            cur['Part %d' % n] = {}
            stack.append((cm, cur['Part %d' % n]))
        elif op == 'close':
            if len(stack) > 1:
                leave(stack.pop()[0], fail)
    while len(stack) > 1:
        leave(stack.pop()[0], fail)
    return root


def same(got, want):
    """got has free-form lines joined in any way; want has the list."""
    if isinstance(want, dict):
        if not isinstance(got, dict) or list(sorted(got)) != list(sorted(want)):
            return False
        for k, w in want.items():
            if k == '_freeform':
                if not isinstance(got[k], str) or re.sub(r'\s', '', got[k]) != re.sub(r'\s', '', ''.join(w)):
                    return False
            elif not same(got[k], w):
                return False
        return True
    return type(got) is type(want) and (got == want or (want != want and got != got))


def histories(style, part, n):
    def unit(ctx):
        depth = 5 if ctx.tier == 'quick' else 6
        todo = [s for d in range(1, depth + 1) for s in itertools.product(OPS, repeat=d)]
        for ops in todo[part::n]:
            lvl = 0
            ok = True
            for op in ops:
                lvl += (op == 'open') - (op == 'close')
                ok = ok and lvl >= 0
            if not ok or ops[-1] == 'close':
                continue
            with ctx.case(style=style, ops=ops):
                h = make(*style)
                want = drive(h, ops)
                text = str(h)
                ctx.step(len(ops))
                got = H.parse_header(text, comment=style[1])
                ctx.check(same(got, want), 'round trip', 'read back as %r, written as %r:\n%s' % (got, want, text))
                got = H.parse_header(text.split('\n'), comment=style[1])
                ctx.check(same(got, want), 'round trip', 'a list of lines is read back as %r, written as %r' % (got, want))
                lines = text.split('\n')
                ctx.check(lines[-1] == '' and all(l.startswith(style[1]) for l in lines[:-1]), 'comment', 'not all lines start with the comment:\n%s' % text)
                if style[0] == 'box':
                    w = len(lines[0])
                    ctx.check(all(len(l) == w and (l.endswith(style[1]) or set(l) == set(style[1])) for l in lines[:-1]), 'box', 'the box is not closed:\n%s' % text)
                if style[1]:
                    # the header of a file with data after it
                    got = H.parse_header(text + '1 2 3\n4: 5\n', comment=style[1])
                    ctx.check(same(got, want), 'data', 'data after the header is read as part of it: %r' % (got,))
                f = io.StringIO()
                h.write(f)
                ctx.equal(f.getvalue(), text, 'write', 'the text written to a file')
                if 'open' in ops:
                    g = make(*style)
                    drive(g, ops, fail=True)
                    ctx.equal(str(g), text, 'exception', 'the header with sections that were left by an exception')
                try:
                    h.key_value('bad', object())
                except TypeError:
                    pass
                ctx.equal(str(h), text, 'refused', 'the header after a value that cannot be written')
                h.clear()
                ctx.equal(str(h), '', 'clear', 'the text of a cleared header')
                ctx.state((style, ops))
    return unit


VALUES = [0, -1, 10**20, 1.5, -2.5e-300, float('inf'), True, False, None, '', ' ', 'x', 'two words', '  many   blanks ', 'colon: inside', 'a#b', '# start', 'end #', '//', '%% both %%', 'quote " and \\', 'tab\tnew\nline', 'ünïcode', '... dots',
          'end:', '5', 'null', '[1]', [], [1, 2, 3], ['a', 'b: c'], {}, {'a': 1}, {'a': {'b': [None, '#']}}, 'w '*100, list(range(60))]


def values(ctx):
    for style in STYLES:
        for v in VALUES:
            for where in ('alone', 'section', 'between', 'after'):
                with ctx.case(style=style, value=v, where=where):
                    h = make(*style)
                    ctx.step()
                    if where == 'alone':
                        h.key_value('key', v)
                        want = {'key': v}
                    elif where == 'section':
                        with h.section('S:'):
                            h.key_value('key', v)
                        want = {'S': {'key': v}}
                    elif where == 'between':
                        h.key_value('a', 1)
                        with h.section('S'):
                            h.key_value('key', v)
                            with h.section('T'):
                                h.key_value('b', 2)
                        h.key_value('c', 3)
                        want = {'a': 1, 'S': {'key': v, 'T': {'b': 2}}, 'c': 3}
                    else:
                        h.namespace(argparse.Namespace(alpha=v, beta=[v]), title='Parms')
                        h.namespace({'alpha': v, 'beta': 2})
                        h.columns(['Time [s]', 'Power'], column_units=['', 'K'])
                        h.key_value('key', v)
                        want = {'Parms': {'alpha': v, 'beta': [v]}, 'Parameters': {'alpha': v, 'beta': 2}, 'Columns': {'1': 'Time [s]', '2': 'Power [K]'}, 'key': v}
                    got = H.parse_header(str(h), comment=style[1])
                    ctx.equal(got, want, 'value', 'header read back')
                    ctx.equal(json.dumps(got), json.dumps(want), 'type', 'header read back')
                    ctx.state((style, repr(v), where))


def fixed(ctx):
    for style in STYLES:
        for width in range(1, 61):
            with ctx.case(style=style, width=width):
                e = width - len(style[1]) - style[2] - ((style[2] + len(style[1])) if style[0] == 'box' else 0)
                ctx.step()
                if e < 8:
                    ctx.raises(ValueError, lambda: make(*style, width=width), 'width')
                    continue
                h = make(*style, width=width)
                if e - 2*style[2] < 8:
                    continue            # the inner sections would have no room
                h.key_value('n', 7)
                with h.section('S'):
                    h.key_value('big', 2**62 + 1)
                    h.key_value('f', 1.7976931348623157e+308)
                    h.key_value('t', 'b')
                    with h.section('T'):
                        h.key_value('u', [])
                    h.key_value('yes', True)
                    h.line('a long line of words that are wrapped')
                h.key_value('when', '2026-06-08T21:42:53+00:00')
                h.rule()
                h.key_value('z', None)
                text = str(h)
                lines = text.split('\n')[:-1]
                ctx.check(all(len(l) <= width for l in lines), 'width', 'lines longer than %d:\n%s' % (width, text))
                if style[0] == 'box':
                    ctx.check(all(len(l) == width for l in lines), 'width', 'lines not of the width %d:\n%s' % (width, text))
                got = H.parse_header(text, comment=style[1])
                want = {'n': 7, 'S': {'big': 2**62 + 1, 'f': 1.7976931348623157e+308, 't': 'b', 'T': {'u': []}, 'yes': True, '_freeform': ['a long line of words that are wrapped']}, 'when': '2026-06-08T21:42:53+00:00', 'z': None}
                ctx.check(same(got, want), 'wrapped', 'read back as %r, written as %r:\n%s' % (got, want, text))
                ctx.state((style, width))
    for spec in ('hours', 'minutes', 'seconds', 'milliseconds', 'microseconds'):
        for tz in (None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=-7))):
            with ctx.case(timespec=spec, tz=str(tz)):
                h = H.CommentHeader()
                a = datetime.datetime.now(datetime.timezone.utc)
                h.timestamp('T', timespec=spec, tz=tz)
                b = datetime.datetime.now(datetime.timezone.utc)
                s = H.parse_header(str(h))['T']
                t = datetime.datetime.fromisoformat(s)
                ctx.equal(s, t.isoformat(timespec=spec), 'timestamp', 'format of the timestamp')
                unit = {'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': 1e-3, 'microseconds': 1e-6}[spec]
                ctx.check((a - t).total_seconds() < unit + 1e-6 and (t - b).total_seconds() <= 1e-6, 'timestamp', 'the timestamp is %s at %s' % (s, a))
                ctx.equal(t.utcoffset(), (tz or datetime.timezone.utc).utcoffset(t), 'timestamp', 'timezone of the timestamp')


def units(tier):
    d = {'histories %s %r %d' % s: histories(s, 0, 1) for s in STYLES}
    d['values'] = values
    d['fixed width'] = fixed
    return d
