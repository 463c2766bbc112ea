"""
R09 - arithmetic between frames and numbers works on the data alone, element by
element, leaves the operands alone, and frames order by their times.
"""
import io
import copy
import itertools
import numpy as np

import frames as F
from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
from lsl.reader.base import FrameTimestamp

BOUNDS = ('8 kinds of frame x {+, -, *, /} (// for real data) x {plain, in place} x operands {same kind of frame, itself, int, float, complex, array} and all chains of 2 (quick) / 3 '
          '(thorough) operations; all pairs of 6 times compared with all six operators, sorted in every order of 4')
ASSUMPTIONS = ['floating point frames']

T0 = 294999881040793600


def make(kind, k, dt=0):
    if kind == 'drx':
        return drx.read_frame(io.BytesIO(F.drx(timetag=T0+dt, payload=F.rot(4096, k))))
    if kind == 'drx8':
        return drx8.read_frame(io.BytesIO(F.drx8(timetag=T0+dt, payload=F.rot(8192, k))))
    if kind == 'tbx':
        return tbx.read_frame(io.BytesIO(F.tbx(timetag=T0+dt, payload=F.rot(512, k))))
    if kind == 'cor':
        return cor.read_frame(io.BytesIO(2*F.cor(timetag=T0+dt, vis=(np.arange(132)+1j*k+1).astype(np.complex64).reshape(33, 2, 2))))
    if kind == 'spec':
        return drspec.read_frame(io.BytesIO(F.drspec(np.arange(64)+1+k, fmt=9, nfreq=16, timetag=T0+dt)))
    if kind == 'stokes':
        return drspec.read_frame(io.BytesIO(F.drspec(np.arange(128)+1+k, fmt=0xf0, nfreq=16, timetag=T0+dt)))
    sec, frm = divmod(dt, 10)
    return vdif.read_frame(io.BytesIO(F.vdif(F.rot(64, k), bits=8, is_complex=kind == 'vdifc', seconds=1000+sec, frame=frm, epoch=20)), sample_rate=640.0)


SPECS = {'spec': ['XX', 'YY'], 'stokes': ['I', 'Q', 'U', 'V']}


def data(f, kind):
    if kind in SPECS:
        return [np.array(getattr(f.payload, '%s%i' % (p, t))) for p in SPECS[kind] for t in (0, 1)]
    return [np.array(f.payload.data)]


def meta(f, kind):
    return repr(f.header), f.time, f.payload.timetag if hasattr(f.payload, 'timetag') else None, f.valid


def scramble(f):
    """Change everything that can be changed in a frame, in place."""
    for part in (f.header, f.payload):
        names = set(getattr(part, '__dict__', {}))
        for c in type(part).__mro__:
            names.update(getattr(c, '__slots__', ()))
        for n in names:
            if n.startswith('__'):
                continue
            try:
                v = getattr(part, n)
            except AttributeError:
                continue
            if isinstance(v, np.ndarray):
                if v.flags.writeable:
                    v[...] = 99
            elif isinstance(v, list):
                v[:] = [99]*len(v)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                try:
                    setattr(part, n, v + 1)
                except AttributeError:
                    pass


OPS = {'+': lambda a, b: a+b, '-': lambda a, b: a-b, '*': lambda a, b: a*b, '/': lambda a, b: a/b, '//': lambda a, b: a//b}


def ip(op, f, y):
    if op == '+':
        f += y
    elif op == '-':
        f -= y
    elif op == '*':
        f *= y
    elif op == '/':
        f /= y
    else:
        f //= y
    return f


def close(ctx, got, want, what):
    for g, w in zip(got, want):
        ctx.check(g.shape == w.shape and g.dtype == w.dtype, 'shape', lambda: '%s: %r %r, expected %r %r' % (what, g.shape, g.dtype, w.shape, w.dtype))
        ctx.check(np.allclose(g, w, rtol=1e-5, atol=1e-5, equal_nan=True), 'value', lambda: '%s: values differ' % what)


def arith(kind, tier):
    def fn(ctx):
        cplx = kind in ('drx', 'drx8', 'tbx', 'cor', 'vdifc')
        ops = ['+', '-', '*', '/'] + ([] if cplx else ['//'])
        dt = data(make(kind, 1), kind)[0].dtype.type
        operands = [('frame', lambda: make(kind, 5, 3)), ('int', lambda: 3), ('negative', lambda: -2), ('float', lambda: 2.5)]
        if cplx:
            operands.append(('complex', lambda: 1.5-2j))
        if kind not in SPECS:
            operands.append(('array', lambda: (np.arange(data(make(kind, 1), kind)[0].size).reshape(data(make(kind, 1), kind)[0].shape)+1).astype(dt)))
        single = list(itertools.product(ops, operands, (False, True)))
        depth = 3 if tier == 'thorough' else 2
        for n in range(1, depth+1):
            for chain in itertools.product(single, repeat=n):
                if n == depth and n > 1 and kind in ('drx8', 'drx') and chain[0][1][0] in ('negative', 'float'):
                    continue
                if n == 3 and len(set(c[0] for c in chain)) < 2:
                    continue
                with ctx.case('%s %s' % (kind, ' then '.join('%s%s %s' % (op, '=' if inp else '', y[0]) for op, y, inp in chain))):
                    with np.errstate(all='ignore'):
                        f = make(kind, 1)
                        m0 = meta(f, kind)
                        want = data(f, kind)
                        for op, (yn, mk), inp in chain:
                            y = mk()
                            if yn == 'frame':
                                yd, ym = data(y, kind), meta(y, kind)
                            else:
                                yd = [np.array(y, copy=True) if isinstance(y, np.ndarray) else dt(y)]*len(want)
                            before = data(f, kind)
                            want = [OPS[op](w, v).astype(dt) for w, v in zip(want, yd)]
                            if inp:
                                g = ip(op, f, y)
                                ctx.check(g is f, 'in-place', 'in-place %s gave another frame' % op)
                            else:
                                g = OPS[op](f, y)
                                ctx.check(g is not f, 'new-frame', '%s gave the same frame' % op)
                                close(ctx, data(f, kind), before, 'left operand of %s after' % op)
                                ctx.equal(meta(f, kind), m0, 'operand', 'left operand of %s' % op)
                            close(ctx, data(g, kind), want, 'frame %s %s' % (op, yn))
                            ctx.equal(meta(g, kind), m0, 'metadata', 'header of the result of %s %s' % (op, yn))
                            if yn == 'frame':
                                close(ctx, data(y, kind), yd, 'right operand of %s after' % op)
                                ctx.equal(meta(y, kind), ym, 'operand', 'right operand of %s' % op)
                            elif yn == 'array':
                                close(ctx, [y], [yd[0]], 'array operand of %s after' % op)
                            f = g
                            ctx.step()
                        ctx.state((kind, tuple((op, y[0]) for op, y, _ in chain)))
        # a frame and what was computed from it have nothing in common
        for op, (yn, mk) in itertools.product(ops, operands):
            for which in ('result', 'left', 'right'):
                with ctx.case('%s %s %s, then changing the %s' % (kind, op, yn, which)):
                    with np.errstate(all='ignore'):
                        f, y = make(kind, 1), mk()
                        g = OPS[op](f, y)
                    all3 = {'result': g, 'left': f, 'right': y if yn == 'frame' else None}
                    target = all3[which]
                    if target is None:
                        continue
                    was = {k: ([d.tobytes() for d in data(v, kind)], meta(v, kind)) for k, v in all3.items() if v is not None and k != which}
                    scramble(target)
                    for k, w in was.items():
                        ctx.check([d.tobytes() for d in data(all3[k], kind)] == w[0], 'shared-data', lambda: 'data of the %s frame changed with the %s frame' % (k, which))
                        ctx.equal(meta(all3[k], kind), w[1], 'shared-header', 'header of the %s frame after changing the %s frame' % (k, which))
                    ctx.step()
        # with itself
        for op in ops:
            for inp in (False, True):
                with ctx.case('%s %s itself%s' % (kind, op, ' in place' if inp else '')):
                    with np.errstate(all='ignore'):
                        f = make(kind, 7)
                        want = [OPS[op](w, w).astype(dt) for w in data(f, kind)]
                        g = ip(op, f, f) if inp else OPS[op](f, f)
                        close(ctx, data(g, kind), want, 'frame %s itself' % op)
                        ctx.step()
        # anything else is refused
        if kind not in SPECS:
            for op in ops:
                for bad in ('1', None, [1, 2], {}):
                    with ctx.case('%s %s %r' % (kind, op, bad)):
                        f = make(kind, 7)
                        want = data(f, kind)
                        ctx.raises(TypeError, lambda: OPS[op](f, bad), 'accepted')
                        ctx.raises(TypeError, lambda: ip(op, f, bad), 'accepted')
                        close(ctx, data(f, kind), want, 'frame after a refused operation')
                        ctx.step()
        elif kind == 'spec':
            for op in ops:
                with ctx.case('linear %s Stokes' % op):
                    ctx.raises(RuntimeError, lambda: OPS[op](make('spec', 1), make('stokes', 1)), 'accepted')
                    ctx.step()
    return fn


def order(kind):
    def fn(ctx):
        import operator
        dts = [0, 1, 2, 5, 10, 19]
        rel = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
        for a, b in itertools.product(dts, repeat=2):
            with ctx.case('%s at %i and %i' % (kind, a, b)):
                fa, fb = make(kind, 1, a), make(kind, 2, b)
                for r in rel:
                    ctx.equal(bool(r(fa, fb)), r(a, b), 'order', '%s of frames at %i and %i' % (r.__name__, a, b))
                    ctx.equal(bool(r(fa, fb.time)), r(a, b), 'order', '%s of a frame at %i and a time %i' % (r.__name__, a, b))
                    ctx.step(2)
                ctx.state((a, b))
        for p in itertools.permutations(dts[:5], 4):
            with ctx.case('%s sorted from %r' % (kind, p)):
                s = sorted([make(kind, 1, d) for d in p])
                ctx.equal([f.time for f in s], [make(kind, 1, d).time for d in sorted(p)], 'sorted')
                ctx.step()
    return fn


def construct(ctx):
    """A frame built from the wrong kind of header or payload is refused with TypeError."""
    mods = {'drx': drx, 'drx8': drx8, 'tbx': tbx, 'cor': cor, 'drspec': drspec, 'vdif': vdif}
    for a, b in itertools.product(mods, repeat=2):
        with ctx.case('%s frame with %s parts' % (a, b)):
            h, p = mods[b].FrameHeader(), mods[b].FramePayload()
            if a == b:
                f = mods[a].Frame(header=h, payload=p)
                ctx.check(f.header is h and f.payload is p, 'parts')
            else:
                ctx.raises(TypeError, lambda: mods[a].Frame(header=h), 'accepted', 'foreign header')
                ctx.raises(TypeError, lambda: mods[a].Frame(payload=p), 'accepted', 'foreign payload')
            ctx.step()
            ctx.state((a, b))


def units(tier):
    kinds = ['drx', 'drx8', 'tbx', 'cor', 'spec', 'stokes', 'vdif', 'vdifc']
    out = {'arithmetic ' + k: arith(k, tier) for k in kinds}
    out.update({'order ' + k: order(k) for k in kinds})
    out['construct'] = construct
    return out
