"""
R07 - a file split into parts reads like the single file it came from.

All ways of cutting a short file into parts x all short operation sequences,
and all cut points of files of frames, against one bytes object.
"""
import os
import io
import itertools

import frames as F
from lsl.reader import drx, tbx, drspec, vdif, cor
from lsl.reader.errors import EOFError
from lsl.reader.utils import SplitFileWrapper, FilePositionSaver

BOUNDS = ('all cuts of a 6-byte file into 1-4 parts (empty parts included) x all sequences of 3 (quick) / 4 (thorough) operations out of 21 reads/seeks; '
          'all single cut points (and three-way cuts) of multi-frame DRX, TBX, COR, spectrometer and VDIF files')
CONTENT = bytes(range(65, 71))

OPS = [('read', n) for n in (0, 1, 2, 4, 6, 9, -1)] + [('seek', p, 0) for p in (0, 1, 3, 5, 6, 8, -1)] \
    + [('seek', d, 1) for d in (-2, -1, 0, 2, 5)] + [('seek', d, 2) for d in (0, -1, -4, -6)]


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(total+1):
        for rest in compositions(total-i, parts-1):
            yield (i,) + rest


def split(ctx, cut, content, tag):
    names = []
    pos = 0
    for i, n in enumerate(cut):
        fn = os.path.join(ctx.scratch, '%s_%02i' % (tag, i))
        with open(fn, 'wb') as fh:
            fh.write(content[pos:pos+n])
        names.append(fn)
        pos += n
    return names


def run(ctx, fh, ops):
    pos = 0
    for op in ops:
        if op[0] == 'read':
            want = CONTENT[pos:] if op[1] < 0 else CONTENT[pos:pos+op[1]]
            got = fh.read(op[1])
            ctx.equal(got, want, 'read', '%r at %i' % (op, pos))
            pos += len(want)
        else:
            target = op[1] + (0, pos, len(CONTENT))[op[2]]
            if target < 0:
                ctx.raises((OSError, ValueError), lambda: fh.seek(op[1], op[2]), 'negative-seek', 'seek to %i' % target)
            else:
                fh.seek(op[1], op[2])
                pos = target
        ctx.equal(fh.tell(), pos, 'tell', 'position after %r' % (op,))
        ctx.step()


def ops_unit(parts, tier):
    def fn(ctx):
        depth = 3 if tier == 'quick' else 4
        cuts = [c for c in compositions(len(CONTENT), parts)]
        if tier == 'quick' and parts == 4:
            cuts = [c for c in cuts if max(c) <= 3]
        for cut in cuts:
            names = split(ctx, cut, CONTENT, 'p')
            fh = SplitFileWrapper(list(names))
            ctx.equal(fh.size, len(CONTENT), 'size')
            for ops in itertools.product(OPS, repeat=depth - (1 if parts == 4 and tier == 'quick' else 0)):
                with ctx.case((cut, ops)):
                    fh.seek(0)
                    run(ctx, fh, ops)
                    ctx.state((cut, ops[-1], fh.tell()))
            with ctx.case(('life cycle', cut)):
                with SplitFileWrapper(list(names)) as g:
                    ctx.equal(g.read(), CONTENT, 'read', 'read()')
                    ctx.equal(g.read(), b'', 'read', 'read() at the end')
                    ctx.equal(g.closed, False, 'closed')
                ctx.equal(g.closed, True, 'closed')
                ctx.raises(ValueError, lambda: g.read(1), 'closed-read')
                ctx.raises(ValueError, lambda: g.tell(), 'closed-read')
                ctx.raises(ValueError, lambda: g.seek(0), 'closed-read')
                g.close()
            fh.close()
            with ctx.case(('order', cut)):
                for perm in itertools.permutations(range(len(names))):
                    given = [names[i] for i in perm]
                    keep = list(given)
                    with SplitFileWrapper(given) as g:
                        ctx.equal(g.read(-1), CONTENT, 'sorted', 'parts given in the order %r' % (perm,))
                    ctx.equal(given, keep, 'caller-list', "the caller's list")
                    bits = []
                    for i in perm:
                        with open(names[i], 'rb') as p:
                            bits.append(p.read())
                    with SplitFileWrapper(given, sort=False) as g:
                        ctx.equal(g.read(-1), b''.join(bits), 'unsorted', 'sort=False, order %r' % (perm,))
                    ctx.step(2)
    return fn


def frames_unit(name, reader, raws, sig):
    def fn(ctx):
        content = b''.join(raws)
        whole = io.BytesIO(content)
        want = [sig(reader(whole)) for _ in raws]
        n = len(content)
        step = max(1, n//(300 if ctx.tier == 'quick' else 4000))
        cuts = [(i, n-i) for i in range(0, n+1, step)] + [(i, n-i) for i in range(0, 40)]
        fs = len(raws[0])
        cuts += [(a, b, n-a-b) for a in (0, 1, fs-1, fs) for b in (0, 1, 31, fs)]
        for cut in cuts:
            names = split(ctx, cut, content, 'f')
            with ctx.case((name, cut)):
                with SplitFileWrapper(names) as fh:
                    for k in range(len(raws)):
                        with FilePositionSaver(fh):
                            reader(fh)
                        ctx.equal(fh.tell(), sum(len(r) for r in raws[:k]), 'position-saver', 'restored position')
                        ctx.equal(sig(reader(fh)), want[k], 'frame', 'frame %i' % k)
                        ctx.step(2)
                    ctx.raises(EOFError, lambda: reader(fh), 'no-eof')
                ctx.state(cut)
    return fn


def units(tier):
    def data(f):
        return (f.payload.timetag, f.payload.data.tobytes())
    out = {'ops %i parts' % n: ops_unit(n, tier) for n in (1, 2, 3, 4)}
    out['drx'] = frames_unit('drx', drx.read_frame, [F.drx(timetag=10**17+k, payload=F.rot(4096, k)) for k in range(3)], data)
    out['tbx'] = frames_unit('tbx', tbx.read_frame, [F.tbx(timetag=10**17+k, payload=F.rot(512, k)) for k in range(3)], data)
    out['cor'] = frames_unit('cor', cor.read_frame, [F.cor(nchan=33, timetag=10**17+k) for k in range(3)], data)
    out['drspec'] = frames_unit('drspec', drspec.read_frame, [F.drspec(range(2*64*2), fmt=9, nfreq=64, timetag=10**17+k) for k in range(3)], data)
    out['vdif'] = frames_unit('vdif', vdif.read_frame, [F.vdif(F.rot(64, k), thread=k) for k in range(3)], lambda f: (f.header.thread_id, f.payload.data.tobytes()))
    return out
