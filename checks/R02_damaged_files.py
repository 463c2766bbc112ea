"""
R02 - damaged files: every truncation point, every header byte corruption and
every short burst of garbage is run through the readers; intact frames are
always returned exactly, damage is reported with the documented errors.
"""
import io
import itertools
import numpy as np

import frames as F
from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
from lsl.reader.errors import SyncError, EOFError

BOUNDS = ('three-frame files of every format: every truncation length; every value of every header byte of the middle frame; garbage of 1-9 bytes '
          'before/between frames; a file handle that fails at every read call')
ASSUMPTIONS = ['garbage does not itself contain a sync word']


def cx(d):
    d = np.asarray(d)
    return d.tobytes()


def sig_drx(f):
    h, p = f.header, f.payload
    return (h.frame_count, h.drx_id, h.second_count, h.decimation, h.time_offset, p.timetag, p.tuning_word, p.flags, hash(cx(p.data)))


def sig_tbx(f):
    h, p = f.header, f.payload
    return (h.frame_id, h.frame_count, h.second_count, h.first_chan, h.nstand, h.nchan, p.timetag, p.data.shape, hash(cx(p.data)))


def sig_cor(f):
    h, p = f.header, f.payload
    return (h.adp_id, h.frame_count, h.second_count, h.first_chan, h.gain, p.timetag, p.navg, p.stand0, p.stand1, p.data.shape, hash(cx(p.data)))


def sig_spec(f):
    h, p = f.header, f.payload
    return (h.beam, h.format, h.decimation, h.time_offset, h.nints, p.timetag, tuple(p.tuning_words), tuple(p.fills), tuple(p.errors), tuple(p.saturations),
            tuple((n, hash(cx(getattr(p, n+'0'))), hash(cx(getattr(p, n+'1')))) for n in f.data_products))


def sig_vdif(f):
    h, p = f.header, f.payload
    return (h.is_invalid, h.is_legacy, h.seconds_from_epoch, h.ref_epoch, h.frame_in_second, h.version, h.nchan, h.frame_length, h.is_complex, h.bits_per_sample,
            h.thread_id, h.station_id, h.extended_data_1, h.extended_data_4, p.data.shape, hash(cx(p.data)))


class Fmt(object):
    def __init__(self, name, reader, sig, raws, hlen, sync, chunk=1, prime=True):
        self.name, self.reader, self.sig, self.raws, self.hlen, self.sync, self.chunk = name, reader, sig, raws, hlen, sync, chunk
        self.prime = prime

    def reset(self):
        """The size of the last frames read may be remembered: start from this file's own."""
        fh = io.BytesIO(b''.join(self.raws))
        self.want = [self.sig(self.reader(fh)) for _ in self.raws]


def formats():
    out = []
    for mod, build, n, nm in ((drx, F.drx, 4096, 'drx'), (drx8, F.drx8, 8192, 'drx8')):
        raws = [build(count=k+1, second=9, timetag=10**17+k, tuning=5*k, payload=F.rot(n, 17*k)) for k in range(3)]
        out.append(Fmt(nm, mod.read_frame, sig_drx, raws, 32, 4))
        out.append(Fmt(nm + ' ci8', mod.read_frame_ci8, sig_drx, raws, 32, 4))
    for m in ((64, 4), (128, 8), (256, 16)):
        raws = [F.tbx(nstand=m[0], nchan=m[1], count=k+1, first_chan=10*k, timetag=10**17+k, payload=F.rot(m[0]*m[1]*2, 17*k)) for k in range(3)]
        out.append(Fmt('tbx %ix%i' % m, tbx.read_frame, sig_tbx, raws, 32, 4))
    out.append(Fmt('tbx 64x8 ci8', tbx.read_frame_ci8, sig_tbx, [F.tbx(nstand=64, nchan=8, count=k+1, payload=F.rot(1024, 17*k)) for k in range(3)], 32, 4))
    for n in (33, 72, 112, 192):
        raws = [F.cor(nchan=n, count=k+1, first_chan=10*k, timetag=10**17+k, stand0=1, stand1=k+2,
                      vis=(np.arange(n*4)+k*1000).astype(np.complex64).reshape(n, 2, 2)) for k in range(3)]
        out.append(Fmt('cor %i' % n, cor.read_frame, sig_cor, raws, 40, 4))
    for fmt, npd in ((9, 2), (0xF0, 4), (1, 1)):
        raws = [F.drspec(np.arange(2*8*npd)+1+k, fmt=fmt, nfreq=8, timetag=10**17+k, fills=(1, 2, 3, 4)) for k in range(3)]
        out.append(Fmt('drspec %#x' % fmt, drspec.read_frame, sig_spec, raws, 76, 4))
    for bits, c, leg, rd, nm in ((8, 0, 0, vdif.read_frame, 'f32'), (2, 1, 1, vdif.read_frame, 'f32'), (4, 1, 0, vdif.read_frame_i8, 'i8'), (1, 0, 1, vdif.read_frame_i8, 'i8')):
        raws = [F.vdif(F.rot(64, 17*k), bits=bits, is_complex=c, legacy=leg, seconds=5, frame=k, thread=k, log2nchan=1) for k in range(3)]
        out.append(Fmt('vdif %i bits complex=%i legacy=%i %s' % (bits, c, leg, nm), rd, sig_vdif, raws, 16 if leg else 32, 0))
    return out


def truncate(fmt, tier):
    def fn(ctx):
        fmt.reset()
        whole = b''.join(fmt.raws)
        size = len(fmt.raws[0])
        for length in range(len(whole)+1):
            k = length//size
            if k == 0 and tier == 'quick' and length not in (0, 1, 4, fmt.hlen-1, fmt.hlen, fmt.hlen+1, size-1) and length % 7:
                continue
            with ctx.case('%s truncated to %i bytes' % (fmt.name, length)):
                fh = io.BytesIO(whole[:length])
                for i in range(k):
                    got = fmt.sig(fmt.reader(fh))
                    ctx.equal(got, fmt.want[i], 'intact-frame', 'frame %i before the truncation point' % i)
                    ctx.equal(fh.tell(), (i+1)*size, 'position')
                    ctx.step()
                for _ in range(2):
                    pos = fh.tell()
                    ctx.raises(EOFError, lambda: fmt.reader(fh), 'no-eof', 'reading past the truncation point')
                    ctx.step()
                ctx.state((k, length % size))
    return fn


def corrupt(fmt, tier):
    def fn(ctx):
        fmt.reset()
        size = len(fmt.raws[0])
        values = range(256) if tier == 'thorough' or fmt.hlen < 1000 else ()
        for off in range(fmt.hlen):
            orig = fmt.raws[1][off]
            for v in values:
                if v == orig:
                    continue
                issync = fmt.sync and (off < 4 or (fmt.name.startswith('drspec') and off >= fmt.hlen-4))
                if tier == 'quick' and not issync and v not in (0, 1, 2, 4, 8, 16, 32, 64, 127, 128, 255, orig ^ 1, orig ^ 255, (orig+1) & 255) and (v+off) % 8:
                    continue
                with ctx.case('%s header byte %i = %#04x' % (fmt.name, off, v)):
                    fmt.reset()
                    b = bytearray(fmt.raws[1])
                    b[off] = v
                    data = fmt.raws[0] + bytes(b) + fmt.raws[2]
                    fh = io.BytesIO(data)
                    ctx.equal(fmt.sig(fmt.reader(fh)), fmt.want[0], 'intact-frame', 'the frame before the damage')
                    ctx.equal(fh.tell(), size, 'position', 'position before the damaged frame')
                    got = err = None
                    try:
                        got = fmt.sig(fmt.reader(fh))
                    except (SyncError, EOFError, RuntimeError, MemoryError) as e:
                        err = e
                    if issync:
                        ctx.check(isinstance(err, SyncError), 'no-sync-error', 'a damaged sync word was reported as %r/%r' % (got, err))
                        ctx.equal(err.location, size, 'sync-location', 'location of the sync error')
                        ctx.equal(fh.tell(), size + (size if fmt.name.startswith('drx') else 0), 'position', 'position after a sync error')
                    elif err is None:
                        # decoded like the undamaged frame is, from the same bytes
                        fh.seek(size)
                        ctx.equal(fmt.sig(fmt.reader(fh)), got, 'not-deterministic', 'the damaged frame read twice')
                        ctx.check(got != fmt.want[1] or fmt.name.startswith(('drspec', 'vdif')), 'damage-ignored', 'header change not visible')
                    fh.seek(2*size)
                    fmt.reset()
                    ctx.equal(fmt.sig(fmt.reader(fh)), fmt.want[2], 'intact-frame', 'the frame after the damage')
                    ctx.step(3)
                    ctx.state((off, v))
    return fn


def garbage(fmt, tier):
    """Junk bytes before/between frames; the reader resynchronises from the reported location."""
    def fn(ctx):
        fmt.reset()
        size = len(fmt.raws[0])
        for a, b in itertools.product((0, 1, 2, 3, 5, 9), repeat=2):
            for fill in (0x00, 0xFF, 0xDE):
                with ctx.case('%s garbage %i,%i bytes of %#x' % (fmt.name, a, b, fill)):
                    fmt.reset()
                    data = bytes([fill])*a + fmt.raws[0] + fmt.raws[1] + bytes([fill])*b + fmt.raws[2]*1
                    fh = io.BytesIO(data)
                    got = []
                    tries = 0
                    while True:
                        tries += 1
                        ctx.check(tries < 40, 'no-progress', 'no progress while resynchronising')
                        pos = fh.tell()
                        try:
                            f = fmt.reader(fh)
                        except SyncError as e:
                            ctx.equal(e.location, pos, 'sync-location', 'location of the sync error')
                            # DRX(8) readers have consumed the frame, all others none of it
                            ctx.equal(fh.tell(), pos + (size if fmt.name.startswith('drx') else 0), 'position', 'position after a sync error')
                            fh.seek(e.location+1)
                            ctx.step()
                            continue
                        except EOFError:
                            break
                        got.append(fmt.sig(f))
                        ctx.step()
                    ctx.equal(got, fmt.want, 'lost-frames', 'frames recovered')
                    ctx.state((a, b, fill))
    return fn


class Failing(io.BytesIO):
    def __init__(self, data, n):
        io.BytesIO.__init__(self, data)
        self.n = n

    def read(self, *a):
        if self.n == 0:
            raise OSError(5, 'injected')
        self.n -= 1
        return io.BytesIO.read(self, *a)


def io_errors(fmt, tier):
    def fn(ctx):
        for n in range(12):
            with ctx.case('%s read call %i fails' % (fmt.name, n)):
                fmt.reset()
                fh = Failing(b''.join(fmt.raws), n)
                k = 0
                try:
                    for k in range(4):
                        s = fmt.sig(fmt.reader(fh))
                        ctx.equal(s, fmt.want[k], 'intact-frame', 'frame %i' % k)
                        ctx.step()
                except EOFError:
                    ctx.equal(k, 3, 'io-error-hidden', 'frames read before the end')
                except OSError as e:
                    pass
                # the same process can go on
                fmt.reset()
                ctx.state(n)
        with ctx.case('%s not a file' % fmt.name):
            ctx.raises((AttributeError, OSError), lambda: fmt.reader(object()), 'not-a-file')
    return fn


def units(tier):
    out = {}
    for fmt in formats():
        out['truncate ' + fmt.name] = truncate(fmt, tier)
        out['corrupt ' + fmt.name] = corrupt(fmt, tier)
        if fmt.sync:
            out['garbage ' + fmt.name] = garbage(fmt, tier)
        out['io ' + fmt.name] = io_errors(fmt, tier)
    return out
