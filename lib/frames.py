"""Byte-level builders for every frame format, written from the format descriptions."""
import struct
import numpy as np

SYNC = b'\xde\xc0\xde\x5c'
FS = 196000000


def drx(beam=1, tune=1, pol=0, count=1, second=2, decimation=10, offset=0, timetag=10**17, tuning=1, flags=0, payload=None, drx_id=None, sync=SYNC, n=4096):
    if drx_id is None:
        drx_id = (beam & 7) | ((tune & 7) << 3) | ((pol & 1) << 7) | (0x40 if n == 8192 else 0)
    if payload is None:
        payload = bytes(n)
    assert len(payload) == n
    return sync + struct.pack('>IIHHQII', (drx_id << 24) | count, second, decimation, offset, timetag, tuning, flags) + payload


def drx8(**kw):
    return drx(n=8192, **kw)


def tbx(nstand=64, nchan=4, frame_id=8, count=1, second=2, first_chan=10, timetag=10**17, payload=None, sync=SYNC):
    if payload is None:
        payload = bytes(nstand*nchan*2)
    assert len(payload) == nstand*nchan*2
    return sync + struct.pack('>IIIHHq', (frame_id << 24) | count, second, first_chan, nstand, nchan, timetag) + payload


def cor(nchan=33, adp_id=2, count=1, second=2, first_chan=10, gain=1, timetag=10**17, navg=50, stand0=1, stand1=2, vis=None, sync=SYNC):
    if vis is None:
        vis = np.zeros((nchan, 2, 2), dtype=np.complex64)
    return sync + struct.pack('>IIHHqihh', (adp_id << 24) | count, second, first_chan, gain, timetag, navg, stand0, stand1) + np.ascontiguousarray(vis).astype('<c8').tobytes()


def drspec(data, beam=1, fmt=0x01, timetag=10**17, offset=0, decimation=10, tuning=(1, 2), fills=(1, 1, 1, 1), errors=(0, 0, 0, 0),
           version=1, flags=0, nfreq=None, nints=1, sat=(0, 0, 0, 0), magic1=0xC0DEC0DE, magic2=0xED0CED0C):
    """data: flat float32 array as on disk"""
    data = np.asarray(data, dtype='<f4')
    return struct.pack('<IQHH2I4I4BBBBBII4II', magic1, timetag, offset, decimation, *tuning, *fills, *errors, beam, fmt, version, flags,
                       nfreq, nints, *sat, magic2) + data.tobytes()


def vdif(payload, invalid=0, legacy=0, seconds=0, epoch=0, frame=0, version=1, log2nchan=0, is_complex=0, bits=8, thread=0, station=0,
         ext=(0, 0, 0, 0), frame_length=None, unassigned=0):
    hs = 16 if legacy else 32
    if frame_length is None:
        assert (len(payload)+hs) % 8 == 0
        frame_length = (len(payload)+hs)//8
    w0 = seconds | (legacy << 30) | (invalid << 31)
    w1 = frame | (epoch << 24) | (unassigned << 30)
    w2 = frame_length | (log2nchan << 24) | (version << 29)
    w3 = station | (thread << 16) | ((bits-1) << 26) | (is_complex << 31)
    out = struct.pack('<4I', w0, w1, w2, w3)
    if not legacy:
        out += struct.pack('<4I', *ext)
    return out + payload


def s4(b):
    """signed value of a 4-bit field"""
    return np.where(b > 7, b.astype(np.int16)-16, b.astype(np.int16))


def unpack44(payload):
    """4+4 bit complex: high nibble real, low nibble imaginary -> int16 (n, 2)"""
    b = np.frombuffer(payload, dtype=np.uint8)
    return np.stack([s4(b >> 4), s4(b & 15)], axis=-1)


def unpack88(payload):
    return np.frombuffer(payload, dtype=np.int8).astype(np.int16).reshape(-1, 2)


def rot(n, k):
    """n bytes such that over k=0..255 every position takes every value"""
    i = np.arange(n, dtype=np.int64)
    return ((i*7 + (i // 256)*13 + k) % 256).astype(np.uint8).tobytes()


VDIF4 = [(v-8)/np.float32(2.95) for v in range(16)]


def vdif_samples(payload, bits, integer):
    """List of sample values (float32 or int), time order, low-order bits first."""
    b = np.frombuffer(payload, dtype=np.uint8)
    per = 8//bits
    lev = np.stack([(b >> (bits*i)) & ((1 << bits)-1) for i in range(per)], axis=-1).reshape(-1).astype(np.int64)
    if bits == 1:
        t = np.array([-1, 1])
    elif bits == 2:
        t = np.array([-3, -1, 1, 3]) if integer else np.array([-3.3359, -1, 1, 3.3359])
    elif bits == 4:
        t = np.arange(16)-8 if integer else (np.arange(16)-8)/2.95
    else:
        t = np.arange(256)-128 if integer else (np.arange(256)*2-255)/256.0
    return t[lev]
