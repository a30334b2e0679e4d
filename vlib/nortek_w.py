"""Writer of classic Nortek files (Vector, AWAC, Vectrino), from the layouts
in Nortek's System Integrator Manual."""
import struct
from datetime import datetime, timedelta
import numpy as np


def cs_of(b):
    return (0xb58c + sum(struct.unpack('<%dH' % (len(b) // 2), b))) & 0xffff


def rec(rid, body, end='<'):
    b = bytes([0xa5, rid]) + body
    assert len(b) % 2 == 0
    return b + struct.pack('<H', cs_of(b))


def bcd(v):
    return (v // 10) << 4 | v % 10


def when(t):
    return bytes(bcd(x) for x in (t.minute, t.second, t.day, t.hour, t.year % 100, t.month))


def size(total):
    return struct.pack('<H', total // 2)


def hw_cfg(serial='VEC 1234', prolog=1, prologfw='4.16', board=2, freq=9, pic=5, rev=3, rec_size=7, vel_range=0, fw='3.36'):
    return rec(5, size(48) + serial.encode().ljust(8)[:8] + bytes([prolog, 0]) + prologfw.encode() +
               struct.pack('<6H', board, freq, pic, rev, rec_size, vel_range) + bytes(12) + fw.encode())


def head_cfg(mat, config=7, freq=6000, serial=b'VEC 4943', nbeams=3):
    m = np.asarray(np.round(np.asarray(mat) * 4096), int).ravel()
    sysd = bytes(8) + struct.pack('<%dh' % m.size, *m)
    return rec(4, size(224) + struct.pack('<3H', config, freq, 0) + serial.ljust(12, b'\0') + sysd.ljust(176, b'\0') + bytes(22) +
               struct.pack('<H', nbeams))


def user_cfg(**k):
    g = k.get
    mode1 = g('mode1', 0)
    tim = g('tim', 0)
    mode0 = (1 << 4) * bool(g('fine')) | (1 << 1) * bool(g('waves')) | bool(g('user_c')) | g('mode0', 0)
    body = struct.pack('<18H', g('t1', 2), g('blank', 0), g('t3', 7), g('t4', 36), g('t5', 512), g('npings', 3), g('avg', 32),
                       g('nbeams', 3), tim, 0, 0, 0, 0, g('compass', 1), g('coord', 1), g('nbins', 1), g('binlen', 7),
                       g('interval', 600))
    body += g('name', 'TEST').encode().ljust(6, b'\0')[:6]
    body += struct.pack('<4H', g('wrap', 0), 0x3412, 0x0815, 0x1206)
    body += struct.pack('<I', 43200)
    body += struct.pack('<9H', mode0, 16657, 20, 1, 20, 0, g('analog', 0), g('sw', 13600), g('sal10', 350))
    body += struct.pack('<90H', *([0] * 90))
    # VelAdj (90 words) then an 80-byte comment
    body += g('comments', 'hello').encode().ljust(80, b'\0')[:80]
    body += bytes(48)
    # '48x H 50x 6H 4x H 2x 2H 2x H 30x 8H'
    body += struct.pack('<H', g('wave_method', 4))
    body += bytes(50)
    body += struct.pack('<6H', mode1, g('dynpos', 29490), 100, 10, g('wcell', 500), g('nwave', 1024))
    body += bytes(4)
    body += struct.pack('<H', g('nburst', 0))
    body += bytes(2)
    body += struct.pack('<2H', 6000, g('corr_thresh', 0))
    body += bytes(2)
    body += struct.pack('<H', 24)
    body += bytes(30)
    body += struct.pack('<8H', *range(8))
    body = size(512) + body
    assert len(body) == 508, len(body)
    return rec(0, body)


def vec_data(press, vel, amp, corr, count=0, ana1=0, ana2=0):
    msb, lsw = press >> 16, press & 0xffff
    return rec(0x10, struct.pack('<4B2H3h6B', ana2 & 255, count & 255, msb, ana2 >> 8, lsw, ana1, *vel, *amp, *corr))


def vec_sys(t, batt, c, h, p, r, temp, error=0, status=0, ana=0):
    return rec(0x11, size(28) + when(t) + struct.pack('<2H3hh2BH', batt, c, h, p, r, temp, error, status, ana))


def vec_hdr(t, n, noise=(60, 61, 62), corr=(10, 11, 12)):
    return rec(0x12, size(42) + when(t) + struct.pack('<H7B', n, *noise, 0, *corr) + bytes(21))


def checkdata(n, first=0, vectrino=False, seed=0):
    nb = 4 if vectrino else 3
    d = np.random.default_rng(seed).integers(0, 200, nb * n).astype('u1').tobytes()
    b = size(0) + struct.pack('<2H', n, first) + (bytes(6) if vectrino else b'') + d
    tot = len(b) + 4
    return rec(7, size(tot) + b[2:])


def imu(rid, vals, count=0):
    if rid == 195:
        b = struct.pack('<15f', *vals) + bytes(4)
    elif rid == 204:
        b = struct.pack('<18f', *vals) + bytes(6)
    else:
        b = struct.pack('<9f', *vals) + bytes(6)
    tot = 2 + 4 + len(b) + 2
    return rec(0x71, size(tot) + bytes([count & 255, rid]) + b)


def awac_profile(t, h, p, r, press, temp, vel, amp, error=0, ana=0, batt=120, c=15000, status=0):
    vel, amp = np.asarray(vel, '<i2'), np.asarray(amp, 'u1')
    b = when(t) + struct.pack('<4H3hBBHh', error, ana, batt, c, h, p, r, press >> 16, status, press & 0xffff, temp) + bytes(88) + \
        vel.tobytes() + amp.tobytes()
    if len(b) % 2:
        b += b'\0'
    return rec(0x20, size(len(b) + 6) + b)


def vno_event(t):
    return rec(0x0f, size(26) + when(t) + bytes(14))


def vno_hdr():
    return rec(0x50, size(42) + bytes(36))


def vno_data(vel, amp, corr, status=0, count=0):
    return rec(0x51, struct.pack('<2B4h8B', status, count & 255, *vel, *amp, *corr))
