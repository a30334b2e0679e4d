"""Writer of Nortek AD2CP (Signature) files, from the Integrators Guide."""
import struct
import numpy as np

P = struct.pack


def csum(b):
    s = 0xb58c + sum(struct.unpack('<%dH' % (len(b) // 2), b[:len(b) // 2 * 2]))
    if len(b) % 2:
        s += b[-1] << 8
    return s & 0xffff


def rec(rid, body, fam=16):
    h = P('<BBBBHH', 0xa5, 10, rid, fam, len(body), csum(body))
    return h + P('<H', csum(h)) + body


def string(s, sid=16):
    return rec(160, bytes([sid]) + s.encode() + b'\0')


def header(model='Signature1000', sr=8, mat=np.eye(4), theta=25, avg=None, extra=()):
    """Configuration text; avg = dict(MIAVG=, AI=, BW=) for averaging plans."""
    m = np.asarray(mat)
    ms = ','.join('M%d%d=%.4f' % (i + 1, j + 1, m[i, j]) for i in range(m.shape[0]) for j in range(m.shape[1]))
    ln = ['ID,STR="%s",SN=100432' % model, 'GETPLAN,MIAVG=%d,AVG=%d,SA=35.0,FREQ=1000' % ((avg or dict(MIAVG=600))['MIAVG'], avg is not None),
          'GETBURST,NC=3,SR=%d,CY="ENU"' % sr]
    if avg:
        ln.append('GETAVG,NC=3,CS=1.00,AI=%d,BW="%s"' % (avg['AI'], avg['BW']))
    ln += ['BEAMCFGLIST,BEAM=%d,THETA=%.2f,PHI=%.2f,FREQ=1000,BW=25,BRD=1,HWBEAM=%d,ZNOM=60.00' % (i + 1, theta, -90. * i, i + 1) for i in range(4)]
    for k in ('XFBURST',) + (('XFAVG',) if avg else ()):
        ln.append('GET%s,ROWS=%d,COLS=%d,%s' % (k, m.shape[0], m.shape[1], ms))
    return string('\r\n'.join(ln + list(extra)) + '\r\n')


def common(g, e, bt=False):
    """76-byte (burst, average, echo) or 78-byte (bottom track) header."""
    t = e['t']
    tb = bytes(8) if e.get('notime') else P('<6BH', t.year - 1900, 13 if e.get('badtime') else t.month - 1, t.day, t.hour, t.minute, t.second,
                                             t.microsecond // 100)
    b = P('<BBHI', 1 if bt else 3, 78 if bt else 76, g['config'], g['serial']) + tb
    b += P('<HhI', e['c'], e['temp'], e['press']) + P('<Hhh', e['h'], e['p'], e['r'])
    b += P('<HHHBB', g['beams_cy'], g['cell'], g['blank'], g['nomcorr'], e['tpress']) + P('<H', e['batt'])
    b += P('<3h', *e['mag']) + P('<3h', *e['acc'])
    b += P('<I' if bt else '<h', g['ambig']) + P('<HHbb', 0, e['xmit'], g['vscale'], g['power'])
    b += P('<hh', 0, e['tclock'])
    b += P('<II', e['error'], e['status']) if bt else P('<HHI', e['error'], e['status0'], e['status'])
    b += P('<I', e['ens'])
    assert len(b) == (78 if bt else 76)
    return b


def ahrs(e):
    return P('<9f', *np.ravel(e['rot'])) + P('<4f', *e['quat']) + P('<3f', *e['gyro'])


BITS = dict(vel=5, amp=6, corr=7, le=8, altraw=9, ast=10, echo=11, ahrs=12, pg=13, std=14)
BTBITS = dict(vel=5, dist=8, fom=9, ahrs=10)


def bits(names, bt=False, low=15):
    d = BTBITS if bt else BITS
    return low | sum(1 << d[n] for n in names)


def data(rid, g, e, names):
    bt = rid == 23
    b = common(g, e, bt)
    if bt:
        for n, f in (('vel', '<i4'), ('dist', '<i4'), ('fom', '<u2')):
            if n in names:
                b += np.asarray(e[n]).astype(f).tobytes()
    elif rid == 28:
        b += np.asarray(e['echo']).astype('<u2').tobytes()
    else:
        for n, f in (('vel', '<i2'), ('amp', 'u1'), ('corr', 'u1')):
            if n in names:
                b += np.asarray(e[n]).astype(f).tobytes()        # (beam, cell)
        if 'le' in names:
            b += P('<fHH', e['le_d'], e['le_q'], e['alt_st'])
        if 'ast' in names:
            b += P('<fHhf', e['ast_d'], e['ast_q'], e['ast_t'], e['ast_p']) + bytes(8)
        if 'altraw' in names:
            b += P('<IH', len(e['samp']), e['dsamp']) + np.asarray(e['samp']).astype('<i2').tobytes()
    if 'ahrs' in names:
        b += ahrs(e)
    if 'pg' in names:
        b += np.asarray(e['pg']).astype('u1').tobytes()
    if 'std' in names:
        b += P('<4h', *e['std']) + bytes(24 - 1)[:23] + b'\0'
    return rec(rid, b)
