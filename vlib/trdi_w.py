"""Writer of TRDI PD0 files, from the layouts in Teledyne's Output Data Format
documents (PD0, VMDAS navigation block, WinRiver II NMEA blocks)."""
import struct
import numpy as np

P = struct.pack


def ensemble(blocks, nbyte=None):
    """blocks: list of bytes, each starting with its 2-byte id."""
    hdr = 6 + 2 * len(blocks)
    offs, pos = [], hdr
    for b in blocks:
        offs.append(pos)
        pos += len(b)
    body = b'\x7f\x7f' + P('<HBB', pos, 0, len(blocks)) + P('<%dH' % len(offs), *offs) + b''.join(blocks)
    return body + P('<H', sum(body) & 0xffff)


def fixed(g, bb=0):
    """Fixed leader; g: dict of raw field values."""
    ver, rev = g['ver'], g['rev']
    v = ver + rev / 100
    b = P('<HBBBBB', bb, ver, rev, g['cfg0'], g['cfg1'], g.get('sim', 0)) + bytes([9])
    b += P('<BBHHH', g['n_beams'], g['n_cells'], g['ppe'], g['cell'], g['blank'])
    b += P('<BBBBH', g['mode'], g['mincorr'], g['ncode'], g['minpg'], g['maxerr'])
    b += bytes(g['tpp']) + P('<Bhh', g['coord'], g['misalign'], g['magvar'])
    b += P('<BBHH', g['src'], g['avail'], g['bin1'], g['xmit']) + bytes(g['wref'])
    b += P('<BBH', g['ftt'], 7, g['tlag'])
    assert len(b) == 42
    if v >= 8.14:
        b += bytes(range(8))
    if v >= 8.24:
        b += P('<H', g['bandwidth'])
    if v >= 16.05:
        b += P('<B', g['power'])
    if v >= 16.27:
        b += P('<BIB', 3, g['serial'], g['theta'])
    return b


def variable(g, e, model, bb=0):
    """Variable leader of ensemble e (dict of raw values)."""
    v = g['ver'] + g['rev'] / 100
    t = e['t']
    rtc = bytes([t.year % 100, 0 if e.get('nat') else t.month, t.day, t.hour, t.minute, t.second, t.microsecond // 10000])
    b = P('<HH', 128 + bb, e['num'] & 0xffff) + rtc + P('<B', e['num'] >> 16)
    b += P('<HHHHhhhh', e['bit'], e['c'], e['depth'], e['h'], e['p'], e['r'], e['sal'], e['temp'])
    b += bytes(e['mpt']) + bytes(e['std']) + bytes(e['adc'])
    assert len(b) == 42
    full = bytes([t.year // 100]) + rtc
    if model == 'Broadband':
        if v >= 5.55:
            b += bytes(15) + full
    elif model == 'Ocean Surveyor':
        b += bytes(16 + 2 * (v > 23))
    else:
        b += P('<I', e['err'])
        if v >= 8.13:
            b += bytes(2) + P('<II', e['press'], e['pstd'])
        if v >= 8.24:
            b += bytes(1)
        if v >= 16.05:
            b += full
        if v >= 56:
            b += bytes(1)
    return b


def cells(bid, x):
    x = np.asarray(x)
    return P('<H', bid) + (x.astype('<i2') if bid in (256, 257, 272) else x.astype('u1')).tobytes()


def bottom(g, e, winriver=False):
    v = g['ver'] + g['rev'] / 100
    rng = np.asarray(e['bt_range'])
    b = P('<H', 1536) + bytes(range(1, 15)) + (rng & 0xffff).astype('<u2').tobytes()
    b += np.asarray(e['bt_vel']).astype('<i2').tobytes()
    for k in ('bt_corr', 'bt_amp', 'bt_pg'):
        b += np.asarray(e[k]).astype('u1').tobytes()
    b += bytes([77]) * 26
    if v >= 5.3:
        b += bytes([88]) * 7 + (rng >> 16).astype('u1').tobytes()
    if v >= 16.2 and not winriver:
        b += bytes(4)
    if v >= 56.1:
        b += bytes(4)
    return b


def bottom_winriver(g, e):
    """Bottom track of WinRiver: the position takes the place of unused bytes."""
    b = bytearray(bottom(g, e, True))
    lat, lon = e['lat'], e['lon'] % 2**32
    b[4:6] = P('<H', lon & 0xffff)
    b[12:16] = P('<i', lat)
    b[46:48] = P('<H', lon >> 16)
    b[64] = e['qual']
    return bytes(b)


def sl_fixed(n, cell, bin1):
    return P('<HBHH', 16, n, cell, bin1)


def altimeter(ev, rssi, dist, status):
    return P('<HBBIB', 16640, ev, rssi, dist, status)


def vmdas(e):
    t = e['t']
    d = e['date']
    b = P('<HBBH', 8192, d.day, d.month, d.year) + P('<IiiiIii', e['ms10_first'], e['pc_off'], 11, 12, e['ms10'], e['lat'], e['lon'])
    b += P('<HHHHHHH', e['speed'], e['dir'], 5, e['smg'], e['dmg'], 0, e['flags'])
    b += bytes(2) + P('<I', e['num']) + P('<HBB', t.year, t.day, t.month) + P('<I', e['ms10'])
    b += P('<HHH', e['pitch'], e['roll'], e['head']) + bytes(10)
    assert len(b) == 78, len(b)
    return b


def nmea(spid, body):
    """General NMEA block 2022: id, specific id, message size, delta time."""
    return P('<HHHd', 8226, spid, len(body), 0.25) + body


def gga(e):
    """WinRiver II GGA structure (57 bytes)."""
    h, m, s = e['hms']
    b = b'$GPGGA' + b',' + ('%02d%02d%05.2f' % (h, m, s)).encode()[:9].ljust(9) + b','
    b += P('<dc', abs(e['lat']), b'S' if e['lat'] < 0 else b'N') + P('<dc', abs(e['lon']), b'W' if e['lon'] < 0 else b'E')
    b += P('<BBff', e['fix'], e['nsat'], e['hdop'], e['alt']) + b'M' + P('<f', 1.5) + b'M' + P('<fH', e['age'], 1)
    return b


def vtg(e):
    return b'$GPVTG,' + P('<fcfcfcfcc', e['dir'], b'T', e['dir'] + 1, b'M', e['kn'], b'N', e['kn'] * 1.852, b'K', b'A')


def dbt(e):
    return b'$SDDBT,' + P('<fcfcfc', e['dist'] / .3048, b'f', e['dist'], b'M', e['dist'] / 1.8288, b'F')


def hdt(e):
    return b'$GPHDT,' + P('<dc', e['head'], b'T')
