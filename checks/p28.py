"""P28 reading TRDI PD0 files."""
from vlib.core import Prop, check, close, quiet, scratch, Violation
from vlib import meta, gen, trdi_w as W
from vlib.gen import seeds, rng_of, over
from datetime import datetime, timedelta
import os
import json
import logging
import numpy as np
from hypothesis import strategies as st
import dolfyn

logging.disable(logging.CRITICAL)

PROP = Prop('P28', 'at least two ensembles with velocities that differ between them')

MODELS = {4: 'Broadband', 5: 'Broadband', 6: 'Navigator', 10: 'Rio Grande', 11: 'H-ADCP', 14: 'Ocean Surveyor', 16: 'Workhorse',
          19: 'Navigator', 23: 'Ocean Surveyor', 28: 'ChannelMaster', 31: 'StreamPro', 34: 'Explorer', 41: 'DVS', 43: 'Workhorse',
          44: 'RiverRay', 47: 'SentinelV', 50: 'Workhorse', 51: 'Workhorse', 52: 'Workhorse', 56: 'RiverPro', 61: 'Pinnacle',
          66: 'SentinelV', 77: 'Workhorse', 78: 'Workhorse'}
VERS = [(16, 28), (50, 40), (51, 41), (16, 5), (16, 27), (16, 4), (8, 10), (8, 13), (8, 14), (8, 24), (10, 16), (5, 30), (5, 54), (5, 55),
        (5, 20), (4, 20), (14, 19), (23, 17), (23, 0), (47, 17), (66, 2), (56, 0), (56, 10), (31, 14), (44, 17), (78, 1), (61, 1),
        (43, 5), (28, 35), (11, 9), (34, 8), (41, 2), (77, 3), (52, 40), (19, 1)]
SKIPPED = [0x1234, 0x30E0, 0x3040, 0x0A11, 12800, 12288, 22785, 22786, 8211, 17408, 524, 2560, 3841, 0x7FF0]

case_st = st.fixed_dictionaries(dict(
    seed=seeds, ver=st.sampled_from(VERS), ncells=st.integers(1, 30), n=st.integers(2, 8), frame=st.integers(0, 3), bits=st.integers(0, 7),
    up=st.booleans(), convex=st.booleans(), b5=st.sampled_from([False, False, True]), magvar=st.sampled_from([0, 0, 0, -1250, 830]),
    udecl=st.sampled_from([None, None, 15.5, -3.0]), types=st.integers(0, 127), dual=st.sampled_from([False] * 4 + [True]),
    extra=st.lists(st.sampled_from(SKIPPED), max_size=3), bigid=st.booleans(), nans=st.booleans(), badclock=st.sampled_from([0, 0, 0, 1]),
    damage=st.sampled_from(['none', 'none', 'none', 'none', 'junk', 'len', 'id', 'cut', 'pre']), nens=st.sampled_from([None, None, None, 1, 2, 5, 99])))


def ii(rng, lo, hi, *a):
    x = rng.integers(lo, hi, *a)
    return int(x) if not a else x


def config(c, rng):
    ver, rev = c['ver']
    g = dict(ver=ver, rev=rev, cfg0=ii(rng, 0, 7) | 8 * c['convex'] | 128 * c['up'], cfg1=ii(rng, 0, 3) | 16 * c['b5'],
             n_beams=4, n_cells=c['ncells'], ppe=ii(rng, 1, 200), cell=ii(rng, 1, 3200), blank=ii(rng, 0, 9999), mode=ii(rng, 0, 13),
             mincorr=ii(rng, 0, 256), ncode=ii(rng, 0, 256), minpg=ii(rng, 0, 101), maxerr=ii(rng, 0, 5001),
             tpp=[ii(rng, 0, 3), ii(rng, 0, 60), ii(rng, 1, 100)], coord=c['frame'] << 3 | c['bits'], misalign=ii(rng, -17999, 18000),
             magvar=c['magvar'], src=ii(rng, 0, 256), avail=ii(rng, 0, 256), bin1=ii(rng, 0, 65536), xmit=ii(rng, 0, 65536),
             wref=[ii(rng, 0, 99), ii(rng, 0, 99)], ftt=ii(rng, 0, 256), tlag=ii(rng, 0, 65536), bandwidth=ii(rng, 0, 2),
             power=ii(rng, 0, 256), serial=ii(rng, 0, 2**32), theta=[15, 20, 25, 30][ii(rng, 0, 4)])
    return g


def values(c, g, rng, n):
    nc = c['ncells']
    # files without the century in the clock hold years from 2000 on
    v = g['ver'] + g['rev'] / 100
    m = MODELS.get(g['ver'])
    cent = v >= 5.55 if m == 'Broadband' else (v >= 16.05 and m != 'Ocean Surveyor')
    t = datetime(1990 if cent else 2000, 1, 1) + timedelta(seconds=ii(rng, 0, 70 * 365 * 86400), milliseconds=10 * ii(rng, 0, 100))
    num = ii(rng, 1, 2**24 - 10000 if c['bigid'] else 5000)
    out = []
    for i in range(n):
        e = dict(t=t, num=num, bit=ii(rng, 0, 3), c=ii(rng, 1400, 1601), depth=ii(rng, 0, 9999), h=ii(rng, 0, 36000), p=ii(rng, -6000, 6001),
                 r=ii(rng, -18000, 18001), sal=ii(rng, 0, 41), temp=ii(rng, -500, 4001), mpt=[ii(rng, 0, 60), ii(rng, 0, 60), ii(rng, 0, 100)],
                 std=[ii(rng, 0, 181), ii(rng, 0, 201), ii(rng, 0, 201)], adc=ii(rng, 0, 256, 8).tolist(), err=ii(rng, 0, 2**32),
                 press=ii(rng, 0, 2**31), pstd=ii(rng, 0, 2**20))
        e['vel'] = ii(rng, -32767, 32768, (nc, 4))
        if c['nans']:
            e['vel'][rng.random((nc, 4)) < .2] = -32768
        for k in ('corr', 'amp', 'pg', 'status'):
            e[k] = ii(rng, 0, 256, (nc, 4))
        e['bt_range'] = ii(rng, 0, 65536, 4) + 65536 * ii(rng, 0, 3, 4) * (v >= 5.3)
        e['bt_vel'] = ii(rng, -32767, 32768, 4)
        for k in ('bt_corr', 'bt_amp', 'bt_pg'):
            e[k] = ii(rng, 0, 256, 4)
        e['alt'] = (ii(rng, 0, 256), ii(rng, 0, 256), ii(rng, 0, 2**24), ii(rng, 0, 256))
        out.append(e)
        num += ii(rng, 1, 3)
        t += timedelta(milliseconds=10 * ii(rng, 1, 9000))
    return out


TYPES = ['corr', 'amp', 'pg', 'status', 'bt', 'alt', 'sl']
IDS = dict(vel=256, corr=512, amp=768, pg=1024, status=1280)


def present(c):
    return [k for i, k in enumerate(TYPES) if c['types'] >> i & 1]


def blocks(c, g, e, order, sl, pad, gb=None, nav=()):
    m = MODELS.get(g['ver'])
    var = W.variable(g, e, m)
    parts = {'vel': W.cells(256, e['vel'])}
    for k in ('corr', 'amp', 'pg', 'status'):
        parts[k] = W.cells(IDS[k], e[k])
    parts['bt'] = W.bottom_winriver(g, e) if 'qual' in e else W.bottom(g, e)
    parts['alt'] = W.altimeter(*e['alt'])
    b = [W.fixed(g), var]
    if gb:
        b += [W.fixed(gb, 1), W.variable(gb, e, m, 1)]
    if 'sl' in order:
        b.append(W.sl_fixed(*sl))
        for k, i in IDS.items():
            parts['sl_' + k] = W.cells(i + 16, e['sl_' + k])
    for k in order:
        if k == 'sl':
            b += [parts['sl_' + q] for q in IDS]
        elif k.startswith('x'):
            b.append(pad[k])
        else:
            b.append(parts[k])
            if gb and k in IDS:
                b.append(W.cells(IDS[k] + 1, e['bb_' + k]))
    return W.ensemble(b + list(nav))


def load(f, nens, udecl=None, ext='000'):
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        fn = os.path.join(d, 'a.' + ext)
        with open(fn, 'wb') as fh:
            fh.write(f)
        if udecl is not None:
            with open(os.path.join(d, 'a.userdata.json'), 'w') as fh:
                json.dump(dict(declination=udecl, site='here'), fh)
        ds = dolfyn.read(fn, nens=nens)
        ds.load()
    meta.names(ds, meta.TRDI)
    return ds


def epoch(t):
    return (t - np.datetime64('1970-01-01T00:00:00', 'ns')) / np.timedelta64(1, 'ns') / 1e9


EPOCH = datetime(1970, 1, 1)


def common(ds, g, es, c, ud=None):
    """Variable leader and main profile of the ensembles es."""
    m = MODELS.get(g['ver'], 'unrecognized firmware version')
    v = g['ver'] + g['rev'] / 100
    t = np.array([(e['t'] - EPOCH).total_seconds() if not e.get('nat') else np.nan for e in es])
    got = epoch(ds.time.values)
    got = np.where(np.isnat(ds.time.values), np.nan, got)
    close(got, t, 0, 2e-5, 'time')

    def col(k):
        return np.array([e[k] for e in es])
    dh = 0 if ud is None else ud - g['magvar'] / 100
    for k, w in dict(number=col('num'), c_sound=col('c'), depth=col('depth') / 10, heading=col('h') / 100 + dh, pitch=col('p') / 100,
                     roll=col('r') / 100, salinity=col('sal'), temp=col('temp') / 100, builtin_test_fail=col('bit') > 0,
                     min_preping_wait=col('mpt') @ [60, 1, .01], heading_std=col('std')[:, 0], pitch_std=col('std')[:, 1] / 10,
                     roll_std=col('std')[:, 2] / 10).items():
        check(ds[k].dims == ('time',), 'dims of {}', k)
        close(ds[k].values.astype(float), w.astype(float), 2e-7, 1e-6 if k != 'heading' else 1e-4, k)
    if m not in ('Broadband', 'Ocean Surveyor') and v >= 8.13:
        close(ds.pressure.values, col('press') / 1000, 2e-7, 1e-6, 'pressure')
        close(ds.pressure_std.values, col('pstd') / 1000, 2e-7, 1e-6, 'pressure_std')
    elif 'pressure' in ds:
        check(m not in ('Broadband', 'Ocean Surveyor') and not ds.pressure.values.any(), 'pressure from an instrument without')
    for k in ('pitch', 'roll', 'heading'):
        check(ds[k].attrs['units'] == 'degree', 'units of {}', k)


def cell_var(ds, key, x, what, dim0='beam', rng='range', scale=None):
    check(key in ds, '{} is missing', key)
    check(ds[key].dims == (dim0, rng, 'time'), 'dims of {}: {}', key, ds[key].dims)
    x = np.moveaxis(np.asarray(x), (0, 1, 2), (2, 1, 0)).astype(float)
    if scale:
        x = np.where(x == -32768, np.nan, x * scale) if key == 'vel' else x * scale
    close(ds[key].values.astype(float), x, 2e-6, 1e-6, key)


FRAMES = ['beam', 'inst', 'ship', 'earth']


def attributes(ds, g, c, ud=None):
    m = MODELS.get(g['ver'], 'unrecognized firmware version')
    v = g['ver'] + g['rev'] / 100
    w = dict(inst_make='TRDI', inst_type='ADCP', inst_model=m, prog_ver=v, coord_sys=FRAMES[c['frame']], has_imu=0,
             orientation='up' if c['up'] else 'down', beam_pattern='convex' if c['convex'] else 'concave',
             freq=[75, 150, 300, 600, 1200, 2400, 38][g['cfg0'] & 7], n_beams=4 + c['b5'], n_cells=g['n_cells'],
             pings_per_ensemble=g['ppe'], cell_size=g['cell'] / 100, blank_dist=g['blank'] / 100, profiling_mode=g['mode'],
             min_corr_threshold=g['mincorr'], n_code_reps=g['ncode'], min_prcnt_gd=g['minpg'], max_error_vel=g['maxerr'] / 1000,
             sec_between_ping_groups=np.dot(g['tpp'], [60, 1, .01]), use_pitchroll=['no', 'yes'][c['bits'] >> 2 & 1],
             use_3beam=['no', 'yes'][c['bits'] >> 1 & 1], bin_mapping=['no', 'yes'][c['bits'] & 1],
             heading_misalign_deg=g['misalign'] / 100, magnetic_var_deg=g['magvar'] / 100, bin1_dist_m=g['bin1'] / 100,
             transmit_pulse_m=g['xmit'] / 100, false_target_threshold=g['ftt'], transmit_lag_m=g['tlag'] / 100,
             sensors_src=format(g['src'], '08b'), sensors_avail=format(g['avail'], '08b'), water_ref_cells=g['wref'], vel_gps_corrected=0)
    w['beam_angle'] = g['theta'] if v >= 16.27 else [15, 20, 30][g['cfg1'] & 3]
    if v >= 8.24:
        w['bandwidth'] = g['bandwidth']
    if v >= 16.05:
        w['power_level'] = g['power']
    if v >= 16.27:
        w['serialnum'] = g['serial']
    if not c.get('nav'):
        w['fs'] = 1 / (np.dot(g['tpp'], [60, 1, .01]) * g['ppe'])
    if ud is not None:
        w['declination'] = ud
        w['site'] = 'here'
    elif g['magvar']:
        w['declination'] = g['magvar'] / 100
    for k, x in w.items():
        got = ds.attrs.get(k)
        ok = got is not None and (abs(got - x) <= 1e-9 * max(1, abs(x)) if isinstance(x, (int, float)) and not isinstance(got, str)
                                  else list(got) == list(x))
        check(ok, 'attribute {}: {!r}, expected {!r}', k, got, x)
    if ud is None and not g['magvar']:
        check('declination' not in ds.attrs, 'declination out of nowhere')
    else:
        check(bool(ds.attrs.get('declination_in_orientmat')), 'declination_in_orientmat')
    return w['beam_angle']


def matrices(ds, es, g, c, theta, ud=None):
    close(ds.beam2inst_orientmat.values, gen.rdi_b2i(theta, c['convex']), 1e-6, 1e-9, 'beam2inst')
    tilt = c['bits'] & 4
    fr = FRAMES[c['frame']]
    if not tilt and fr in ('ship', 'earth'):
        return
    dh = 0 if ud is None else ud - g['magvar'] / 100
    w = []
    for e in es:
        h, p, r = e['h'] / 100 + dh, e['p'] / 100, e['r'] / 100
        w.append(gen.rdi_omat(h, 0, 0, False) if fr == 'ship' else gen.rdi_omat(h, p, r, c['up']))
    close(ds.orientmat.transpose('earth', 'inst', 'time').values, np.moveaxis(w, 0, -1), 1e-5, 2e-6, 'orientmat')


def order_of(c, rng):
    order = ['vel'] + present(c)
    pad = {}
    for i, x in enumerate(c['extra']):
        k = 'x%d' % i
        order.append(k)
        n = ii(rng, 0, 60)
        pad[k] = int(x).to_bytes(2, 'little') + bytes(rng.integers(0, 127, n, dtype=np.uint8))
    rng.shuffle(order)
    return order, pad


def turn(vel, dh):
    """Velocities in earth axes after the north axis has been corrected by dh."""
    a = np.deg2rad(dh)
    v = vel.astype(float).copy()
    v[..., 0] = vel[..., 0] * np.cos(a) + vel[..., 1] * np.sin(a)
    v[..., 1] = -vel[..., 0] * np.sin(a) + vel[..., 1] * np.cos(a)
    return v


@PROP.sub(case_st, quick=500, thorough=9000)
def ensembles(c, ctx):
    rng = rng_of(c['seed'])
    g = config(c, rng)
    n = c['n'] + 1
    es = values(c, g, rng, n)
    ud = c['udecl']
    if ud is not None and FRAMES[c['frame']] == 'earth':
        c = dict(c, nans=False)
        for e in es:
            e['vel'] = np.where(e['vel'] == -32768, 5, e['vel'])
    nsl = ii(rng, 1, c['ncells'] + 1)
    sl = (nsl, ii(rng, 1, 500), ii(rng, 1, 999))
    gb = None
    if c['dual']:
        gb = dict(g, n_cells=ii(rng, 1, 30), cell=ii(rng, 1, 999))
    for e in es:
        for k in IDS:
            if k == 'vel':
                e['sl_vel'] = ii(rng, -32767, 32768, (nsl, 4))
                e['bb_vel'] = ii(rng, -32767, 32768, (gb['n_cells'], 4)) if gb else None
            else:
                e['sl_' + k] = ii(rng, 0, 256, (nsl, 4))
                e['bb_' + k] = ii(rng, 0, 256, (gb['n_cells'], 4)) if gb else None
    order, pad = order_of(c, rng)
    if c['badclock'] and n > 2:
        es[1]['nat'] = True
    raw = [blocks(c, g, e, order, sl, pad, gb) for e in es]
    dmg = c['damage']
    j = ii(rng, 1, n - 1) if n > 2 else None
    must, may = set(range(n - 1)), {n - 1}
    f = b''
    if dmg == 'junk' and j:
        raw[j] = raw[j] + bytes(rng.integers(0, 127, ii(rng, 1, 300), dtype=np.uint8))
        must.discard(j)
        may.add(j)
    elif dmg == 'len' and j:
        x = bytearray(raw[j])
        x[2:4] = int(ii(rng, 0, 2) and ii(rng, 5, 32767) or 32767).to_bytes(2, 'little')
        raw[j] = bytes(x)
        must.discard(j)
    elif dmg == 'id' and j:
        raw[j] = b'\0\0' + raw[j][2:]
        must -= {j, j - 1}
        may.add(j - 1)
    elif dmg == 'cut':
        raw[-1] = raw[-1][:ii(rng, 1, len(raw[-1]))]
        if len(raw[-1]) < 2:
            must.discard(n - 2)
            may.add(n - 2)
        may.discard(n - 1)
    if dmg == 'pre':
        f = b'\x7f\x7f' + bytes(rng.integers(0, 127, ii(rng, 1, 900), dtype=np.uint8))
    f += b''.join(raw)
    if j == 1 and dmg in ('id',) or n < 3 and dmg == 'cut':
        return              # nothing certain is left to read
    nens = c['nens']
    ds = load(f, nens, ud)
    num = [int(x) for x in ds.number.values]
    pos = {e['num']: i for i, e in enumerate(es)}
    for x in num:
        check(x in pos, 'an ensemble {} that is not in the file', x)
    got = [pos[x] for x in num]
    check(got == sorted(set(got)), 'ensembles out of order or repeated: {}', got)
    check(set(got) <= must | may, 'damaged ensembles read: {}', got)
    if nens is None:
        check(must <= set(got), 'ensembles lost: {}', sorted(must - set(got)))
    else:
        check(len(got) <= nens, '{} ensembles read, asked for {}', len(got), nens)
        check(len(got) == nens or must <= set(got), 'only {} of {} ensembles', len(got), nens)
        check(must.isdisjoint(set(range(max(got) + 1)) - set(got)), 'ensembles lost')
    es = [es[i] for i in got]
    ctx.nontrivial(len(es) > 1)
    ctx.label('damage ' + dmg, FRAMES[c['frame']], MODELS.get(g['ver'], 'other'))
    if es[0].get('nat'):
        return
    common(ds, g, es, c, ud)
    vel = np.array([e['vel'] for e in es])
    fr = FRAMES[c['frame']]
    if fr == 'earth' and ud is not None and ud != g['magvar'] / 100:
        vel = turn(vel, ud - g['magvar'] / 100)
        close(ds.vel.transpose('time', 'range', 'dir').values, vel * 1e-3, 1e-4, 2e-4, 'vel')
        check(ds.vel.dims == ('dir', 'range', 'time'), 'dims of vel')
    else:
        cell_var(ds, 'vel', vel, 'vel', 'dir', 'range', 1e-3)
    for k, key in (('corr', 'corr'), ('amp', 'amp'), ('pg', 'prcnt_gd'), ('status', 'status')):
        if k in present(c):
            cell_var(ds, key, [e[k] for e in es], k)
        else:
            check(key not in ds, '{} is not in the file', key)
    if 'bt' in present(c):
        x = ds.dist_bt.transpose('beam', 'time').values
        close(x, np.array([e['bt_range'] for e in es]).T / 100, 2e-7, 1e-4, 'dist_bt')
        w = np.array([e['bt_vel'] for e in es])
        if fr == 'earth' and ud is not None:
            w = turn(w, ud - g['magvar'] / 100)
        close(ds.vel_bt.transpose('dir', 'time').values, w.T / 1000, 2e-6, 2e-4 if ud is not None else 1e-6, 'vel_bt')
        for k, key in (('bt_corr', 'corr_bt'), ('bt_amp', 'amp_bt'), ('bt_pg', 'prcnt_gd_bt')):
            check((ds[key].transpose('beam', 'time').values == np.array([e[k] for e in es]).T).all(), '{}', key)
    else:
        check('vel_bt' not in ds, 'bottom track is not in the file')
    if 'alt' in present(c):
        a = np.array([e['alt'] for e in es])
        close(ds.alt_dist.values, a[:, 2] / 1000, 2e-7, 1e-6, 'alt_dist')
        for i, key in enumerate(['alt_eval', 'alt_rssi', None, 'alt_status']):
            if key:
                check((ds[key].values == a[:, i]).all(), '{}', key)
    rv = ['vel'] + ['vel_sl'] * ('sl' in present(c)) + ['vel_bt'] * ('bt' in present(c))
    check(sorted(ds.rotate_vars) == sorted(rv), 'rotate_vars {}', ds.rotate_vars)
    if 'sl' in present(c):
        for k in IDS:
            x = [e['sl_' + k] for e in es]
            key = dict(pg='prcnt_gd').get(k, k) + '_sl'
            if key == 'vel_sl' and fr == 'earth' and ud is not None:
                close(ds.vel_sl.transpose('time', 'range_sl', 'dir').values, turn(np.array(x), ud - g['magvar'] / 100) / 1000, 1e-4, 2e-4, key)
                continue
            cell_var(ds, key, x, key, 'dir' if k == 'vel' else 'beam', 'range_sl', 1e-3 if k == 'vel' else None)
        close(ds.range_sl.values, sl[2] / 100 + np.arange(nsl) * sl[1] / 100, 1e-6, 1e-6, 'range_sl')
    close(ds.range.values, g['bin1'] / 100 + np.arange(c['ncells']) * g['cell'] / 100, 1e-6, 1e-6, 'range')
    theta = attributes(ds, g, c, ud)
    matrices(ds, es, g, c, theta, ud)
    lab = gen.LABELS['rdi']
    check([str(x) for x in ds['dir'].values] == [str(x) for x in dict(beam=[1, 2, 3, 4], inst=lab['inst'], ship=lab['inst'], earth=lab['earth'])[fr]],
          'labels of dir {}', ds['dir'].values)


nav_st = st.fixed_dictionaries(dict(
    seed=seeds, ver=st.sampled_from([(23, 17), (14, 19), (51, 41), (16, 28), (10, 16), (44, 17)]), ncells=st.integers(1, 12), n=st.integers(2, 7),
    frame=st.sampled_from([0, 3]), bits=st.just(4), up=st.booleans(), convex=st.just(True), b5=st.just(False), magvar=st.just(0),
    types=st.integers(0, 63), extra=st.lists(st.sampled_from(SKIPPED), max_size=1), bigid=st.booleans(), nans=st.booleans(), nav=st.sampled_from(['vmdas', 'winriver2']),
    dup=st.sampled_from([0, .4]), parts=st.integers(1, 15), bad=st.sampled_from([0, 0, 1]), ext=st.sampled_from(['ENX', 'ENR', 'PD0']),
    many=st.sampled_from([1, 1, 1, 2]), old=st.booleans(), other=st.sampled_from([None, None, 108, 204, 207]),
    silent=st.sampled_from([0, 0, .3])))


@PROP.sub(nav_st, quick=250, thorough=6000)
def navigation(c, ctx):
    rng = rng_of(c['seed'])
    g = config(c, rng)
    g['tpp'][2] = max(g['tpp'][2], 1)
    n = c['n'] + 1
    es = values(c, g, rng, n)
    order, pad = order_of(dict(c, types=c['types'] & 63), rng)
    vm = c['nav'] == 'vmdas'
    k0 = ii(rng, 0, 8 * 3600)
    raw = []
    date = es[0]['t'].replace(hour=0, minute=0, second=0, microsecond=0)
    parts = [p for i, p in enumerate(['gga', 'vtg', 'dbt', 'hdt']) if c['parts'] >> i & 1]
    for i, e in enumerate(es):
        same = i and rng.random() < c['dup']
        k0 += 0 if same else ii(rng, 1, 2000)
        if vm:
            q = dict(t=e['t'], date=date, num=e['num'], ms10_first=k0 * 10000, ms10=k0 * 10000 + (0 if same else ii(rng, 0, 9999)), pc_off=ii(rng, -10**6, 10**6),
                     lat=ii(rng, -2**30, 2**30), lon=ii(rng, -2**31, 2**31), speed=ii(rng, 0, 65536), dir=ii(rng, 0, 65536),
                     smg=ii(rng, 0, 65536), dmg=ii(rng, 0, 65536), flags=ii(rng, 0, 32), pitch=ii(rng, 0, 65536), roll=ii(rng, 0, 65536), head=ii(rng, 0, 65536))
            if same:
                q['ms10'] = es[i - 1]['q']['ms10']
            e['tg'] = (date - EPOCH).total_seconds() + (q['ms10'] // 10) / 1000
            nav = [W.vmdas(q)]
        else:
            f32 = lambda x: float(np.float32(x))                     # noqa: E731
            q = dict(hms=(k0 // 3600, k0 % 3600 // 60, k0 % 60 + ii(rng, 0, 100) / 100), lat=rng.uniform(-80, 80), lon=rng.uniform(-180, 180),
                     fix=ii(rng, 0, 9), nsat=ii(rng, 0, 100), hdop=f32(rng.uniform(0, 99)), alt=f32(rng.uniform(-50, 900)), age=f32(rng.uniform(0, 99)),
                     dir=f32(rng.uniform(0, 359)), kn=f32(rng.uniform(0, 40)), dist=f32(rng.uniform(0, 300)), head=rng.uniform(0, 359.9))
            q['gga'] = not same
            # sentences without data are stored as they came
            q['empty'] = {p for p in ('vtg', 'dbt', 'hdt') if c.get('silent') and rng.random() < c['silent']}
            d = e['t'].replace(hour=0, minute=0, second=0, microsecond=0)
            e['tg'] = (d - EPOCH).total_seconds() + q['hms'][0] * 3600 + q['hms'][1] * 60 + q['hms'][2]
            if same:
                e['tg'] = es[i - 1]['tg']
            nav = []
            i0 = 0 if c.get('old') else 100
            oth = ii(rng, 0, len(parts) + 1) if c.get('other') else -1
            for ip, p in enumerate(parts):
                if ip == oth:
                    nav.append(W.nmea(c['other'], b'$GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1*39\r\n'[:ii(rng, 8, 50)]))
                if p == 'gga':
                    for k in range(c['many']):
                        nav.append(W.nmea(i0 + 4, W.gga(q) if q['gga'] else b'$GPGGA,,,,'.ljust(20, b'\0')))
                elif p == 'vtg':
                    nav.append(W.nmea(i0 + 5, W.vtg(q) if p not in q['empty'] else b'$GPVTG,,,,,,,,*7E\r\n\0\0\0'[:ii(rng, 8, 23)]))
                elif p == 'dbt':
                    nav.append(W.nmea(i0 + 6, W.dbt(q) if p not in q['empty'] else b'$SDDBT,,f,,M,,F*28\r\n'[:ii(rng, 8, 21)]))
                else:
                    nav.append(W.nmea(i0 + 7, W.hdt(q) if p not in q['empty'] else b'$GPHDT,,T*1B\r\n'[:ii(rng, 8, 15)]))
                if p in q['empty']:
                    ctx.label('sentence without data')
            if c['bad'] and i and i < n - 1 and rng.random() < .5:
                nav.append(W.nmea(104, b'\xff\xfe\xb0' * 19))
                ctx.label('invalid sentence')
        e['q'] = q
        raw.append(blocks(dict(c), g, e, order, None, pad, None, nav))
    ds = load(b''.join(raw), None, ext=c['ext'])
    num = [int(x) for x in ds.number.values]
    check(num in ([e['num'] for e in es[:-1]], [e['num'] for e in es]), 'ensembles {}', num)
    es = es[:len(num)]
    ctx.nontrivial(len(es) > 1)
    ctx.label(c['nav'], c['ext'])
    common(ds, g, es, c)
    cell_var(ds, 'vel', [e['vel'] for e in es], 'vel', 'dir', 'range', 1e-3)
    attributes(dict_attrs(ds, c['ext']), g, c)
    check(ds.attrs['vel_gps_corrected'] == int(c['ext'] == 'ENX'), 'vel_gps_corrected')
    check(ds.attrs['sourceprog'].lower() == c['nav'], 'sourceprog')

    def q(k, idx=None):
        x = np.array([e['q'][k] for e in es], float)
        return x if idx is None else x[idx]
    if vm or 'gga' in parts:
        tg, idx = np.unique(np.array([e['tg'] for e in es]), return_index=True)
        close(epoch(ds.time_gps.values), tg, 0, 1.1e-3 if vm else 2e-5, 'time_gps')
        close(epoch(ds.hdwtime_gps.values), np.array([(e['t'] - EPOCH).total_seconds() for e in es])[idx], 0, 2e-5, 'hdwtime_gps')
    else:
        idx = np.arange(len(es))
        check('time_gps' not in ds, 'time_gps without GPS')
    if not vm and 'gga' in parts:
        check(all(es[i]['q']['gga'] for i in idx), 'model')
    if vm:
        w = dict(latitude_gps=q('lat', idx) * 180 / 2**31, longitude_gps=q('lon', idx) * 180 / 2**31, clock_offset_UTC_gps=q('pc_off', idx) / 1000,
                 avg_speed_gps=q('speed', idx) / 1000, avg_dir_gps=q('dir', idx) * 180 / 2**15, speed_made_good_gps=q('smg', idx) / 1000,
                 dir_made_good_gps=q('dmg', idx) * 180 / 2**15, heading_gps=q('head', idx) * 180 / 2**15,
                 flags_gps=np.array([int(format(es[i]['q']['flags'], 'b')) for i in idx], float))
        for k in ('pitch', 'roll'):
            x = ds[k + '_gps'].values - q(k, idx) * 180 / 2**15
            check((np.abs((x + 180) % 360 - 180) < 1e-3).all(), '{}_gps', k)
    else:
        w = {}
        if 'gga' in parts:
            w.update(latitude_gps=q('lat', idx), longitude_gps=q('lon', idx), fix_gps=q('fix', idx), n_sat_gps=q('nsat', idx), hdop_gps=q('hdop', idx),
                     elevation_gps=q('alt', idx), rtk_age_gps=q('age', idx))
        if 'vtg' in parts:
            w.update(speed_over_grnd_gps=q('kn', idx) * 1852 / 3600, dir_over_grnd_gps=q('dir', idx))
        if 'hdt' in parts:
            w.update(heading_gps=q('head', idx))
        if 'dbt' in parts:
            full = np.array(['dbt' not in e['q']['empty'] for e in es])
            close(ds.dist_nmea.values[full], q('dist')[full], 2e-7, 1e-6, 'dist_nmea')
            check(ds.dist_nmea.dims == ('time',), 'dims of dist_nmea')
    for k, x in w.items():
        check(ds[k].dims == ('time_gps',), 'dims of {}', k)
        check(ds[k].size == len(idx), '{} values of {} for {} times', ds[k].size, k, len(idx))
        # what a sentence without data leaves behind: finding P28/empty_nmea
        p = dict(heading_gps='hdt', speed_over_grnd_gps='vtg', dir_over_grnd_gps='vtg').get(k)
        full = np.array([vm or p not in es[i]['q']['empty'] for i in idx])
        close(ds[k].values.astype(float)[full], x[full], 2e-4 if 'speed' in k else 2e-7, 2e-5, k)


def dict_attrs(ds, ext):
    """attributes() without the one checked by navigation itself."""
    class A:
        attrs = dict(ds.attrs, vel_gps_corrected=0)
    return A


wr_st = st.fixed_dictionaries(dict(
    seed=seeds, ver=st.sampled_from([(10, 16), (10, 14), (5, 20), (5, 30), (4, 20), (8, 24), (14, 19)]), ncells=st.integers(1, 12), n=st.integers(2, 6),
    frame=st.integers(0, 3), bits=st.integers(0, 7), up=st.booleans(), convex=st.booleans(), b5=st.just(False), magvar=st.just(0),
    types=st.integers(0, 31), bigid=st.booleans(), nans=st.booleans(), nav=st.just('winriver'), extra=st.lists(st.sampled_from(SKIPPED), max_size=1),
    nmea=st.lists(st.tuples(st.integers(8448, 8452), st.text('$GPVTA,.0123456789NMEWKT', min_size=1, max_size=80)), min_size=1, max_size=4)))


@PROP.sub(wr_st, quick=60, thorough=1500)
def winriver(c, ctx):
    """WinRiver: NMEA sentences, and positions within the bottom track."""
    c = dict(c, types=c['types'] | 16)
    rng = rng_of(c['seed'])
    g = config(c, rng)
    n = c['n'] + 1
    es = values(c, g, rng, n)
    order, pad = order_of(c, rng)
    raw = []
    for e in es:
        e.update(lat=ii(rng, -2**30, 2**30), lon=ii(rng, -2**31, 2**31), qual=ii(rng, 0, 3))
        nav = [W.P('<HH', i, len(s) + 2) + s.encode() for i, s in c['nmea']]
        raw.append(blocks(c, g, e, order, None, pad, None, nav))
    ds = load(b''.join(raw), None)
    num = [int(x) for x in ds.number.values]
    check(num in ([e['num'] for e in es[:-1]], [e['num'] for e in es]), 'ensembles {}', num)
    es = es[:len(num)]
    ctx.nontrivial(len(es) > 1)
    common(ds, g, es, c)
    cell_var(ds, 'vel', [e['vel'] for e in es], 'vel', 'dir', 'range', 1e-3)
    attributes(ds, g, c)
    check(ds.attrs['sourceprog'] == 'WINRIVER', 'sourceprog')
    close(ds.dist_bt.transpose('beam', 'time').values, np.array([e['bt_range'] for e in es]).T / 100, 2e-7, 1e-4, 'dist_bt')
    close(ds.vel_bt.transpose('dir', 'time').values, np.array([e['bt_vel'] for e in es]).T / 1000, 2e-6, 1e-6, 'vel_bt')
    for k, key in (('bt_corr', 'corr_bt'), ('bt_amp', 'amp_bt'), ('bt_pg', 'prcnt_gd_bt')):
        check((ds[key].transpose('beam', 'time').values == np.array([e[k] for e in es]).T).all(), '{}', key)
    for k, key in (('lat', 'latitude_gps'), ('lon', 'longitude_gps')):
        w = np.array([e[k] * 180 / 2**31 if e['qual'] else np.nan for e in es])
        got = ds[key].values.astype(float)
        close(got[1:], w[1:], 2e-7, 2e-5, key)      # what the file is, is known from the second ensemble on


many_st = st.fixed_dictionaries(dict(seed=seeds, ver=st.sampled_from([(5, 40), (16, 28), (51, 41), (31, 14)]), ncells=st.integers(1, 4),
                                     n=st.integers(150, 700), frame=st.just(0), bits=st.just(0), up=st.booleans(), convex=st.booleans(), b5=st.just(False),
                                     magvar=st.just(0), types=st.sampled_from([0, 1, 3]), extra=st.just([]), bigid=st.booleans(), nans=st.just(False)))


@PROP.sub(many_st, quick=10, thorough=300)
def many(c, ctx):
    """Long files of small ensembles: nothing is lost."""
    rng = rng_of(c['seed'])
    g = config(c, rng)
    n = c['n'] + 1
    es = values(c, g, rng, n)
    order, pad = order_of(c, rng)
    raw = [blocks(c, g, e, order, None, pad) for e in es]
    ctx.nontrivial()
    ds = load(b''.join(raw), None)
    num = [int(x) for x in ds.number.values]
    check(num in ([e['num'] for e in es[:-1]], [e['num'] for e in es]), '{} ensembles of {}', len(num), n)
    common(ds, g, es[:len(num)], c)
    cell_var(ds, 'vel', [e['vel'] for e in es[:len(num)]], 'vel', 'dir', 'range', 1e-3)


grow_st = st.fixed_dictionaries(dict(seed=seeds, ver=st.sampled_from([(10, 16), (51, 41), (56, 0)]), ncells=st.integers(1, 6),
                                     steps=st.lists(st.integers(0, 4), min_size=1, max_size=6), tail=st.sampled_from([0, 0, 150]), frame=st.just(3), bits=st.just(4), up=st.booleans(),
                                     convex=st.booleans(), b5=st.just(False), magvar=st.just(0), types=st.sampled_from([0, 1, 3, 31]), extra=st.just([]),
                                     bigid=st.just(False), nans=st.booleans()))


@PROP.sub(grow_st, quick=120, thorough=3000)
def growing(c, ctx):
    """Transects: the number of cells grows from ensemble to ensemble."""
    rng = rng_of(c['seed'])
    nc, es, raw, order = c['ncells'], [], [], None
    g = config(c, rng)
    order, pad = order_of(c, rng)
    for s in list(c['steps']) + [0]:
        nc += s
        gg = dict(g, n_cells=nc)
        e = values(dict(c, ncells=nc), gg, rng_of(c['seed'], len(es)), 1)[0]
        e['t'] = datetime(2020, 1, 1) + timedelta(seconds=len(es))
        e['num'] = len(es) + 1
        es.append(e)
        raw.append(blocks(c, gg, e, order, None, pad))
    for k in range(c['tail']):      # then many shallow ones
        e = values(dict(c, ncells=1), g, rng_of(c['seed'], 99, k), 1)[0]
        e['t'] = datetime(2020, 1, 1) + timedelta(seconds=len(es))
        e['num'] = len(es) + 1
        es.append(e)
        raw.append(blocks(c, dict(g, n_cells=1), e, order, None, pad))
    raw.append(raw[-1])
    ctx.nontrivial(sum(c['steps']) > 0)
    ds = load(b''.join(raw), None)
    n = ds.time.size
    check(n >= len(es), 'ensembles')
    check([int(x) for x in ds.number.values[:len(es)]] == [e['num'] for e in es], 'ensembles')
    check(ds.range.size == nc, 'cells')
    close(ds.range.values, g['bin1'] / 100 + np.arange(nc) * g['cell'] / 100, 1e-6, 1e-6, 'range')
    for i, e in enumerate(es):
        k = len(e['vel'])
        w = np.where(e['vel'] == -32768, np.nan, e['vel'] * 1e-3).T
        close(ds.vel.values[:, :k, i], w, 2e-6, 1e-6, 'vel')
        check(i > len(c['steps']) or np.isnan(ds.vel.values[:, k:, i]).all(), 'velocities below the profile')
        for q in ('corr', 'amp', 'pg', 'status'):
            if q in present(c):
                check((ds[dict(pg='prcnt_gd').get(q, q)].values[:, :k, i] == e[q].T).all(), '{}', q)


def _simple(n=4, nc=3, **k):
    c = dict(seed=1, ver=(51, 41), ncells=nc, frame=1, bits=0, up=False, convex=True, b5=False, magvar=0, types=0, bigid=False, nans=False)
    c.update(k)
    rng = rng_of(1)
    g = config(c, rng)
    return c, g, values(c, g, rng, n)


@PROP.finding('last_ensemble')
def last_demo():
    c, g, es = _simple()
    ds = load(b''.join(blocks(c, g, e, ['vel'], None, {}) for e in es), None)
    check(ds.time.size == 4, 'the last ensemble of a file, complete and with a right checksum, is missing ({} of 4)', ds.time.size)


@PROP.finding('bt_bad_velocity')
def bt_demo():
    c, g, es = _simple()
    es[1]['bt_vel'] = np.array([-32768] * 4)
    ds = load(b''.join(blocks(c, g, e, ['vel', 'bt'], None, {}) for e in es), None)
    check(np.isnan(ds.vel_bt.values[:, 1]).all(), 'invalid bottom-track velocities are read as -32.768 m/s')


@PROP.finding('stale_cells')
def stale_demo():
    c, g, es = _simple()
    es[1]['vel'] = es[1]['vel'][:2]
    ds = load(b''.join(blocks(c, dict(g, n_cells=len(e['vel'])), e, ['vel'], None, {}) for e in es), None)
    check(np.isnan(ds.vel.values[:, 2, 1]).all(), 'cells beyond the end of a shorter profile keep the values of the previous ensemble')


@PROP.finding('empty_nmea')
def empty_demo():
    c, g, es = _simple()
    raw = b''
    for i, e in enumerate(es):
        q = dict(hms=(1, 2, float(i)), lat=40., lon=-70., fix=1, nsat=8, hdop=1., alt=3., age=0., dist=12.5)
        raw += b''.join([blocks(c, g, e, ['vel'], None, {}, None,
                                [W.nmea(104, W.gga(q) if i else b'$GPGGA,,,,'.ljust(20, b'\0')), W.nmea(106, W.dbt(q) if i != 1 else b'$SDDBT,,f,,M,,F*28\r\n')])])
    ds = load(raw, None, ext='PD0')
    check(epoch(ds.time_gps.values)[0] > 1e9 and np.isnan(ds.dist_nmea.values[1]),
          'a sentence without data is read as the value before it, or 0 at the start of the file (time_gps {}, dist_nmea {})', ds.time_gps.values[0], ds.dist_nmea.values)


@PROP.finding('vmdas_fs')
def fs_demo():
    c, g, es = _simple()
    g['tpp'] = [0, 0, 0]
    for i, e in enumerate(es):
        e['t'] = datetime(2020, 1, 1, 0, 0, 2 * i)
    q = dict(date=datetime(2020, 1, 1), ms10_first=0, pc_off=0, lat=1, lon=1, speed=0, dir=0, smg=0, dmg=0, flags=0, pitch=0, roll=0, head=0)
    ds = load(b''.join(blocks(c, g, e, ['vel'], None, {}, None, [W.vmdas(dict(q, t=e['t'], num=e['num'], ms10=e['num']))]) for e in es), None)
    check(abs(ds.fs - .5) < 1e-6, 'fs of a VMDAS file is {}, not 0.5', ds.fs)


@PROP.finding('os_beam_angle')
def os_demo():
    import shutil
    from vlib import boot
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        shutil.copy(os.path.join(boot.REPO, 'dolfyn', 'example_data', 'vmdas02_os.ENR'), d)
        ds = dolfyn.read(os.path.join(d, 'vmdas02_os.ENR'), nens=3)
    check(ds.beam_angle == 30 and np.isfinite(ds.beam2inst_orientmat.values).all(), 'Ocean Surveyor: beam angle {}', ds.beam_angle)

# ------------------------------------------------------- records of usual length
PROP.sub(over(case_st, n=st.sampled_from([60, 150, 400]), ncells=st.sampled_from([3, 30, 60])), quick=12, thorough=300, name='ensembles_long')(ensembles)
PROP.sub(over(case_st, ncells=st.sampled_from([64, 100, 128, 200, 255])), quick=25, thorough=500, name='ensembles_deep')(ensembles)
PROP.sub(over(nav_st, n=st.sampled_from([60, 150])), quick=8, thorough=200, name='navigation_long')(navigation)
PROP.sub(over(case_st, n=st.sampled_from([500, 900]), ncells=st.sampled_from([128, 255]), types=st.sampled_from([7, 127])), quick=20, thorough=200, shards=4, name='ensembles_megabytes')(ensembles)
