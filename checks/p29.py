"""P29 reading Nortek Signature (AD2CP) files."""
from vlib.core import Prop, check, close, quiet, scratch
from vlib import meta, gen, ad2cp_w as W
from vlib.gen import seeds, rng_of, over
from datetime import datetime, timedelta
import os
import json
import logging
import numpy as np
from hypothesis import strategies as st
import dolfyn

logging.disable(logging.CRITICAL)

PROP = Prop('P29', 'at least two ensembles with velocities that differ between them')

BITS = dict(press_valid=0, temp_valid=1, compass_valid=2, tilt_valid=3, vel=5, amp=6, corr=7, le=8, altraw=9, ast=10, echo=11, ahrs=12, p_gd=13, std=14)
CY = ['ENU', 'XYZ', 'beam']
TAG = {21: '', 22: '_avg', 23: '_bt', 24: '_b5', 26: '_altraw', 28: '_echo', 31: '_altraw_avg'}
RAW = {21: 26, 22: 31}
AUTO = [(0, 'fixed'), (1, 'auto_UD'), (3, 'AHRS-3D')]
WAKE = ['bad power', 'power on', 'break', 'clock']

case_st = st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(2, 9), ncells=st.integers(1, 6), cy=st.integers(0, 2), theta=st.sampled_from([25, 20]),
    ids=st.lists(st.sampled_from([23, 24, 28]), unique=True), amp=st.booleans(), corr=st.booleans(), le=st.booleans(), ast=st.booleans(),
    ahrs=st.sampled_from([False, False, True]), std=st.booleans(), orient=st.sampled_from([4, 5, 7]), up=st.booleans(),
    vscale=st.sampled_from([-3, -3, -4, -2]), vscale5=st.sampled_from([-3, -4]), strings=st.booleans(), unknown=st.booleans(),
    altraw=st.sampled_from([0, 0, 0, 1, 2, 3]), rare=st.sampled_from([0, 0, 0, 3]), skip=st.sampled_from([0, 0, 0, 1, 2, 3]),
    bad=st.sampled_from([0, 0, 0, 1, 2]), cut=st.sampled_from([0, 0, 0, 1, 2, 3, 99, 10**6]), udecl=st.sampled_from([None, None, 15.5]),
    cold=st.booleans(), ens0=st.sampled_from([1, 1, 77, 10**6]), bursts=st.sampled_from([0, 0, 0, 1, 2, 5]), what=st.sampled_from(['all', 'all', 'int', 'tuple', 'many']),
    k=st.integers(1, 10**6), k0=st.integers(0, 10**6), debug=st.sampled_from([False] * 9 + [True])))


def ii(rng, lo, hi, *a):
    x = rng.integers(lo, hi, *a)
    return int(x) if not a else x


def config(rng, rid, c):
    names = ['vel'] + [x for x in ('amp', 'corr') if c[x]]
    nb, nc, cy = 4, c['ncells'], c['cy']
    if rid == 21 or rid == 22:
        names += [x for x in ('le', 'ast', 'std') if c[x]]
    elif rid == 23:
        names, nc = ['vel', 'dist', 'fom'], 0
    elif rid == 24:
        nb, nc, cy = 1, ii(rng, 1, 7), 2
    elif rid == 28:
        names, nb, nc, cy = ['echo'], 0, ii(rng, 1, 9), 0
    elif rid in (26, 31):
        names, nb, nc, cy = ['le', 'ast', 'altraw'], 1, 0, 2
    if c['ahrs'] and rid in (21, 22, 24, 28, 23):
        names.append('ahrs')
    g = dict(names=names, nb=nb, nc=nc, cy=cy, config=W.bits(names, rid == 23, c['seed'] >> 9 & 15), beams_cy=nc if rid == 28 else nc | cy << 10 | nb << 12,
             serial=100432, cell=ii(rng, 20, 5000), blank=ii(rng, 10, 900), nomcorr=ii(rng, 0, 101), ambig=ii(rng, 0, 9999),
             vscale=c['vscale5'] if rid == 24 else c['vscale'], power=ii(rng, -20, 1))
    return g


def sample(rng, g, c, rid, prev=None):
    """Raw values of one record."""
    lim = 32767
    k = c['seed']
    e = dict(c=ii(rng, 14000, 15600), temp=ii(rng, -300 if c['cold'] else 1, 3500), press=ii(rng, 0, 2**31), h=ii(rng, 0, 36000), p=ii(rng, -8999, 9000),
             r=ii(rng, -17999, 18000), tpress=ii(rng, 0, 256), batt=ii(rng, 90, 300), mag=ii(rng, -lim, lim, 3), acc=ii(rng, -lim, lim, 3),
             xmit=ii(rng, 0, 65536), tclock=ii(rng, -500, 5000), error=ii(rng, 0, 65536), status0=k >> 4 & 7 | (0x8000 if c['up'] else 0),
             status=2 | c['orient'] << 25 | AUTO[k % 3][0] << 22 | (k >> 3 & 3) << 28 | ii(rng, 0, 4) << 10 | ii(rng, 0, 4) << 16)
    if rid == 23:
        e.update(vel=ii(rng, -10**7, 10**7, 4), dist=ii(rng, 0, 10**6, 4), fom=ii(rng, 0, 65536, 4))
    elif rid == 28:
        e['echo'] = ii(rng, 0, 65536, g['nc'])
    elif rid in (26, 31):
        e['samp'] = ii(rng, -lim, lim, c['seed'] % 7 + 2)
        e['dsamp'] = 96
    else:
        e['vel'] = ii(rng, -lim, lim + 1, (g['nb'], g['nc']))
        e['amp'], e['corr'] = ii(rng, 0, 256, (g['nb'], g['nc'])), ii(rng, 0, 101, (g['nb'], g['nc']))
    e.update(le_d=float(np.float32(rng.uniform(0, 99))), le_q=ii(rng, 0, 65536), alt_st=k & 3 | (k >> 5 & 1) << 2 | 1 << 3 | (k >> 6 & 3) << 7, ast_d=float(np.float32(rng.uniform(0, 99))),
             ast_q=ii(rng, 0, 65536), ast_t=ii(rng, -999, 999), ast_p=float(np.float32(rng.uniform(0, 99))), std=ii(rng, 0, 9999, 4))
    q = rng.normal(size=4)
    e.update(quat=q / np.linalg.norm(q), rot=gen.Rz(rng.uniform(0, 6)) @ gen.Ry(rng.uniform(-1, 1)) @ gen.Rx(rng.uniform(-3, 3)), gyro=rng.normal(0, 90, 3))
    return e


def window(c, n):
    w = c['what']
    if w == 'int':
        k = c['k'] % n + 1
        return k, 0, k
    if w == 'tuple':
        a = c['k0'] % n
        b = a + 1 + c['k'] % (n - a)
        return [(a, b), [a, b]][c['seed'] % 2], a, b
    if w == 'many':
        return n + 1 + c['k'] % 50, 0, n
    return None, 0, n


def load(f, nens=None, udecl=None, **k):
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        fn = os.path.join(d, 'a.ad2cp')
        with open(fn, 'wb') as fh:
            fh.write(f)
        if udecl is not None:
            with open(os.path.join(d, 'a.userdata.json'), 'w') as fh:
                json.dump(dict(declination=udecl, site='here'), fh)
        ds = dolfyn.read(fn, nens=nens, **k)
        for x in ds if isinstance(ds, tuple) else [ds]:
            x.load()
            meta.names(x, meta.SIG)
    return ds


def epoch(t):
    return np.where(np.isnat(t), np.nan, (t - np.datetime64('1970-01-01T00:00:00', 'ns')) / np.timedelta64(1, 'ns') / 1e9)


EPOCH = datetime(1970, 1, 1)
G = 9.81


def number(c, k):
    """The number of ensemble k, as the instrument counts them: on from the first one, or starting again with each burst."""
    b = c.get('bursts')
    return k % b + 1 if b and (c['ens0'] == 1 or k >= b) else c['ens0'] + k


def build(c, rng, main=21):
    n = c['n']
    if c['altraw']:
        c['le'] = True          # raw altimeter records come with altimeter data
    ids = [main] + sorted(c['ids'])
    fs = [1, 2, 4, 8, 16][ii(rng, 0, 5)]
    avg = None
    if main == 22:
        avg = dict(MIAVG=[1, 60, 600][ii(rng, 0, 3)], AI=ii(rng, 1, 600), BW='BROAD')
        fs = 1 / avg['MIAVG']
    mat = np.round(gen.sig_b2i(c['theta']) + rng.normal(0, .01, (4, 4)), 4)
    raw = RAW[main]
    cfg = {i: config(rng, i, c) for i in ids + [raw]}
    f = W.header(sr=fs, mat=mat, theta=c['theta'], avg=avg)
    t0 = datetime(2014, 1, 1) + timedelta(seconds=ii(rng, 0, 20 * 365 * 86400), microseconds=100 * ii(rng, 0, 10000))
    es = {i: [] for i in ids + [raw]}
    pos, blocks, last = [], [], []
    skip = ()
    # (two records in a row with the same number are taken as the same ensemble: the counter alone cannot tell)
    if c['skip'] and n > 2 + c['skip'] and len(ids) > 1 and not (c.get('bursts') and (c['skip'] + 1) % c['bursts'] == 0):
        q = ii(rng, 1, n - c['skip'])
        skip = range(q, q + c['skip'])
    for k in range(n):
        pos.append(len(f))
        blk = 0
        for j, i in enumerate(ids):
            e = sample(rng, cfg[i], c, i)
            e['t'] = t0 + timedelta(microseconds=int(round(1e4 * k / fs)) * 100 + j * 1000)
            e['ens'] = number(c, k)
            if c['bad'] and 0 < k < n - 1 and k % 3 == 1:
                e['badtime' if c['bad'] == 1 else 'notime'] = True
            if k in skip and i == ids[-1]:
                es[i].append(None)
                continue
            es[i].append(e)
            last.append(len(f))
            f += W.data(i, cfg[i], e, cfg[i]['names'])
        if c['altraw'] and k % c['altraw'] == 0:
            e = sample(rng, cfg[raw], c, raw)
            e['t'] = t0 + timedelta(microseconds=int(round(1e4 * k / fs)) * 100 + 9000)
            e['ens'] = number(c, k)
            e['k'] = k
            es[raw].append(e)
            last.append(len(f))
            f += W.data(raw, cfg[raw], e, cfg[raw]['names'])
        if c['unknown'] and rng.random() < .4:
            f += W.rec(0x2b, bytes(ii(rng, 0, 256, 2 * (20000 if rng.random() < .15 else ii(rng, 1, 40))).tolist()))
        if c['rare'] and k % c['rare'] == c['rare'] - 1:
            e = sample(rng, cfg[main], c, main)
            e.update(t=t0, ens=number(c, k))
            f += W.rec(30, W.data(main, cfg[main], e, cfg[main]['names'])[10:])
        if c['strings'] and rng.random() < .3:
            f += W.string('GETXX,' + 'y' * ii(rng, 1, 50), 17)
    pos.append(len(f))
    return dict(f=f, ids=ids, fs=fs, mat=mat, cfg=cfg, es=es, pos=pos, last=last, avg=avg)


def ang(x):
    return (np.asarray(x, float) + 180) % 360 - 180


def angclose(got, want, what, tol=2e-3):
    d = np.abs(ang(np.asarray(got, float) - want))
    check((d < tol).all(), '{} off by {} deg', what, d.max(initial=0))


@PROP.sub(case_st, quick=250, thorough=6000)
def burst(c, ctx):
    one(c, ctx, 21)


@PROP.sub(case_st, quick=60, thorough=1500)
def average(c, ctx):
    one(dict(c, ids=[i for i in c['ids'] if i == 23]), ctx, 22)


def one(c, ctx, main):
    rng = rng_of(c['seed'])
    if c['cy'] == 0:
        c = dict(c, udecl=None)
    r = build(c, rng, main)
    n, f, ids = c['n'], r['f'], r['ids']
    sizes = np.diff(r['pos'])
    if c['cut']:
        a = r['last'][-1]
        z = a + 10 + int.from_bytes(f[a + 4:a + 6], 'little')
        f = f[:z - min(c['cut'], z - a - 1)]
        n -= 1
    uniform = len(set(sizes)) == 1
    ok = {n}
    if not uniform and not c['cut'] or c['cut'] and r['last'][-1] == r['pos'][-2]:
        ok.add(n - 1)           # known finding last_ensemble
    nens, lo, hi = window(c, n)
    if lo >= min(ok):
        return                  # nothing but an ensemble which may be dropped
    if any(2 * sum(q is None for q in r['es'][i][lo:min(hi, min(ok))]) >= min(hi, min(ok)) - lo for i in ids):
        return                  # the settings read from the file are those of most pings
    if any(all(q is None or q.get('badtime') or q.get('notime') for q in r['es'][i][lo:min(hi, min(ok))]) for i in ids):
        return                  # no clock to go by
    ds = load(f, nens, c['udecl'], **(dict(debug=True) if c['debug'] else {}))
    m = ds.time.size
    if hi == n and m == n - 1 - lo and n - 1 in ok:
        hi = n - 1
    check(m == hi - lo, '{} ensembles read, expected {} (nens={}, {} in the file)', m, hi - lo, nens, n)
    ctx.nontrivial(m > 1)
    ctx.label('%s ids' % len(ids), CY[c['cy']], 'altraw %d' % c['altraw'], 'window ' + c['what'])
    if m == 0:
        return
    verify(ds, r, c, lo, hi, main)


def verify(ds, r, c, lo, hi, main=21):
    ids, cfg, fs = r['ids'], r['cfg'], r['fs']
    sl = slice(lo, hi)
    cy = CY[c['cy']]
    b5 = 24 in ids
    dh = c['udecl'] or 0
    for i in ids:
        tg = TAG[i]
        e = [x for x in r['es'][i][sl]]
        have = np.array([x is not None for x in e])
        good = np.array([x is not None and not x.get('badtime') and not x.get('notime') for x in e])
        x = [q for q in e if q is not None]
        g = cfg[i]
        got = epoch(ds['time' + tg].values)
        w = np.array([(q['t'] - EPOCH).total_seconds() if ok else np.nan for q, ok in zip(e, good)])
        close(got[good], w[good], 0, 2e-5, 'time' + tg)
        if good.sum() > 1 and not (~have).any():
            k = np.arange(len(e))
            step = k[~good & (k > k[good][0]) & (k < k[good][-1])]
            close(got[step], np.interp(step, k[good], w[good]), 0, 1e-4, 'time%s between' % tg)
            g0, g1 = k[good][[0, -1]]
            close(got[:g0], w[g0] - (g0 - k[:g0]) / ds.fs, 0, 1e-4, 'time%s before the first good clock' % tg)
            close(got[g1 + 1:], w[g1] + (k[g1 + 1:] - g1) / ds.fs, 0, 1e-4, 'time%s after the last good clock' % tg)

        def col(k):
            return np.array([q[k] for q in x], float)

        def var(key, want, tol=2e-6, dims=None, atol=1e-6):
            check(key in ds, '{} is missing', key)
            d = ds[key]
            if dims:
                check(d.dims == dims, 'dims of {}: {}', key, d.dims)
            close(d.values[..., have].astype(float), np.asarray(want, float), tol, atol, key)
        tim = ('time' + tg,)
        if not (b5 and i in (21, 24)):
            for k, s in dict(c_sound=('c', .1), temp=('temp', .01), pressure=('press', .001), temp_clock=('tclock', .01), batt=('batt', .1)).items():
                var(k + tg, col(s[0]) * s[1], dims=tim)
            if i != 23:
                var('temp_press' + tg, (col('tpress') - 20) * .2, dims=tim)
            for k, q in dict(heading='h', pitch='p', roll='r').items():
                angclose(ds[k + tg].values[have], col(q) / 100 + (dh if k == 'heading' and tg == '' else 0), k + tg)
        elif i == 21 and all(q is not None for q in r['es'][24][sl]):
            y = [q for q in r['es'][24][sl]]
            for k, s in dict(c_sound=('c', .1, 0), temp=('temp', .01, 0), pressure=('press', .001, 0), temp_clock=('tclock', .01, 0), batt=('batt', .1, 0),
                             temp_press=('tpress', .2, -4)).items():
                z = np.array([q[s[0]] for q in y], float)
                var(k, (col(s[0]) + z) / 2 * s[1] + s[2], dims=tim)
                check(k + '_b5' not in ds, '{} should have been merged', k)
            for k, q in dict(heading='h', pitch='p', roll='r').items():
                a, b = np.deg2rad(col(q) / 100), np.deg2rad([z[q] / 100 for z in y])
                v = np.exp(1j * a) + np.exp(1j * b)
                far = np.abs(v) > .05
                angclose(ds[k].values[have][far], np.rad2deg(np.angle(v))[far] + (dh if k == 'heading' else 0), k, .05)
        if i != 23:
            var('mag' + tg, col('mag').T * .1, dims=('dirIMU',) + tim)
        var('accel' + tg, col('acc').T / 16384 * G, dims=('dirIMU',) + tim)
        var('error' + tg, col('error'))
        var('status' + tg, col('status'))
        check((ds['ensemble' + tg].values == np.arange(lo, hi) + 1).all(), 'ensemble' + tg)
        s = 10. ** g['vscale']
        rg = 'range' + tg
        if i in (21, 22):
            var('vel' + tg, np.moveaxis(col('vel'), 0, -1) * s, 2e-6, ('dir', rg) + tim)
            for k, sc in (('amp', .5), ('corr', 1)):
                if c[k]:
                    var(k + tg, np.moveaxis(col(k), 0, -1) * sc, 1e-6, ('beam', rg) + tim)
                else:
                    check(k + tg not in ds, '{} is not in the file', k)
            if c['le']:
                var('le_dist_alt' + tg, col('le_d'), dims=tim)
                var('le_quality_alt' + tg, col('le_q') * .01, dims=tim)
            if c['ast']:
                var('ast_dist_alt' + tg, col('ast_d'), dims=tim)
                var('ast_quality_alt' + tg, col('ast_q') * .01, dims=tim)
                var('ast_offset_time_alt' + tg, col('ast_t') * 1e-4, dims=tim)
                var('pressure_alt' + tg, col('ast_p'), dims=tim)
            if c['std']:
                for k, (key, sc) in enumerate([('pitch_std', .01), ('roll_std', .01), ('heading_std', .01), ('press_std', .1)]):
                    var(key + tg, col('std')[:, k] * sc, dims=tim)
        elif i == 24:
            var('vel_b5', col('vel')[:, 0].T * s, 2e-6, ('range_b5', 'time_b5'))
            for k, sc in (('amp', .5), ('corr', 1)):
                if c[k]:
                    var(k + '_b5', col(k)[:, 0].T * sc, 1e-6, ('range_b5', 'time_b5'))
        elif i == 23:
            var('vel_bt', col('vel').T * s, 2e-6, ('dir', 'time_bt'))
            var('dist_bt', col('dist').T / 1000, 1e-6, ('beam', 'time_bt'))
            var('fom_bt', col('fom').T)
        elif i == 28:
            var('echo', col('echo').T * .01, 1e-6, ('range_echo', 'time_echo'))
        if i != 23:
            check(ds[rg].size == g['nc'], 'cells of {}', rg)
            close(ds[rg].values, (np.arange(g['nc']) + 1) * g['cell'] * 1e-3 + g['blank'] * (1e-3 if i == 28 else 1e-2), 1e-6, 1e-6, rg)
            check(ds[rg].attrs['units'] == 'm', 'units of range')
        if c['ahrs']:
            var('angrt' + tg, np.deg2rad(col('gyro')).T, dims=('dirIMU',) + tim)
            var('quaternions' + tg, col('quat').T, dims=('q',) + tim)
            if i == main:
                om = col('rot').transpose(0, 2, 1) @ gen.Rz(-np.deg2rad(c['udecl'] or 0)).T
                close(ds.orientmat.transpose('earth', 'inst', 'time').values[..., have], np.moveaxis(om, 0, -1), 1e-5, 2e-6, 'orientmat')
        for k, v in dict(n_cells=g['nc'], SerialNum=g['serial'], cell_size=g['cell'] * 1e-3, blank_dist=g['blank'] * (1e-3 if i == 28 else 1e-2),
                         nominal_corr=g['nomcorr'], power_level_dB=g['power'], ambig_vel=g['ambig'] * 1e-3, n_beams=g['nb']).items():
            if i == 28 and k in ('n_beams',):
                continue
            if not have.all():
                continue
            check(abs(float(ds.attrs[k + tg]) - v) < 1e-5 * max(1, abs(v)), 'attribute {}: {!r}, expected {!r}', k + tg, ds.attrs.get(k + tg), v)
    # metadata
    w = dict(inst_make='Nortek', inst_model='Signature1000', inst_type='ADCP', coord_sys=dict(ENU='earth', XYZ='inst', beam='beam')[cy],
             beam_angle=c['theta'], has_imu=int(c['ahrs']), orientation={4: 'up', 5: 'down', 7: 'AHRS'}[c['orient']], 
             orient_status=AUTO[c['seed'] % 3][1], wakeup_state=WAKE[c['seed'] >> 3 & 3])
    for k, p in enumerate((3, 6, 12)):
        p = 'proc_idle_less_%dpct' % p
        if c['up']:
            w[p] = c['seed'] >> 4 + k & 1
        else:
            check(p not in ds.attrs, '{} although status 0 is not in use', p)
    e = r['es'][main][sl]
    have = [q is not None for q in e]
    st = np.array([q['status'] for q in e if q is not None])
    for k, b in dict(boost_running=10, telemetry_data=11, active_config=16, low_volt_skip=17).items():
        check((ds[k].values[have] == st >> b & 1).all(), '{}, expected bit {} of the status', k, b)
    h = json.loads(ds.attrs['filehead_config'])
    check(h['ID'] == 'STR="Signature1000",SN=100432' and h['BURST'] == dict(NC=3, SR=h['BURST']['SR'], CY='"ENU"'), 'filehead_config {}', h)
    check(h['XFBURST'] == dict(ROWS=4, COLS=4, **{'M%d%d' % (a + 1, b + 1): r['mat'][a, b] for a in range(4) for b in range(4)}), 'XFBURST {}', h['XFBURST'])
    check([x.split(',')[0] for x in h['BEAMCFGLIST']] == ['BEAM=%d' % x for x in (1, 2, 3, 4)], 'BEAMCFGLIST {}', h['BEAMCFGLIST'])
    for i in ids:
        if i != 23 and 2 * sum(q is not None for q in r['es'][i][sl]) > hi - lo:        # finding bt_config
            h = json.loads(ds.attrs['burst_config' + TAG[i]])
            for k, b in BITS.items():
                check(h[k] is bool(cfg[i]['config'] >> b & 1), 'burst_config{}: {} is {}', TAG[i], k, h[k])
    if c['udecl'] is not None:
        w.update(declination=c['udecl'], site='here')
    for k, v in w.items():
        check(k in ds.attrs and ds.attrs[k] == v, 'attribute {}: {!r}, expected {!r}', k, ds.attrs.get(k), v)
    if main == 22:
        w.update(avg_interval_sec=r['avg']['AI'])
        check(ds.fs in (fs, r['avg']['MIAVG']), 'fs {}', ds.fs)         # finding avg_fs
    else:
        check(ds.fs == fs, 'fs {}, expected {}', ds.fs, fs)
    rv = ['vel' + TAG[main]] + ['%s%s' % (a, TAG[i]) for i in ids for a in ['accel', 'mag'] + ['angrt'] * c['ahrs']] + ['vel_bt'] * (23 in ids)
    check(sorted(ds.rotate_vars) == sorted(rv), 'rotate_vars {}', ds.rotate_vars)
    close(ds.beam2inst_orientmat.values, r['mat'], 1e-6, 1e-6, 'beam2inst')
    if not c['ahrs']:
        t = TAG[main]
        om = np.array([gen.nortek_omat(a, b, q) for a, b, q in zip(ds['heading' + t].values + (dh if t else 0), ds['pitch' + t].values, ds['roll' + t].values)])
        close(ds.orientmat.transpose('earth', 'inst', 'time').values, np.moveaxis(om, 0, -1), 1e-5, 2e-5, 'orientmat')
    if c['altraw']:
        e = [q for q in r['es'][RAW[main]] if lo <= q['k'] < hi]
        t = TAG[RAW[main]]
        if e:
            close(ds['samp' + t].values % 256, np.array([q['samp'] for q in e]).T / 256. % 256, 1e-6, 1e-6, 'samp_altraw')    # finding altraw_sign
            for k, q in dict(le_dist='le_d', ast_dist='ast_d').items():
                close(ds[k + t].values, [float(z[q]) for z in e], 1e-6, 1e-6, k + t)
            close(epoch(ds['time' + t].values), [(q['t'] - EPOCH).total_seconds() for q in e], 0, 2e-5, 'time_altraw')
            t, k = TAG[main], c['seed']
            for a, v in dict(tilt_over_5deg=k & 1, tilt_over_10deg=k >> 1 & 1, multibeam_alt=k >> 5 & 1, n_beams_alt=1,
                             power_level_alt=['high', 'med-high', 'med-low', 'low'][k >> 6 & 3]).items():
                check(ds.attrs[a + t] == v, 'attribute {}: {!r}, expected {!r}', a + t, ds.attrs[a + t], v)



dual_st = st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(3, 14), every=st.integers(1, 5), phase=st.integers(0, 4), ncells=st.integers(1, 5), cy=st.integers(0, 2),
    theta=st.sampled_from([25, 20]), b5=st.booleans(), bt=st.booleans(), amp=st.just(True), corr=st.booleans(), ahrs=st.booleans(), strings=st.booleans(),
    orient=st.sampled_from([4, 5, 7]), up=st.booleans(), vscale=st.sampled_from([-3, -4]), cold=st.booleans(),
    cut=st.sampled_from([0, 0, 1, 20]), udecl=st.sampled_from([None, None, 15.5]), ens0=st.sampled_from([1, 50]), flag=st.booleans()))


@PROP.sub(dual_st, quick=60, thorough=1500)
def dual(c, ctx):
    """Burst and averaged profiles in one file: two datasets."""
    rng = rng_of(c['seed'])
    c = dict(c, ids=[], le=False, ast=False, std=False, vscale5=-3)
    ids = [21] + [24] * c['b5'] + [23] * c['bt']
    mat = np.round(gen.sig_b2i(c['theta']) + rng.normal(0, .01, (4, 4)), 4)
    avg = dict(MIAVG=60, AI=30, BW='BROAD')
    f = W.header(sr=1, mat=mat, theta=c['theta'], avg=avg)
    cfg = {i: config(rng, i, c) for i in ids + [22]}
    cfg[22] = dict(config(rng, 22, dict(c, ncells=ii(rng, 1, 6), vscale=-3)))
    t0 = datetime(2020, 1, 1) + timedelta(seconds=ii(rng, 0, 10**8))
    es = {i: [] for i in ids + [22]}

    def put(f, i, t, ens):
        e = sample(rng, cfg[i], c, i)
        e.update(t=t, ens=ens)
        es[i].append(e)
        return f + W.data(i, cfg[i], e, cfg[i]['names'])
    for k in range(c['n']):
        for i in ids:
            f, a, last = put(f, i, t0 + timedelta(seconds=k), k + c['ens0']), len(f), i
        if k % c['every'] == c['phase'] % c['every']:
            f, a, last = put(f, 22, t0 + timedelta(seconds=k, milliseconds=500), len(es[22]) + 1), len(f), 22
            if c['strings'] and rng.random() < .3:
                f += W.string('GETXX,' + 'y' * ii(rng, 1, 50), 17)
    if c['cut']:
        f = f[:a + 10 + int.from_bytes(f[a + 4:a + 6], 'little') - c['cut']]
        es[last].pop()
    if not es[22]:
        return
    if len(es[22]) == 1:
        return                  # may be the only one, and the last
    dd = load(f, None, c['udecl'] if c['cy'] else None, **(dict(dual_profile=True) if c['flag'] else {}))
    check(isinstance(dd, tuple) and len(dd) == 2, 'two datasets expected')
    dh = (c['udecl'] or 0) if c['cy'] else 0
    ctx.nontrivial(len(es[22]) > 1)
    ctx.label('every %d' % c['every'], 'ahrs %s' % c['ahrs'])
    for ds, i in zip(dd, (21, 22)):
        tg = TAG[i]
        m = ds['time' + tg].size
        # finding last_ensemble: the last ping may be left out
        check(len(es[i]) - 1 <= m <= len(es[i]), '{} pings{} read, {} in the file', m, tg, len(es[i]))
        g, x = cfg[i], es[i][:m]

        def col(k):
            return np.array([q[k] for q in x], float)
        check(not any(v.endswith('_avg') != (i == 22) for v in ds.data_vars if v.startswith(('vel', 'amp', 'corr', 'pitch'))),
              'variables {}', list(ds.data_vars))
        close(epoch(ds['time' + tg].values), [(q['t'] - EPOCH).total_seconds() for q in x], 0, 2e-5, 'time' + tg)
        close(ds['vel' + tg].values, np.moveaxis(col('vel'), 0, -1) * 10. ** g['vscale'], 2e-6, 1e-6, 'vel' + tg)
        for k, sc in (('amp', .5), ('corr', 1)):
            if c[k]:
                close(ds[k + tg].values, np.moveaxis(col(k), 0, -1) * sc, 1e-6, 1e-6, k + tg)
        close(ds['range' + tg].values, (np.arange(g['nc']) + 1) * g['cell'] * 1e-3 + g['blank'] * 1e-2, 1e-6, 1e-6, 'range' + tg)
        if not (c['b5'] and i == 21):
            close(ds['pressure' + tg].values, col('press') * 1e-3, 2e-6, 0, 'pressure' + tg)
            close(ds['temp' + tg].values, col('temp') * .01, 2e-6, 1e-6, 'temp' + tg)
            angclose(ds['heading' + tg].values, col('h') / 100 + (dh if i == 21 else 0), 'heading' + tg)
            angclose(ds['pitch' + tg].values, col('p') / 100, 'pitch' + tg)
            if not c['ahrs']:
                om = np.array([gen.nortek_omat(q['h'] / 100 + dh, q['p'] / 100, q['r'] / 100) for q in x])
        close(ds['accel' + tg].values, col('acc').T / 16384 * G, 2e-6, 1e-6, 'accel' + tg)
        if c['ahrs']:
            om = col('rot').transpose(0, 2, 1) @ gen.Rz(-np.deg2rad(dh)).T
            if i == 22:         # finding dual_orientmat
                om2 = col('rot') @ gen.Rz(-np.deg2rad(dh)).T
                if np.abs(ds.orientmat.transpose('earth', 'inst', ...).values - np.moveaxis(om2, 0, -1)).max() < 1e-5:
                    om = om2
        if c['ahrs'] or not (c['b5'] and i == 21):
            close(ds.orientmat.transpose('earth', 'inst', ...).values, np.moveaxis(om, 0, -1), 1e-5, 5e-6, 'orientmat of ' + (tg or 'burst'))
        close(ds.beam2inst_orientmat.values, mat, 1e-6, 1e-6, 'beam2inst')
        check(ds.coord_sys == {'ENU': 'earth', 'XYZ': 'inst', 'beam': 'beam'}[CY[c['cy']]], 'coord_sys {}', ds.coord_sys)
        check(ds.attrs.get('declination', 0) == dh, 'declination {}', ds.attrs.get('declination'))
        rv = [v for v in ds.rotate_vars if v.endswith('_avg') != (i == 22)]
        check(not rv and 'vel' + tg in ds.rotate_vars and all(v in ds for v in ds.rotate_vars), 'rotate_vars {}', ds.rotate_vars)
        check(ds.attrs['n_cells' + tg] == g['nc'] and ds.beam_angle == c['theta'] and ds.has_imu == int(c['ahrs']), 'attributes')
    if c['b5'] and es[24]:
        x = es[24][:dd[0]['time_b5'].size]
        check(len(x) >= len(es[24]) - 1, 'pings of vel_b5')
        close(dd[0].vel_b5.values, np.array([q['vel'][0] for q in x]).T * 1e-3, 2e-6, 1e-6, 'vel_b5')


def _ping(cfg, c, rng, k, ids=(21,)):
    out = b''
    es = {}
    for i in ids:
        e = es[i] = sample(rng, cfg[i], c, i)
        e.update(t=datetime(2020, 1, 1) + timedelta(seconds=k), ens=k + 1)
        out += W.data(i, cfg[i], e, cfg[i]['names'])
    return out, es


PLAIN = dict(seed=1, ncells=3, cy=1, theta=25, ids=[], amp=True, corr=True, le=False, ast=False, ahrs=False, std=False, orient=4, up=True, vscale=-3,
             vscale5=-3, cold=False)


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(2, 8), ids=st.lists(st.sampled_from([23, 24, 28]), unique=True),
    ops=st.lists(st.sampled_from(['read', 'read', 'grow', 'grow', 'rebuild', 'crop', 'replace']), min_size=1, max_size=6))), quick=50, thorough=1200)
def index(c, ctx):
    """A file that grows or is replaced between reads, its index, and crop_ensembles."""
    from dolfyn.io import nortek2_lib as lib
    rng = rng_of(c['seed'])
    ids = [21] + c['ids']
    q = dict(PLAIN, ncells=ii(rng, 1, 4))
    cfg = {i: config(rng, i, q) for i in ids}
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        fn = os.path.join(d, 'a.ad2cp')
        now = 1600000000
        head = W.header()
        es = []

        def more(m):
            with open(fn, 'ab') as fh:
                for _ in range(m):
                    b, e = _ping(cfg, q, rng, len(es), ids)
                    es.append(e)
                    fh.write(b)
            os.utime(fn, (now, now))

        def same(ds, es, what):
            close(ds.vel.values, np.moveaxis(np.array([e[21]['vel'] for e in es], float), 0, -1) * 1e-3, 2e-6, 1e-6, what)
            close(epoch(ds.time.values), [(e[21]['t'] - EPOCH).total_seconds() for e in es], 0, 2e-5, 'times of ' + what)
            if 24 in ids:
                close(ds.vel_b5.values, np.array([e[24]['vel'][0] for e in es], float).T * 1e-3, 2e-6, 1e-6, 'vel_b5 of ' + what)
        with open(fn, 'wb') as fh:
            fh.write(head)
        more(c['n'])
        did = set()
        for op in c['ops'] + ['read']:
            now += 10
            did.add(op)
            if op == 'grow':
                more(ii(rng, 1, 4))
            elif op == 'replace':
                es = []
                with open(fn, 'wb') as fh:
                    fh.write(head)
                more(ii(rng, 2, 6))
            elif op in ('read', 'rebuild'):
                ds = dolfyn.read(fn, rebuild_index=op == 'rebuild')
                os.utime(fn + '.index', (now, now))
                same(ds, es, 'the file after %s' % op)
            else:
                a = ii(rng, 0, len(es) - 1)
                b = ii(rng, a + 2, len(es) + 3)
                out = os.path.join(d, 'b%d.ad2cp' % now)
                lib.crop_ensembles(fn, out, [a, b])
                os.utime(fn + '.index', (now, now))
                with open(out, 'rb') as fh:
                    got = fh.read()
                k = len(es[a:b])
                with open(fn, 'rb') as fh:
                    al = fh.read()
                z = (len(al) - len(head)) // len(es)
                check(got == head + al[len(head) + a * z:len(head) + min(b, len(es)) * z], 'crop_ensembles [{}, {}) of {}', a, b, len(es))
                ds = dolfyn.read(out)
                check(ds.time.size == k, '{} ensembles in the cropped file, expected {}', ds.time.size, k)
                same(ds, es[a:b], 'the cropped file')
        ctx.nontrivial(len(es) > 1 and len(did) > 1)
        ctx.label(*did)


# ---------------------------------------------------------------- known findings

def _demo(n=4, ids=(21,), add=None, head=None, edit=None, c=PLAIN, mod=None):
    rng = rng_of(1)
    cfg = {i: config(rng, i, c) for i in ids}
    if mod:
        mod(cfg)
    f = head or W.header()
    es = []
    for k in range(n):
        e = {}
        for i in ids:
            e[i] = sample(rng, cfg[i], c, i)
            e[i].update(t=datetime(2020, 1, 1) + timedelta(seconds=60 * k), ens=k + 1)
            if edit:
                edit(e[i], i)
            f += W.data(i, cfg[i], e[i], cfg[i]['names'])
        es.append(e)
        if add:
            f += add(k)
    return load(f), es


@PROP.finding('last_ensemble')
def last_demo():
    ds, es = _demo(add=lambda k: W.string('a', 17) if k == 1 else b'')
    check(ds.time.size == 4, '4 ensembles')
    ds, es = _demo(add=lambda k: W.string('a', 17) if k == 3 else b'')
    check(ds.time.size == 4, 'the last ensemble, which is whole but followed by a string record, is missing')


@PROP.finding('avg_fs')
def fs_demo():
    ds, es = _demo(ids=(22,), head=W.header(avg=dict(MIAVG=60, AI=30, BW='BROAD')))
    check(abs(ds.fs - 1 / 60) < 1e-9, 'fs of averages every 60 s is {} Hz', ds.fs)


@PROP.finding('altraw_sign')
def sign_demo():
    ds, es = _demo(ids=(21, 26), c=dict(PLAIN, le=True, ast=True), edit=lambda e, i: e.update(samp=np.array([-256, 256])))
    check((ds.samp_altraw.values[0] == -1).all(), 'negative raw altimeter samples: -1 read as {}', ds.samp_altraw.values[0, 0])


@PROP.finding('dual_orientmat')
def dual_demo():
    (a, b), es = _demo(ids=(21, 22), c=dict(PLAIN, ahrs=True), head=W.header(avg=dict(MIAVG=60, AI=30, BW='BROAD')))
    m = b['time_avg'].size
    for ds, i in ((a, 21), (b, 22)):
        om = np.array([e[i]['rot'].T for e in es[:m]])
        got = ds.orientmat.transpose('earth', 'inst', ...).values[..., :m]
        check(np.abs(got - np.moveaxis(om, 0, -1)).max() < 1e-5, 'orientation matrix of the averaged profile of a dual profile is transposed')


@PROP.finding('config_names')
def names_demo():
    ds, es = _demo(head=W.header(extra=['GETECHO,FREQ1=1000']))
    d = json.loads(ds.filehead_config)
    check('BURST' in d and d['BURST']['SR'] == 8, 'burst configuration')
    check('ECHO' in d, 'filehead_config names the GETECHO section {}', sorted(k for k in d if 'CHO' in k))


@PROP.finding('percent_good')
def pg_demo():
    def mod(cfg):
        cfg[22]['names'] = cfg[22]['names'] + ['pg']
        cfg[22]['config'] = W.bits(cfg[22]['names'])
    ds, es = _demo(ids=(22,), head=W.header(avg=dict(MIAVG=60, AI=30, BW='BROAD')), mod=mod,
                   edit=lambda e, i: e.update(pg=[100, 50, 0]))
    check(any('prcnt' in v or 'percent' in v for v in ds.data_vars), 'percent-good data are not returned')


@PROP.finding('bt_mag')
def mag_demo():
    ds, es = _demo(ids=(21, 23))
    close(ds.mag.values, np.array([e[21]['mag'] for e in es]).T * .1, 1e-5, 1e-5, 'mag')
    close(ds.mag_bt.values, np.array([e[23]['mag'] for e in es]).T * .1, 1e-5, 1e-5, 'mag_bt')


@PROP.finding('blank_mm')
def blank_demo():
    def mod(cfg):
        cfg[21].update(blank=500, cell=1000)
    ds, es = _demo(mod=mod, edit=lambda e, i: e.update(status=e['status'] & ~2))
    close(ds.range.values, [1.5, 2.5, 3.5], 1e-6, 1e-6, 'blanking distance recorded in mm: range')


@PROP.finding('bt_config')
def bt_config_demo():
    ds, es = _demo(ids=(21, 23))
    h = json.loads(ds.burst_config_bt)
    check(not any(h.get(k) for k in ('le', 'altraw', 'amp')), 'burst_config_bt of bottom track with velocity, distance and figure of merit: {}', h)

# ------------------------------------------------------- records of usual length
PROP.sub(over(case_st, n=st.sampled_from([60, 150, 400]), ncells=st.sampled_from([3, 20])), quick=12, thorough=300, name='burst_long')(burst)
PROP.sub(over(case_st, ncells=st.sampled_from([40, 100, 200])), quick=25, thorough=500, name='burst_deep')(burst)
PROP.sub(over(dual_st, n=st.sampled_from([60, 150])), quick=8, thorough=200, name='dual_long')(dual)
PROP.sub(over(case_st, n=st.sampled_from([500, 900]), ncells=st.sampled_from([128, 200])), quick=20, thorough=200, shards=4, name='burst_megabytes')(burst)
