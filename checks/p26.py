"""P26 reading Nortek AWAC and Vectrino files."""
from vlib.core import Prop, check, close, quiet, scratch
from vlib import meta, gen, nortek_w as W
from vlib.gen import seeds, rng_of, over
from datetime import datetime, timedelta
import logging
import os
import numpy as np
from hypothesis import strategies as st
import dolfyn

logging.disable(logging.CRITICAL)
PROP = Prop('P26', 'at least two samples')
EPOCH = datetime(1970, 1, 1)
MAT = np.array([[1.5774, -0.7891, -0.7891], [0.0, -1.3662, 1.3662], [0.3677, 0.3677, 0.3677]])

nens_st = dict(what=st.sampled_from(['all', 'all', 'int', 'tuple', 'many']), k=st.integers(0, 10**6), k0=st.integers(0, 10**6),
               checksum=st.booleans(), cut=st.sampled_from([0, 0, 0, 1, 5, 13]), read=st.booleans(), junk=st.booleans())


def window(c, n):
    if c['what'] == 'int':
        h = 1 + c['k'] % n
        return h, 0, h
    if c['what'] == 'tuple':
        h = 1 + c['k'] % n
        lo = c['k0'] % h
        return (lo, h), lo, h
    if c['what'] == 'many':
        return n + 1 + c['k'] % 50, 0, n
    return None, 0, n


def load(f, c, nens):
    with scratch() as d:
        p = os.path.join(d, 'x.wpr')
        with open(p, 'wb') as fh:
            fh.write(f)
        kw = dict(do_checksum=True) if c['checksum'] else {}
        with quiet():
            ds = dolfyn.read(p, nens=nens, **kw) if c['read'] else dolfyn.io.nortek.read_nortek(p, nens=nens, **kw)
        meta.names(ds, meta.NORTEK)
        return ds


def junk(rng):
    body = rng.integers(0, 256, 2 * int(rng.integers(1, 20))).astype('u1').tobytes()
    return W.rec(0x99, W.size(len(body) + 6) + body)


def epoch(ds):
    return (ds.time.values - np.datetime64('1970-01-01')) / np.timedelta64(1, 'ns') / 1e9


AWAC = st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(1, 30), nbins=st.integers(1, 12).map(lambda x: 2 * x), avg=st.integers(1, 1200), coord=st.integers(0, 2),
    freq=st.sampled_from([400, 600, 1000, 2000]), gap=st.booleans(), deepp=st.booleans(),
    unset=st.just(()) | st.lists(st.integers(0, 40), min_size=1, max_size=4), **nens_st))


@PROP.sub(AWAC, quick=900, thorough=9000, shards=4)
def awac(c, ctx):
    rng = rng_of(c['seed'])
    n, nb = c['n'], c['nbins']
    hw = dict(serial='WPR %4d' % rng.integers(1, 9999), rec_size=int(rng.integers(1, 99)), rev=3)
    head = dict(config=int(rng.integers(0, 8)), freq=c['freq'])
    cfg = dict(binlen=int(rng.integers(50, 2000)), blank=int(rng.integers(10, 200)), name='A%04d' % rng.integers(0, 9999),
               sal10=int(rng.integers(0, 400)), tim=int(rng.integers(0, 1024)), sw=34700, wcell=int(rng.integers(1, 2000)),
               nwave=int(rng.choice([512, 1024, 2048])), wave_method=int(rng.integers(0, 5)), mode1=int(rng.integers(0, 8)),
               dynpos=int(rng.integers(0, 32768)), waves=bool(rng.integers(0, 2)))
    mat = MAT + rng.normal(0, .01, (3, 3))
    f = W.hw_cfg(**hw) + W.head_cfg(mat, nbeams=3, serial=b'WAV 5', **head) + W.user_cfg(avg=c['avg'], nbins=nb, coord=c['coord'], **cfg)
    f0 = len(f)
    t0 = datetime(2001, 1, 1) + timedelta(seconds=int(rng.integers(0, 30 * 365 * 86400)))
    R = []
    for i in range(n):
        t0 += timedelta(seconds=c['avg'] + (int(rng.integers(0, 5)) if c['gap'] else 0))
        q = dict(t=t0, h=int(rng.integers(0, 3600)), p=int(rng.integers(-300, 301)), r=int(rng.integers(-1799, 1800)),
                 press=int(rng.integers(0, 2**24 if c['deepp'] else 60000)), temp=int(rng.integers(-200, 3500)), vel=rng.integers(-32767, 32768, (3, nb)),
                 amp=rng.integers(0, 256, (3, nb)), error=int(rng.integers(0, 65536)), ana=int(rng.integers(0, 65536)),
                 batt=int(rng.integers(90, 180)), c=int(rng.integers(14000, 15600)), status=int(rng.integers(0, 256)))
        R.append(q)
        rec = W.awac_profile(**q)
        q['unset'] = i in c['unset']
        if q['unset']:       # a profile taken before the clock was set, or with a damaged date
            bad = [bytes(6), b'\x99' * 6, bytes([0, 0, 0x31, 0, 0x20, 0x02])][int(rng.integers(3))]
            rec = W.rec(0x20, rec[2:4] + bad + rec[10:-2])
        f += rec
        if c['junk'] and rng.random() < .2:
            f += junk(rng)
    if c['cut'] and not c['junk']:
        f = f[:-c['cut']]
        n -= c['cut'] > 2 or c['checksum']
    if n < 1:
        return
    nens, lo, hi = window(c, n)
    ctx.nontrivial(hi - lo > 1)
    ctx.label('nens ' + c['what'], 'frame %d' % c['coord'])
    R = R[lo:hi]
    ok = np.array([not q['unset'] for q in R])
    if not ok.any():
        return               # no clock to go by
    hi -= int(np.argmax(ok[::-1]))           # trailing profiles without time are left out
    R, ok = R[:hi - lo], ok[:hi - lo]
    ds = load(f, c, nens)
    ctx.label('every clock good' if ok.all() else 'unset clocks')
    check(ds.time.size == hi - lo, '{} profiles read, expected {} (nens={}, {} in the file)', ds.time.size, hi - lo, nens, n)
    w = np.array([(q['t'] - EPOCH).total_seconds() for q in R])
    i, k = np.arange(len(R)), np.flatnonzero(ok)
    check(ds.time.dtype == 'M8[ns]' and (epoch(ds)[ok] == w[ok]).all(), 'time')
    # between good clocks linear, before the first one by the averaging interval
    close(epoch(ds)[k[0]:], np.interp(i, k, w[ok])[k[0]:], 0, 1e-4, 'time of profiles without a clock')
    close(epoch(ds)[:k[0]], w[k[0]] - (k[0] - i[:k[0]]) * c['avg'], 0, 1e-3, 'time of profiles before the first clock')
    close(ds.vel.transpose('dir', 'range', 'time').values, np.stack([q['vel'] for q in R], -1) * 1e-3, 2e-6, 1e-9, 'vel')
    check((ds.amp.transpose('beam', 'range', 'time').values == np.stack([q['amp'] for q in R], -1)).all(), 'amp')
    for nm, k, fac in [('batt', 'batt', .1), ('c_sound', 'c', .1), ('heading', 'h', .1), ('temp', 'temp', .01), ('pressure', 'press', .001)]:
        close(ds[nm].values, np.array([q[k] for q in R]) * fac, 1e-5, 1e-6, nm)
    # known finding P26/awac_tilt: negative pitch and roll appear as 6553.6 + x
    for nm, k in [('pitch', 'p'), ('roll', 'r')]:
        raw = np.array([q[k] for q in R])
        g = ds[nm].values
        if not np.allclose(g, raw * .1, 1e-5, 1e-4):
            close(g, (raw & 0xffff) * .1, 1e-5, 1e-4, nm)
    check((ds.error.values == [q['error'] for q in R]).all(), 'error')
    check((ds.status.values == [q['status'] for q in R]).all(), 'status')
    close(ds.beam2inst_orientmat.values, np.round(mat * 4096) / 4096, 0, 1e-9, 'beam2inst matrix')
    hpr = [ds[k].values.astype('f8') for k in ('heading', 'pitch', 'roll')]
    want = np.stack([gen.nortek_omat(*x) for x in zip(*hpr)], -1)
    close(ds.orientmat.transpose('earth', 'inst', 'time').values, want, 0, 3e-4, 'orientmat')
    # range: along the vertical, beams at 25 deg
    coef = {2000: .0239, 1000: .0478, 600: .0797, 400: .1195}[c['freq']]
    cs = np.round(cfg['binlen'] / 256 * coef * np.cos(np.deg2rad(25)), 2)
    bd = np.round(cfg['blank'] * .0229 * np.cos(np.deg2rad(25)) - cs, 2)
    close(ds.range.values, (np.arange(nb) + 1) * cs + bd, 1e-6, 1e-4, 'range')
    a, tim = ds.attrs, cfg['tim']
    frame = ['earth', 'inst', 'beam'][c['coord']]
    want = dict(inst_make='Nortek', inst_model='AWAC', inst_type='ADCP', coord_sys=frame, n_beams=3, n_bins=nb, avg_interval=c['avg'],
                carrier_freq_kHz=c['freq'], serial_number=hw['serial'], deployment_name=cfg['name'], salinity=cfg['sal10'] / 10,
                power_level=(tim >> 5 & 3) + 1, profile_mode=['single', 'continuous'][tim >> 1 & 1], has_imu=0, rotate_vars=['vel'],
                software_version='3.47.00', wave_mode=['Disabled', 'Enabled'][cfg['waves']], wave_cell_size=cfg['wcell'],
                n_samples_wave=cfg['nwave'], wave_processing_method=['PUV', 'SUV', 'MLM', 'MLMST', 'None'][cfg['wave_method']],
                wave_fs=['1 Hz', '2 Hz'][cfg['mode1'] & 1], wave_cell_position=['fixed', 'dynamic'][cfg['mode1'] >> 1 & 1],
                type_wave_cell_pos=['pct_of_mean_pressure', 'pct_of_min_re'][cfg['mode1'] >> 2 & 1],
                prc_dyn_wave_cell_pos=int(cfg['dynpos'] / 32767 * 100), cell_size=cs, blank_dist=bd)
    for k, v in want.items():
        check(k in a and a[k] == v, 'attribute {}: {!r}, expected {!r}', k, a.get(k), v)
    close(a['fs'], 1 / c['avg'], 1e-12, 0, 'fs')
    lab = {'inst': gen.XYZ, 'earth': gen.ENU, 'beam': [1, 2, 3]}[frame]
    check(list(ds['dir'].values) == lab and list(ds.beam.values) == [1, 2, 3], 'direction labels {}', ds['dir'].values)
    for k, u in dict(vel='m s-1', pressure='dbar', heading='degree', temp='degree_C', range='m').items():
        check(ds[k].attrs.get('units') == u, 'units of {}: {}', k, ds[k].attrs.get('units'))


VTRO = st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(2, 60), avg=st.sampled_from([250, 500, 1000, 1563, 2000, 5000, 50000]), coord=st.integers(0, 2),
    fine=st.booleans(), chk=st.integers(0, 40), **nens_st))


@PROP.sub(VTRO, quick=600, thorough=6000, shards=4)
def vectrino(c, ctx):
    rng = rng_of(c['seed'])
    n = c['n']
    hw = dict(serial='VNO %4d' % rng.integers(1, 9999))
    mat = rng.normal(0, 1, (4, 4))
    f = W.hw_cfg(**hw) + W.head_cfg(mat, nbeams=4, serial=b'VCN 5', freq=10000) + \
        W.user_cfg(avg=c['avg'], coord=c['coord'], nbeams=4, fine=c['fine'], npings=int(rng.integers(1, 9)))
    t0 = datetime(2001, 1, 1) + timedelta(seconds=int(rng.integers(0, 30 * 365 * 86400)))
    f += W.vno_event(t0)
    if c['chk'] > 1:
        f += W.checkdata(2 * c['chk'], vectrino=True)
    f += W.vno_hdr()
    vel = rng.integers(-32767, 32768, (4, n))
    amp, cor, sta = rng.integers(0, 256, (4, n)), rng.integers(0, 256, (4, n)), rng.integers(0, 256, n)
    for i in range(n):
        f += W.vno_data(vel[:, i], amp[:, i], cor[:, i], int(sta[i]), i)
        if c['junk'] and rng.random() < .1:
            f += junk(rng)
    if c['cut'] and not c['junk']:
        f = f[:-c['cut']]
        n -= c['cut'] > 2 or c['checksum']
    if n < 1:
        return
    nens, lo, hi = window(c, n)
    ctx.nontrivial(hi - lo > 1)
    ctx.label('nens ' + c['what'], 'frame %d' % c['coord'])
    ds = load(f, c, nens)
    s = slice(lo, hi)
    check(ds.time.size == hi - lo, '{} samples read, expected {} (nens={}, {} in the file)', ds.time.size, hi - lo, nens, n)
    fs = 50000 / c['avg']
    w = (t0 - EPOCH).total_seconds() + np.arange(lo, hi) / fs
    check(np.abs(epoch(ds) - w).max() < 1e-6, 'time is off by up to {} s', np.abs(epoch(ds) - w).max())
    close(ds.vel.values, vel[:, s] * (1e-4 if c['fine'] else 1e-3), 2e-6, 1e-9, 'vel')
    check((ds.amp.values == amp[:, s]).all() and (ds['corr'].values == cor[:, s]).all(), 'amp, corr')
    check((ds.status.values == sta[s]).all(), 'status')
    close(ds.beam2inst_orientmat.values, np.round(mat * 4096) / 4096, 0, 1e-9, 'beam2inst matrix')
    check('orientmat' not in ds, 'a Vectrino has no orientation')
    frame = ['earth', 'inst', 'beam'][c['coord']]
    for k, v in dict(inst_make='Nortek', inst_model='Vectrino', inst_type='ADV', coord_sys=frame, n_beams=4, fs=fs, serial_number=hw['serial'],
                     carrier_freq_kHz=10000, rotate_vars=['vel'], has_imu=0).items():
        check(k in ds.attrs and ds.attrs[k] == v, 'attribute {}: {!r}, expected {!r}', k, ds.attrs.get(k), v)
    check(ds.vel.dims == ('dir', 'time') and ds.amp.dims == ('beam', 'time'), 'dims')
    check(list(ds.beam.values) == [1, 2, 3, 4] and len(set(ds['dir'].values.tolist())) == 4, 'labels')


@PROP.finding('awac_tilt')
def tilt_demo():
    f = W.hw_cfg(serial='WPR 1234') + W.head_cfg(MAT, freq=1000) + W.user_cfg(avg=60, nbins=2)
    for i in range(3):
        f += W.awac_profile(datetime(2020, 1, 1, 0, i), 100, -15, -20, 1000, 1000, np.zeros((3, 2)), np.zeros((3, 2)))
    ds = load(f, dict(checksum=False, read=True), None)
    close(ds.pitch.values, [-1.5] * 3, 0, 1e-4, 'negative pitch of an AWAC')


@PROP.finding('awac_waves')
def waves_demo():
    f = W.hw_cfg(serial='WPR 1234') + W.head_cfg(MAT, freq=1000) + W.user_cfg(avg=60, nbins=2)
    for i in range(3):
        f += W.awac_profile(datetime(2020, 1, 1, 0, i), 100, 15, 20, 1000, 1000, np.zeros((3, 2)), np.zeros((3, 2)))
        f += W.rec(0x30, W.size(24) + bytes(18))
    ds = load(f, dict(checksum=False, read=True), None)
    check(ds.time.size == 3, 'profiles of a file with wave records')

# ------------------------------------------------------- records of usual length
PROP.sub(over(AWAC, n=st.sampled_from([120, 500]), nbins=st.sampled_from([20, 60, 128])), quick=24, thorough=400, name='awac_long')(awac)
PROP.sub(over(VTRO, n=st.sampled_from([300, 3000])), quick=16, thorough=300, name='vectrino_long')(vectrino)
