"""P25 reading Nortek Vector files."""
from vlib.core import Prop, check, close, quiet, scratch, raises
from vlib import meta, gen, nortek_w as W
from vlib.gen import seeds, rng_of, over
from datetime import datetime, timedelta
import os
import json
import struct
import logging
import numpy as np
from hypothesis import strategies as st
import dolfyn

logging.disable(logging.CRITICAL)

PROP = Prop('P25', 'at least two system records and 3-component velocities that differ between samples')

case_st = st.fixed_dictionaries(dict(
    seed=seeds, fs=st.sampled_from([1, 2, 4, 8, 16, 32, 64]), nsec=st.integers(1, 9), extra=st.integers(0, 63),
    coord=st.integers(0, 2), fine=st.booleans(), burst=st.sampled_from([0, 0, 1, 2, 3, 5]), nbursts=st.integers(1, 3),
    imu=st.sampled_from([None, None, 195, 204, 211]), flip=st.sampled_from([0, 0, 1, 2]), north=st.booleans(),
    junk=st.sampled_from([0, 0, 1]), cut=st.sampled_from([0, 0, 0, 1, 7, 23]), deepp=st.booleans(),
    what=st.sampled_from(['all', 'all', 'int', 'tuple', 'many']), k=st.integers(1, 10**6), k0=st.integers(0, 10**6),
    checksum=st.booleans(), read=st.booleans()))

MAT = np.array([[2.709, -1.3542, -1.3547], [0.0, 2.3445, -2.3451], [0.3443, 0.3447, 0.3462]])


def make(c):
    rng = rng_of(c['seed'])
    fs = c['fs']
    if c['burst']:
        nb = c['burst'] * fs + c['extra'] % fs          # samples in a burst
        n = nb * c['nbursts']
        interval = int(np.ceil(nb / fs)) + int(rng.integers(5, 600))
        starts = [b * nb for b in range(c['nbursts'])]
    else:
        nb, interval = 0, 600
        n = c['nsec'] * fs + c['extra'] % fs
        starts = [0]
    t0 = datetime(2001, 1, 1) + timedelta(seconds=int(rng.integers(0, 30 * 365 * 86400)))
    r = dict(n=n, fs=fs, nb=nb, interval=interval, t=np.zeros(n), t0=t0)
    lim = 32767
    r['vel'] = rng.integers(-lim, lim + 1, (n, 3))
    r['amp'] = rng.integers(0, 256, (n, 3))
    r['corr'] = rng.integers(0, 256, (n, 3))
    r['press'] = rng.integers(0, 2**24 if c['deepp'] else 60000, n)
    mat = MAT + rng.normal(0, .01, (3, 3))
    r['mat'] = np.round(mat * 4096) / 4096
    r['cfg'] = dict(npings=int(rng.integers(1, 9)), compass=int(rng.integers(0, 9)), tim=int(rng.integers(0, 1024)),
                    name='D%04d' % rng.integers(0, 9999), comments='c' * int(rng.integers(0, 80)), sal10=int(rng.integers(0, 400)),
                    analog=int(rng.integers(0, 9)), sw=int(rng.integers(10000, 39999)), user_c=bool(rng.integers(0, 2)),
                    wrap=int(rng.integers(0, 2)), nbins=int(rng.integers(1, 9)), mode0=int(rng.integers(0, 512)) & 0b100101100)
    r['hw'] = dict(serial='VEC %4d' % rng.integers(1, 9999), rec_size=int(rng.integers(1, 99)), rev=int(rng.integers(0, 9)),
                   pic=int(rng.integers(0, 9)), vel_range=int(rng.integers(0, 2)))
    r['head'] = dict(config=int(rng.integers(0, 8)), freq=6000)
    f = W.hw_cfg(**r['hw']) + W.head_cfg(mat, **r['head']) + \
        W.user_cfg(avg=512 // fs, coord=c['coord'], fine=c['fine'], nburst=nb, interval=interval, **r['cfg'])
    sysd = {}
    imu, recs = [], []
    h0 = int(rng.integers(3500, 3700) if c['north'] else rng.integers(200, 3300))
    nflip = int(rng.integers(1, n + 1)) if c['flip'] == 1 else (0 if c['flip'] == 2 else n + 1)
    for b, s in enumerate(starts):
        tb = t0 + timedelta(seconds=b * interval)
        e = s + (nb or n)
        if b == 0 or c['burst']:
            f += W.checkdata(2 + 2 * (c['seed'] % 40), seed=b)
            f += W.vec_hdr(tb, nb or 0)
        for k in range(s, e):
            if (k - s) % fs == 0:
                t = tb + timedelta(seconds=(k - s) // fs)
                q = dict(batt=int(rng.integers(90, 180)), c=int(rng.integers(14000, 15600)),
                         h=int(h0 + rng.integers(-90, 90)) % 3600, p=int(rng.integers(-899, 900)), r=int(rng.integers(-1799, 1800)),
                         temp=int(rng.integers(-200, 3500)), error=int(rng.integers(0, 256)), status=int(rng.integers(0, 128)) * 2 + int(k >= nflip))
                sysd[k] = q
                f += W.vec_sys(t, **q, ana=int(rng.integers(0, 65536)))
            r['t'][k] = (tb - datetime(1970, 1, 1)).total_seconds() + (k - s) / fs
            f += W.vec_data(int(r['press'][k]), r['vel'][k], r['amp'][k], r['corr'][k], count=k, ana1=int(rng.integers(0, 65536)), ana2=int(rng.integers(0, 65536)))
            if c['imu']:
                m = {195: 15, 204: 18, 211: 9}[c['imu']]
                v = rng.normal(0, 3, m).astype('f4')
                f += W.imu(c['imu'], v, count=k)
                imu.append(v)
            if c['junk'] and rng.random() < .1:         # an unknown record
                body = rng.integers(0, 256, 2 * int(rng.integers(1, 20))).astype('u1').tobytes()
                tot = len(body) + 6
                f += W.rec(0x99, W.size(tot) + body)
            recs.append(len(f))
    r['sys'], r['imu'], r['ends'] = sysd, np.array(imu).T, recs
    return f, r


def lin(idx, val, n, t):
    out = np.full(n, np.nan)
    idx = np.asarray(idx)
    m = np.arange(idx[0], idx[-1] + 1)
    out[m] = np.interp(t[m], t[idx], np.asarray(val, 'f8'))
    return out


@PROP.sub(case_st, quick=1500, thorough=12000, shards=6)
def contents(c, ctx):
    c = dict(c)
    if c['junk'] or c['imu']:
        c['cut'] = 0 if c['junk'] else min(c['cut'], 7)
    f, r = make(c)
    if c['cut']:
        f = f[:-c['cut']]
    # a record that lacks only (a byte of) its checksum has all its data
    n = r['n'] - bool(c['cut'] > 2 or (c['cut'] and c['checksum']))
    lo, hi = 0, n
    nens = None
    if c['what'] == 'int':
        nens = hi = 1 + c['k'] % n if n else 1
    elif c['what'] == 'tuple' and n:
        hi = 1 + c['k'] % n
        lo = c['k0'] % hi
        nens = (lo, hi)
    if nens is not None and c['imu'] and hi == 1:
        nens, lo, hi = None, 0, n       # a single sample is read without its IMU record
    if c['what'] == 'many':
        nens = n + 1 + c['k'] % 50
    ctx.nontrivial(len(r['sys']) >= 2 and n > 2)
    ctx.label('fs %d' % r['fs'], 'bursts' if c['burst'] else 'continuous', 'imu %s' % c['imu'], 'nens ' + c['what'])
    if n < 1:
        return
    with scratch() as d:
        p = os.path.join(d, 'x.vec')
        with open(p, 'wb') as fh:
            fh.write(f)
        with quiet():
            kw = dict(do_checksum=True) if c['checksum'] else {}
            ds = dolfyn.read(p, nens=nens, **kw) if c['read'] else dolfyn.io.nortek.read_nortek(p, nens=nens, **kw)
    meta.names(ds, meta.VECTOR)
    check(ds.time.size == hi - lo, '{} samples read, expected {} (nens={}, {} in the file)', ds.time.size, hi - lo, nens, n)
    s = slice(lo, hi)
    sc = 1e-4 if c['fine'] else 1e-3
    close(ds.vel.values, r['vel'][s].T * sc, 2e-6, 1e-9, 'vel')
    check((ds.amp.values == r['amp'][s].T).all(), 'amp')
    check((ds['corr'].values == r['corr'][s].T).all(), 'corr')
    close(ds.pressure.values, r['press'][s] / 1000., 1e-6, 0, 'pressure')
    close(ds.beam2inst_orientmat.values, r['mat'], 0, 1e-9, 'beam2inst matrix')
    # times
    t = (ds.time.values - np.datetime64('1970-01-01')) / np.timedelta64(1, 'ns') / 1e9
    check(ds.time.dtype == 'M8[ns]', 'time dtype')
    err = np.abs(t - r['t'][s]).max()
    check(err < 2e-5, 'time is off by up to {} s', err)
    check(hi - lo < 2 or (np.diff(t) > 0).all(), 'time does not increase')
    early = nens is not None and (nens if isinstance(nens, int) else nens[1]) <= n      # stopped before the end
    # system records: those read before the last sample
    idx = sorted(k for k in r['sys'] if k < (hi if early else r['n']))
    tt = r['t']

    def field(k, f=1.0):
        return np.array([r['sys'][i][k] for i in idx]) * f
    for nm, k, fac in [('batt', 'batt', .1), ('c_sound', 'c', .1), ('pitch', 'p', .1), ('roll', 'r', .1), ('temp', 'temp', .01)]:
        close(ds[nm].values, lin(idx, field(k, fac), r['n'], tt)[s], 1e-5, 1e-4, nm)
    hd = np.unwrap(field('h', .1), period=360)
    w = lin(idx, hd, r['n'], tt)[s]
    g = ds.heading.values.astype('f8')
    check((np.isnan(g) == np.isnan(w)).all(), 'heading present at other samples')
    m = np.isfinite(w)
    check(((g[m] >= 0) & (g[m] <= 360)).all(), 'heading range')
    dd = np.abs((g[m] - w[m] + 180) % 360 - 180)
    check(not m.any() or dd.max() < 2e-3, 'heading is off by {}', dd.max() if m.any() else 0)
    isys = [i for i in idx if lo <= i < hi]
    for i in isys:
        check(int(ds.status.values[i - lo]) == r['sys'][i]['status'], 'status')
        check(int(ds.error.values[i - lo]) == r['sys'][i]['error'], 'error code')
    # orientation: constant between equal records (of a burst)
    od = ds.orientation_down.values
    for a, b in zip(idx, idx[1:] + [None]):
        st0 = r['sys'][a]['status'] & 1
        same_burst = b is not None and (not r['nb'] or a // r['nb'] == b // r['nb'])
        if same_burst and (r['sys'][b]['status'] & 1) == st0:
            q = np.arange(a + 1, b)
        elif not same_burst:
            e = (a // r['nb'] + 1) * r['nb'] if r['nb'] else r['n']
            q = np.arange(a + 1, e)
        else:
            q = np.array([], int)
        q = q[(q >= lo) & (q < hi)]
        check((od[q - lo] == bool(st0)).all(), 'orientation_down after sample {}', a)
    # orientation matrix
    if c['imu'] in (195, 204):
        o = {195: 6, 204: 9}[c['imu']]
        ms = r['imu'][o:o + 9].reshape(3, 3, -1)[..., s]
        # rows of M: MS (x,y,-z) = ADV (z,y,x); columns NED -> ENU
        M = np.array([ms[0], ms[1], ms[2]])
        adv = np.array([-M[2], M[1], M[0]])
        want = np.stack([adv[:, 1], adv[:, 0], -adv[:, 2]], 1)
        g = ds.orientmat.transpose('earth', 'inst', 'time').values
        close(g, want, 1e-6, 1e-6, 'IMU orientation matrix')
    elif 'orientmat' in ds:
        fin = [np.asarray(ds[k].values, 'f8') for k in ('heading', 'pitch', 'roll')]
        g = ds.orientmat.transpose('earth', 'inst', 'time').values
        for j in range(hi - lo):
            if np.isfinite([x[j] for x in fin]).all():
                w = gen.nortek_omat(fin[0][j], fin[1][j], fin[2][j] + 180 * bool(od[j])).T
                close(g[..., j], w.T, 0, 2e-4, 'orientmat of sample %d' % j)
    check(('accel' in ds) == bool(c['imu']) and bool(ds.attrs['has_imu']) == bool(c['imu']), 'IMU variables')
    if c['imu']:
        off = {195: dict(angrt=0, accel=3), 204: dict(accel=0, angrt=3, mag=6), 211: dict(angrt=0, accel=3, mag=6)}[c['imu']]
        check(set(ds.attrs['rotate_vars']) == {'vel', *off}, 'rotate_vars {}', ds.attrs['rotate_vars'])
        for k, o in off.items():
            x = r['imu'][o:o + 3][:, s].astype('f8')
            x = np.array([-x[2], x[1], x[0]])
            if k == 'accel':
                x = x * 9.80665
            if k != 'mag' and c['imu'] in (195, 211):
                x = x * r['fs']
            close(ds[k].values, x, 1e-5, 1e-6, k)
    else:
        check(ds.attrs['rotate_vars'] == ['vel'], 'rotate_vars')
    # metadata
    a, cf = ds.attrs, r['cfg']
    tim = cf['tim']
    frame = ['earth', 'inst', 'beam'][c['coord']]
    want = dict(inst_make='Nortek', inst_model='Vector', inst_type='ADV', fs=r['fs'], coord_sys=frame, n_beams=3,
                profile_mode=['single', 'continuous'][tim >> 1 & 1], power_level=(tim >> 5 & 3) + 1,
                sync_out_pos=['middle', 'end'][tim >> 7 & 1], sample_on_sync=str(bool(tim >> 8 & 1)), start_on_sync=str(bool(tim >> 9 & 1)),
                compass_update_rate=cf['compass'], deployment_name=cf['name'], comments=cf['comments'], salinity=cf['sal10'] / 10,
                analog_in=cf['analog'], software_version='%s.%s.%s' % (str(cf['sw'])[0], str(cf['sw'])[1:3], str(cf['sw'])[3:]),
                user_specified_sound_speed=str(cf['user_c']), n_pings_per_burst=cf['npings'], carrier_freq_kHz=6000,
                serial_number=r['hw']['serial'], ProLogFWver='4.16', firmware_version='3.36', PIC_version=r['hw']['pic'],
                hardware_rev=r['hw']['rev'], recorder_size_bytes=r['hw']['rec_size'] * 65536,
                vel_range=['normal', 'high'][r['hw']['vel_range']],
                pressure_sensor=['no', 'yes'][r['head']['config'] & 1], compass=['no', 'yes'][r['head']['config'] >> 1 & 1],
                tilt_sensor=['no', 'yes'][r['head']['config'] >> 2 & 1], wrap_mode=str(bool(cf['wrap'])), n_bins=cf['nbins'],
                analog_output=str(bool(cf['mode0'] >> 2 & 1)), output_format=['Vector', 'ADV'][cf['mode0'] >> 3 & 1],
                serial_output=str(bool(cf['mode0'] >> 5 & 1)), power_output_analog=str(bool(cf['mode0'] >> 8 & 1)), has_imu=int(bool(c['imu'])))
    for k, v in want.items():
        check(k in a and a[k] == v, 'attribute {}: {!r}, expected {!r}', k, a.get(k), v)
    # known finding P25/burst_mode: always 'True'
    check(a['burst_mode'] in (str(not tim >> 2 & 1), 'True'), 'burst_mode')
    if r['nb']:
        check(a['duty_cycle_n_burst'] == r['nb'], 'duty_cycle_n_burst')
        check(a['duty_cycle_interval'] == r['interval'], 'duty_cycle_interval')
        words = a['duty_cycle_description'].replace(',', '').split()
        got = [float(w) for w in words if w.replace('.', '').isdigit()]
        # (at 1 Hz the length of the burst is not reported: known finding P25/burst_seconds)
        check(len(got) == 3, 'duty cycle: {}', a['duty_cycle_description'])
        close(got[1:] if r['fs'] == 1 else got, [r['nb'] / r['fs'], r['fs'], r['interval'] / 60][r['fs'] == 1:], 1e-6, 1e-6, a['duty_cycle_description'])
    else:
        check('duty_cycle_n_burst' not in a, 'duty cycle of a continuous record')
    lab = {'inst': gen.XYZ, 'earth': gen.ENU, 'beam': [1, 2, 3]}[frame]
    check(list(ds['dir'].values) == lab, 'direction labels {}', ds['dir'].values)
    for k, u in dict(vel='m s-1', pressure='dbar', heading='degree', temp='degree_C', c_sound='m s-1', batt='V').items():
        check(ds[k].attrs.get('units') == u, 'units of {}: {}', k, ds[k].attrs.get('units'))


@PROP.finding('burst_mode')
def burst_demo():
    c = dict(seed=1, fs=8, nsec=3, extra=0, coord=1, fine=False, burst=0, nbursts=1, imu=None, flip=0, north=False, junk=0, deepp=False)
    f, r = make(c)
    f = W.hw_cfg() + W.head_cfg(MAT) + W.user_cfg(avg=64, tim=1 << 2) + f[48 + 224 + 512:]
    with scratch() as d:
        p = os.path.join(d, 'x.vec')
        with open(p, 'wb') as fh:
            fh.write(f)
        with quiet():
            ds = dolfyn.read(p)
    check(ds.attrs['burst_mode'] == 'False', 'burst_mode of a continuous measurement is {}', ds.attrs['burst_mode'])


@PROP.finding('burst_seconds')
def burst_seconds_demo():
    c = dict(seed=1, fs=1, nsec=3, extra=0, coord=1, fine=False, burst=3, nbursts=2, imu=None, flip=0, north=False, junk=0, deepp=False)
    f, r = make(c)
    with scratch() as d:
        p = os.path.join(d, 'x.vec')
        with open(p, 'wb') as fh:
            fh.write(f)
        with quiet():
            ds = dolfyn.read(p)
    check(float(ds.attrs['duty_cycle_description'].split()[0]) == 3, 'bursts of 3 s: {}', ds.attrs['duty_cycle_description'])


@PROP.finding('imu_frame')
def imu_frame_demo():
    """The IMU reports in instrument axes, whatever the velocity is recorded in."""
    c = dict(seed=1, fs=8, nsec=2, extra=0, coord=2, fine=False, burst=0, nbursts=1, imu=204, flip=0, north=False, junk=0, deepp=False)
    f, r = make(c)
    with scratch() as d:
        p = os.path.join(d, 'x.vec')
        with open(p, 'wb') as fh:
            fh.write(f)
        with quiet():
            ds = dolfyn.read(p)
            dolfyn.rotate2(ds, 'inst')
    x = r['imu'][3:6].astype('f8')
    close(ds.angrt.values, np.array([-x[2], x[1], x[0]]), 1e-4, 1e-4, 'rotation rate in the instrument frame')


# ------------------------------------------------------- records of usual length
PROP.sub(over(case_st, nsec=st.sampled_from([60, 130, 400]), burst=st.sampled_from([0, 0, 40]), fs=st.sampled_from([8, 16, 32])), quick=18, thorough=400, shards=3, name='contents_long')(contents)
