"""P20 ADV motion correction."""
from vlib.core import Prop, check, close, raises, quiet
from vlib import gen
from vlib.gen import seeds, rng_of
import numpy as np
import scipy.signal as ss
import xarray as xr
from hypothesis import strategies as st
import dolfyn
from dolfyn.adv.api import correct_motion
from dolfyn.adv.motion import CalcMotion

PROP = Prop('P20', 'the instrument moves (non-zero acceleration and rotation rate) and its attitude varies')
BODY2IMU = np.array([0.00635, 0.00635, 0.14986])
VEC_VARS = ['vel', 'vel_raw', 'velrot', 'velacc', 'acclow', 'accel', 'angrt', 'mag']


@st.composite
def mcase(draw, min_t=40, max_t=200):
    c = draw(gen.ds_case(kinds=['vector_imu'], frames=('inst',), min_t=min_t, max_t=max_t))
    c['nan'] = draw(st.sampled_from([0, 0, 0.1]))
    c['head'] = draw(st.sampled_from(['eye', 'perm', 'rot']))
    return dict(c=c, fs=draw(st.sampled_from([4, 8, 16, 32])), af=draw(st.sampled_from([None, 0.03, 0.1, 0.3, 0, 1 / 30.])),
                vf=draw(st.sampled_from([None, None, 0.01, 0.05, 0])), earth=draw(st.booleans()),
                vec=[round(draw(st.floats(-1, 1)), 3) for _ in range(3)], aslist=draw(st.booleans()), imudim=draw(st.booleans()))


def make(m):
    ds = gen.build(m['c'], fs=m['fs'])
    ds.attrs.pop('duty_cycle_n_burst', None)
    ds.attrs['inst2head_vec'] = list(m['vec']) if m['aslist'] else np.array(m['vec'])
    if m['imudim']:
        ds = ds.assign_coords(dirIMU=('dirIMU', gen.XYZ))
        for k in ('accel', 'angrt', 'mag'):
            ds[k] = xr.DataArray(ds[k].values, dims=['dirIMU', 'time'], attrs=ds[k].attrs)
    if m['c'].get('decl') is not None:
        dolfyn.set_declination(ds, m['c']['decl'])
    return ds


def kws(m, earth=None):
    k = dict(to_earth=m['earth'] if earth is None else earth)
    if m['af'] is not None:
        k['accel_filtfreq'] = m['af']
    if m['vf'] is not None:
        k['vel_filtfreq'] = m['vf']
    return k


def rot(R, x):
    return np.einsum('ij...,j...->i...', R, x)


def lowpass(order, f, fs, x):
    b, a = ss.butter(order, f / (fs / 2))
    return np.stack([ss.filtfilt(b, a, r) for r in x])


def model(accel, om, fs, af, vf):
    """(accel, acclow, velacc) in the earth frame, from the docstring."""
    a = rot(np.swapaxes(om, 0, 1), accel)
    af = 0.03 if af is None else af
    vf = af / 3 if vf is None else vf
    low = lowpass(1, af, fs, a) if af else np.repeat(a.mean(1, keepdims=True), a.shape[1], 1)
    hp = a - low
    v = np.zeros_like(hp)
    for i in range(1, hp.shape[1]):
        v[:, i] = v[:, i - 1] + (hp[:, i] + hp[:, i - 1]) / 2 / fs
    return a, low, v - lowpass(2, vf, fs, v) if vf > 0 else v


@PROP.sub(mcase(), quick=250, shards=4)
def components(m, ctx):
    ds = make(m)
    if m['c']['seed'] % 5 == 0:       # a dataset which does not list its vectors
        ds.attrs.pop('rotate_vars')
    snap = gen.snapshot(ds)
    with quiet():
        out = correct_motion(ds, **kws(m))
    gen.assert_unchanged(snap, ds, 'correct_motion')
    ctx.nontrivial(m['c']['rough'] and m['c']['nt'] > 50)
    ctx.label('earth' if m['earth'] else 'inst', 'af=%s' % m['af'], m['c']['head'])
    om = ds['orientmat'].values.astype('f8')
    R = np.swapaxes(om, 0, 1)
    a, low, vacc = model(ds['accel'].values, om, m['fs'], m['af'], m['vf'])
    r = np.array(m['vec']) - BODY2IMU
    w = ds['angrt'].values
    vrot = np.cross(w.T, r).T
    vel = ds['vel'].values.astype('f8')
    E = (lambda x: rot(R, x)) if m['earth'] else (lambda x: x)
    I = (lambda x: x) if m['earth'] else (lambda x: rot(om, x))
    sc = max(1., np.abs(vacc).max())
    check(out.attrs['coord_sys'] == ('earth' if m['earth'] else 'inst'), 'coord_sys {}', out.attrs['coord_sys'])
    for nm, want in [('velrot', E(vrot)), ('velacc', I(vacc)), ('acclow', I(low)), ('accel', E(ds['accel'].values)),
                     ('angrt', E(w)), ('mag', E(ds['mag'].values)), ('vel_raw', E(vel)),
                     ('vel', E(vel) + E(vrot) + I(vacc))]:
        close(out[nm].values, want, 1e-4, 2e-6 * sc * (10 if nm in ('vel', 'velacc') else 1) * (100 if nm == 'acclow' else 1), nm)
    close(out['vel'].values, out['vel_raw'].values + out['velrot'].values + out['velacc'].values, 1e-5, 1e-5 * sc, 'vel = vel_raw + velrot + velacc')
    check(set(VEC_VARS) <= set(out.attrs['rotate_vars']), 'rotate_vars {}', out.attrs['rotate_vars'])
    check(len(set(out.attrs['rotate_vars'])) == len(out.attrs['rotate_vars']), 'rotate_vars has duplicates')
    check(out.attrs['motion corrected'] == 1, 'attribute')
    check(out.attrs['motion accel_filtfreq Hz'] == (0.03 if m['af'] is None else m['af']), 'recorded filter frequency')
    for nm in ds.data_vars:
        if nm not in VEC_VARS:
            check(out[nm].equals(ds[nm]), '{} changed', nm)
    raises(Exception, correct_motion, out, _what='correcting motion twice')


@PROP.sub(mcase(), quick=150, shards=4)
def frames(m, ctx):
    """Starting frame, output frame and later rotation commute."""
    m = dict(m, c=dict(m['c'], nan=0))
    ds = make(m)
    ctx.nontrivial(m['c']['rough'])
    with quiet():
        e = correct_motion(ds, **kws(m, True))
        i = correct_motion(ds, **kws(m, False))
        i2e = dolfyn.rotate2(i, 'earth', inplace=False)
        e2i = dolfyn.rotate2(e, 'inst', inplace=False)
        start = {f: correct_motion(dolfyn.rotate2(ds, f, inplace=False), **kws(m)) for f in ('earth', 'beam', 'principal')}
    ref = e if m['earth'] else i
    sc = max(1., float(np.nanmax(np.abs(e['velacc'].values))))
    for nm in VEC_VARS:
        close(i2e[nm].values, e[nm].values, 1e-4, 2e-5 * sc, nm + ': corrected in inst, then rotated to earth')
        close(e2i[nm].values, i[nm].values, 1e-4, 2e-5 * sc, nm + ': corrected in earth, then rotated to inst')
        for f, o in start.items():
            close(o[nm].values, ref[nm].values, 1e-4, 1e-4 * sc, nm + ': data given in the %s frame' % f)


@PROP.sub(st.tuples(mcase(), st.floats(-60, 60)), quick=80, shards=2)
def declination(case, ctx):
    """Declination set before or after correction: same result."""
    m, dec = case
    m = dict(m, c=dict(m['c'], decl=None))
    dec = round(dec, 2)
    ds = make(m)
    ctx.nontrivial(m['c']['rough'] and dec != 0)
    with quiet():
        after = correct_motion(ds, **kws(m))
        dolfyn.set_declination(after, dec)
        dolfyn.set_declination(ds, dec)
        before = correct_motion(ds, **kws(m))
    sc = max(1., float(np.nanmax(np.abs(before['velacc'].values))))
    for nm in VEC_VARS:
        close(after[nm].values, before[nm].values, 1e-4, 2e-5 * sc, nm + ': declination before/after')


@PROP.sub(st.tuples(seeds, st.sampled_from([16, 32]), st.floats(0.4, 0.9), st.floats(0.02, 1), st.booleans(),
                    st.floats(0, 0.3), st.floats(-180, 180)), quick=40, shards=4)
def physics(case, ctx):
    """A rigid body shaken in a steady current measures the current."""
    seed, fs, f, A, to_earth, tilt, head0 = case
    rng = rng_of(seed)
    n = fs * 900                # filter transients die out over minutes
    t = np.arange(n) / fs
    ph = rng.uniform(0, 2 * np.pi, (2, 3))
    amp = A * rng.uniform(0.2, 1, 3)
    V = amp[:, None] * np.sin(2 * np.pi * f * t + ph[0][:, None])
    acc = amp[:, None] * 2 * np.pi * f * np.cos(2 * np.pi * f * t + ph[0][:, None])
    from scipy.spatial.transform import Rotation
    ang = lambda t: np.stack([np.deg2rad(head0) + tilt * np.sin(2 * np.pi * f * t + ph[1][0]),
                              tilt * np.sin(2 * np.pi * f * t + ph[1][1]), tilt * np.sin(2 * np.pi * f * t + ph[1][2])], -1)
    rt = lambda t: Rotation.from_euler('ZYX', ang(t))
    h = 1e-4
    R = rt(t).as_matrix()
    w = ((rt(t - h).inv() * rt(t + h)).as_rotvec() / (2 * h)).T       # body rates
    vec = rng.uniform(-1, 1, 3)
    U = rng.uniform(-2, 2, 3)
    R_ = np.moveaxis(R, 0, -1)                                         # inst -> earth
    vhead = V + rot(R_, np.cross(w.T, vec - BODY2IMU).T)
    c = dict(kind='vector_imu', seed=seed, nt=n, nr=1, frame='inst', rough=False, nan=0, tilt=0, scale=1., phead=0., extra=False,
             down='none', head='eye')
    ds = gen.build(c, fs=fs)
    ds.attrs.pop('duty_cycle_n_burst', None)
    ds.attrs['inst2head_vec'] = vec
    ds['orientmat'].values[:] = np.swapaxes(R_, 0, 1)
    back = lambda x: rot(np.swapaxes(R_, 0, 1), x)
    ds['accel'].values[:] = back(acc + np.array([0, 0, 9.81])[:, None])
    ds['angrt'].values[:] = w
    ds['vel'].values[:] = back(U[:, None] - vhead)
    with quiet():
        out = correct_motion(ds, to_earth=to_earth)
        if not to_earth:
            dolfyn.rotate2(out, 'earth', inplace=True)
    mid = slice(n // 3, 2 * n // 3)
    err = np.abs(out['vel'].values[:, mid] - U[:, None]).max()
    ctx.nontrivial(tilt > 0.01)
    ctx.label('rotating' if tilt > 0.01 else 'translating')
    check(err < 0.08 * A + 0.002, 'steady current not recovered: error {} for a motion of {} m/s', err, A)


@PROP.sub(st.tuples(mcase(40, 40), st.integers(20, 60), st.integers(1, 4), st.sampled_from([60, 600, 3600])), quick=120, shards=2)
def duty_cycle(case, ctx):
    """Bursts are corrected one by one."""
    m, nb, k, interval = case
    m = dict(m, c=dict(m['c'], nt=nb * (k + 1)))
    ds = make(m)
    fs = m['fs']
    t = np.concatenate([j * interval + np.arange(nb) / fs for j in range(k + 1)])
    ds = ds.assign_coords(time=('time', np.datetime64('2020-01-01', 'ns') + np.round(t * 1e9).astype('timedelta64[ns]')))
    cyc = ds.copy(deep=True)
    cyc.attrs['duty_cycle_n_burst'] = nb
    cyc.attrs['duty_cycle_interval'] = interval
    ctx.nontrivial(k > 0)
    with quiet():
        got = correct_motion(cyc, **kws(m))
        parts = [correct_motion(ds.isel(time=slice(j * nb, (j + 1) * nb)), **kws(m)) for j in range(k + 1)]
    sc = max(1., float(np.abs(got['velacc'].values).max()))
    for nm in VEC_VARS:
        want = np.concatenate([p[nm].values for p in parts], -1)
        close(got[nm].values, want, 1e-5, 1e-5 * sc, nm + ' of duty-cycled data')


@PROP.sub(mcase(), quick=120)
def calculator(m, ctx):
    """CalcMotion.calc_velrot: omega x r for one or several points."""
    ds = make(m)
    rng = rng_of(m['c']['seed'], 8)
    with quiet():
        calc = CalcMotion(ds, to_earth=m['earth'])
        pts = rng.normal(0, 1, (3, 4))
        many = calc.calc_velrot(pts)
        zero = calc.calc_velrot(BODY2IMU.copy())
    R = np.swapaxes(ds['orientmat'].values, 0, 1)
    ctx.nontrivial(m['c']['rough'])
    close(zero, np.zeros((3, m['c']['nt'])), 0, 1e-12, 'rotation-induced velocity at the IMU itself')
    for k in range(4):
        with quiet():
            one = calc.calc_velrot(pts[:, k])
            other = calc.calc_velrot(pts[:, k], to_earth=not m['earth'])
        w = np.cross(ds['angrt'].values.T, pts[:, k] - BODY2IMU).T
        we = rot(R, w)
        close(one, we if m['earth'] else w, 1e-6, 1e-9, 'calc_velrot')
        close(other, w if m['earth'] else we, 1e-6, 1e-9, 'calc_velrot, other frame')
        close(many[:, k], one, 1e-12, 1e-12, 'calc_velrot of several points')


@PROP.sub(mcase(), quick=60)
def stored_settings(m, ctx):
    """Filter frequencies recorded in the dataset are the defaults; the ones given win; data in the earth frame."""
    ds = make(m)
    rng = rng_of(m['c']['seed'], 12)
    af, vf = float(rng.choice([0.05, 0.2, 0.4])), [None, 0.02, 0.06][int(rng.integers(3))]
    ctx.nontrivial(m['c']['rough'])
    rec = ds.copy(deep=True)
    rec.attrs['motion accel_filtfreq Hz'] = af
    given = dict(accel_filtfreq=af)
    if vf is not None:
        rec.attrs['motion vel_filtfreq Hz'] = vf
        given['vel_filtfreq'] = vf
    with quiet():
        pairs = [(correct_motion(rec, to_earth=m['earth']), correct_motion(ds, to_earth=m['earth'], **given), 'recorded')]
        if m['af'] is not None:
            k = kws(m)
            if vf is not None:
                k.setdefault('vel_filtfreq', vf)
            pairs.append((correct_motion(rec, **kws(m)), correct_motion(ds, **k), 'given over recorded'))
    for got, want, what in pairs:
        sc = max(1., float(np.nanmax(np.abs(want['velacc'].values))))
        for nm in ('vel', 'velacc', 'acclow', 'velrot'):
            close(got[nm].values, want[nm].values, 1e-6, 1e-7 * sc, '{} with {} filter frequencies'.format(nm, what))
        check(got.attrs['motion accel_filtfreq Hz'] == want.attrs['motion accel_filtfreq Hz'], 'recorded frequency')
    with quiet():
        earth = dolfyn.rotate2(ds, 'earth', inplace=False)
        k = kws(m)
        k.pop('to_earth')
        one, two = CalcMotion(ds, **k), CalcMotion(earth, **k)
        va, vb = one.calc_velacc(), two.calc_velacc()
    sc = max(1., float(np.nanmax(np.abs(va))))
    close(vb, va, 1e-4, 1e-5 * sc, 'calc_velacc of data in the earth frame')
    close(two.accel, one.accel, 1e-5, 1e-5 * max(1., np.abs(one.accel).max()), 'acceleration of data in the earth frame')


@PROP.sub(st.tuples(mcase(), st.sampled_from(['nan accel', 'nan angrt', 'flag', 'velrot', 'no imu', 'matrix not set', 'bad matrix'])), quick=60)
def rejected(case, ctx):
    m, what = case
    ds = make(m)
    ctx.nontrivial()
    ctx.label(what)
    i = m['c']['seed'] % m['c']['nt']
    if what.startswith('nan'):
        ds[what[4:]].values[i % 3, i] = np.nan
    elif what == 'flag':
        ds.attrs['motion corrected'] = 1
    elif what == 'velrot':
        ds['velrot'] = ds['vel'] * 0
    elif what == 'no imu':
        ds = ds.drop_vars('accel')
    else:
        if what == 'matrix not set':
            ds.attrs['inst2head_rotmat_was_set'] = 0
        else:
            ds['inst2head_rotmat'] = ds['inst2head_rotmat'] * 1.1
    raises(Exception, correct_motion, ds, _what='correct_motion (%s)' % what)


def probes(vec, rmat):
    r, phi = 0.076, np.deg2rad(-30)
    th = np.deg2rad([0., 120., 240.])
    return rmat.T @ np.array([r * np.cos(th), r * np.sin(th), r * np.tan(phi) * np.ones(3)]) + np.array(vec)[:, None]


def sep_ref(vrot, rmat, T, listed):
    """vrot (component, probe, time) -> velocity the three probes see, inst frame."""
    if listed:                       # known finding P20/separate_probes
        head = np.einsum('ik,jkt->ijt', rmat, vrot)
    else:
        head = np.einsum('ij,jkt->ikt', rmat, vrot)
    beam = np.einsum('ij,jkt->ikt', np.linalg.inv(T), head)
    own = np.stack([beam[i, i] for i in range(3)])
    return rmat.T @ (T @ own)


def sep_setup(m):
    ds = make(m)
    rm, T = ds['inst2head_rotmat'].values, ds['beam2inst_orientmat'].values
    pos = probes(m['vec'], rm) - BODY2IMU[:, None]
    w = ds['angrt'].values
    v = np.stack([np.cross(w.T, pos[:, k]).T for k in range(3)], 1)
    return ds, rm, T, v


@PROP.sub(mcase(), quick=120, shards=2)
def separate(m, ctx):
    m = dict(m, c=dict(m['c'], nan=0))
    ds, rm, T, v = sep_setup(m)
    with quiet():
        one = correct_motion(ds, **kws(m, False))
        sep = correct_motion(ds, separate_probes=True, **kws(m, False))
        sepe = dolfyn.rotate2(correct_motion(ds, separate_probes=True, **kws(m, True)), 'inst', inplace=False)
    ctx.nontrivial(m['c']['rough'])
    right, listed = sep_ref(v, rm, T, False), sep_ref(v, rm, T, True)
    g = sep['velrot'].values
    if not np.allclose(g, right, rtol=1e-4, atol=1e-5):
        close(g, listed, 1e-4, 1e-5, 'velrot of separate probes')
    close(sepe['velrot'].values, g, 1e-4, 1e-4, 'velrot of separate probes, through the earth frame')
    close(sep['velacc'].values, one['velacc'].values, 1e-6, 1e-6, 'velacc')
    close(sep['vel'].values, sep['vel_raw'].values + g + sep['velacc'].values, 1e-4, 1e-4, 'vel')


DEMO = dict(c=dict(kind='vector_imu', seed=4, nt=80, nr=1, frame='inst', rough=True, nan=0, tilt=15, scale=1., phead=0., extra=False,
                   down='none', head='rot'), fs=8, af=None, vf=None, earth=False, vec=[0.4, 0.1, -0.2], aslist=False, imudim=False)


@PROP.finding('separate_probes')
def sep_demo():
    ds, rm, T, v = sep_setup(DEMO)
    with quiet():
        g = correct_motion(ds, to_earth=False, separate_probes=True)['velrot'].values
    close(g, sep_ref(v, rm, T, False), 1e-4, 1e-5, 'velrot of separate probes')


@PROP.finding('duty_partial')
def duty_demo():
    ds = make(DEMO)
    ds.attrs.update(duty_cycle_n_burst=30, duty_cycle_interval=30 / 8)
    with quiet():
        correct_motion(ds)


@PROP.finding('duty_interval')
def duty_interval_demo():
    ds = make(DEMO)
    ds.attrs.update(duty_cycle_n_burst=20, duty_cycle_interval=600)      # it is 2.5 s
    raises(Exception, correct_motion, ds, _what='a duty cycle that the time stamps contradict')
