"""P18 ADCP cleaning."""
from vlib.core import Prop, check, close, raises, quiet, Violation
from vlib import gen
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation
import dolfyn
from dolfyn.adp import clean
from dolfyn.tools.misc import medfiltnan
from dolfyn.rotate.base import quaternion2orient

PROP = Prop('P18', 'the operation changes some samples and leaves others')
T0 = np.datetime64('2020-01-01', 'ns')


def tco(n, fs=2):
    return T0 + (np.arange(n) * (1e9 / fs)).astype('timedelta64[ns]')


# ------------------------------------------------------------ range offset
@PROP.sub(st.tuples(seeds, st.lists(st.sampled_from([0.6, 1.0, 2.25, -0.5, 0.1]), min_size=1, max_size=3),
                    st.sets(st.sampled_from(['range', 'range_b5', 'range_avg', 'range_echo']), min_size=1)), quick=120)
def range_offset(case, ctx):
    seed, hs, names = case
    rng = rng_of(seed)
    co, v = {'time': tco(3)}, {}
    for nm in sorted(names):
        co[nm] = 0.7 + 0.5 * np.arange(int(rng.integers(1, 6)))
        v['v_' + nm] = ((nm, 'time'), rng.normal(0, 1, (len(co[nm]), 3)))
    ds = xr.Dataset({k: xr.DataArray(a, dims=d) for k, (d, a) in v.items()}, coords=co)
    old = ds.copy(deep=True)
    for h in hs:
        clean.set_range_offset(ds, h)
    ctx.nontrivial(len(hs) > 1 or len(names) > 1)
    for nm in names:
        close(ds[nm].values, old[nm].values + sum(hs), 1e-9, 1e-9, nm)
        check(ds[nm].attrs.get('units') == 'm', 'units')
        close(ds['v_' + nm].values, v['v_' + nm][1], 0, 0, 'data on ' + nm)
    close(ds.attrs['h_deploy'], sum(hs), 1e-9, 1e-9, 'h_deploy')
    check((ds.time.values == old.time.values).all(), 'time')


# ---------------------------------------------------------------- pressure
@PROP.sub(st.tuples(seeds, now_and_then(st.integers(1, 6), [100, 900]), st.sampled_from([None, 0, 30, 35.5]), st.sampled_from([None, 0.6, -2.0])), quick=200)
def pressure_depth(case, ctx):
    seed, n, sal, h = case
    rng = rng_of(seed)
    P, T = rng.uniform(0, 100, n).astype('f4'), rng.uniform(-2, 30, n).astype('f4')
    if seed % 3 == 0:       # (partly) out of the water, or without a value
        P[rng.random(n) < .4] *= -.01
        P[rng.random(n) < .2], T[rng.random(n) < .1] = np.nan, np.nan
    ds = xr.Dataset({'pressure': ('time', P), 'temp': ('time', T)}, coords={'time': tco(n)})
    if h is not None:
        ds.attrs['h_deploy'] = h
    snap = gen.snapshot(ds)
    clean.find_surface_from_P(ds, **({} if sal is None else {'salinity': sal}))
    S = 35 if sal is None else sal
    P, T = P.astype('f8'), T.astype('f8')
    rho = 1027 - 0.15 * (T - 10) + 0.78 * (S - 35) + 4.5e-3 * P
    ctx.nontrivial(n > 1)
    close(ds.water_density.values, rho, 1e-6, 0, 'water density')
    close(ds['depth'].values, P * 1e4 / (9.81 * rho) + (h or 0), 1e-5, 1e-5, 'depth')
    check(ds['depth'].dims == ('time',), 'dims')
    gen.assert_unchanged(snap, ds.drop_vars(['depth', 'water_density']), 'find_surface_from_P')


# ------------------------------------------------------------ find_surface
@st.composite
def echo_case(draw):
    nt = draw(now_and_then(st.integers(1, 30), [130, 600]))
    return dict(seed=draw(seeds), nb=draw(st.integers(1, 5)), nr=draw(st.integers(4, 30) | st.sampled_from([256, 257, 300])),
                nt=nt, nfilt=draw(st.sampled_from([None, None, 3, 5])), thresh=draw(st.sampled_from([None, 5, 10, 200])),
                rnd=draw(st.booleans()))


@PROP.sub(echo_case(), quick=300)
def surface(c, ctx):
    rng = rng_of(c['seed'])
    nb, nr = c['nb'], c['nr']
    nt = max(c['nt'], nr) if nr < 40 else c['nt'] + nr      # fewer pings than cells: known finding
    rngc = 0.5 + 0.5 * np.arange(nr)
    true = rng.integers(2, nr - 1, nt)
    if c['rnd']:
        amp = rng.integers(0, 255, (nb, nr, nt)).astype('u1')
    else:                       # decay away from the transducer, peak at the boundary, decay beyond
        i = np.arange(nr)[None, :, None]
        amp = 90 - 60. * i / nr + 110 * (i == true) - (i > true) * 5 + 0 * rng.random((nb, 1, 1))
        amp = np.broadcast_to(amp, (nb, nr, nt)).astype('u1').copy()
    ds = xr.Dataset({'amp': (('beam', 'range', 'time'), amp), 'vel': (('dir', 'range', 'time'), rng.normal(0, 1, (3, nr, nt)))},
                    coords={'time': tco(nt), 'range': rngc})
    snap = gen.snapshot(ds)
    kw = {} if c['thresh'] is None else {'thresh': c['thresh']}
    one = ds.copy(deep=True)
    clean.find_surface(one, **kw)
    d = one['depth'].values.astype('f8')
    th = c['thresh'] or 10
    A = amp.astype(int)
    want = np.empty(nt)
    listed = np.zeros(nt, bool)
    for t in range(nt):
        pk, turn = [], []
        for b in range(nb):
            a = A[b, :, t]
            pk.append(rngc[int(np.argmax(a))])
            k = max([j for j in range(nr - 1) if a[j + 1] < a[j]], default=0)
            turn.append(rngc[k + 1])
        want[t] = np.median(pk + turn)
        # known finding P18/surface_thresh: only the first nr pings are screened,
        # using beams from the peak's cell number on
        first = min(int(np.argmax(A[b, :, t])) for b in range(nb))
        listed[t] = t < nr and bool((np.diff(A[:, :, t], axis=1)[first:] < th).all())
    grow = (np.diff(A, axis=1) >= th).any((0, 1))
    got_nan = np.isnan(d)
    check(not (got_nan & ~listed & grow).any(), 'pings {} have a surface echo but no depth', np.where(got_nan & ~listed & grow)[0])
    ok = ~got_nan
    check(ok[~listed & grow].all(), 'missing depth')
    close(d[ok], want[ok], 1e-5, 0, 'distance to the boundary')
    check(one['depth'].dims == ('time',), 'dims')
    gen.assert_unchanged(snap, one.drop_vars('depth'), 'find_surface')
    ctx.nontrivial(ok.any())
    ctx.label('more than 256 cells' if nr > 256 else '', 'filtered' if c['nfilt'] else '')
    if c['nfilt'] and nt > c['nfilt']:
        two = ds.copy(deep=True)
        clean.find_surface(two, nfilt=c['nfilt'], **kw)
        f = medfiltnan(np.where(got_nan, np.nan, want), c['nfilt'], thresh=4)
        f[f == 0] = np.nan
        close(two['depth'].values, f, 1e-5, 0, 'median-filtered depth')


@PROP.finding('surface_thresh')
def surface_demo():
    """A clear boundary echo in every ping, in few or many pings."""
    for nt in (5, 30):
        i = np.arange(20)[None, :, None]
        amp = np.broadcast_to(90 - 3. * i + 110 * (i == 12), (4, 20, nt)).astype('u1')
        ds = xr.Dataset({'amp': (('beam', 'range', 'time'), amp), 'vel': (('dir', 'range', 'time'), np.zeros((4, 20, nt)))},
                        coords={'time': tco(nt), 'range': 0.5 + 0.5 * np.arange(20)})
        clean.find_surface(ds)
        check(np.isfinite(ds['depth'].values).all(), 'no depth for pings {}', np.where(np.isnan(ds['depth'].values))[0])


# ------------------------------------------------------ nan_beyond_surface
@st.composite
def beyond_case(draw):
    return dict(seed=draw(seeds), nt=draw(now_and_then(st.integers(1, 8), [60, 600])), nr=draw(now_and_then(st.integers(1, 15), [40, 120])), b5=draw(st.sampled_from([None, 'same', 'other'])),
                echo=draw(st.booleans()), h=draw(st.sampled_from([None, 0.6])), val=draw(st.sampled_from([None, None, -99.])),
                angle=draw(st.sampled_from(['attr', 'attr', 'arg'])), theta=draw(st.sampled_from([20, 25, 30])),
                inplace=draw(st.booleans()), nand=draw(st.booleans()))


@PROP.sub(beyond_case(), quick=400, shards=2)
def beyond(c, ctx):
    rng = rng_of(c['seed'])
    nt, nr = c['nt'], c['nr']
    z = 0.7 + 0.5 * np.arange(nr)
    co = {'time': tco(nt), 'range': z}
    depth = rng.uniform(0.5, 0.7 + 0.5 * nr + 1, nt)
    if c['nand']:
        depth[rng.random(nt) < 0.3] = np.nan
    v = {'vel': (('dir', 'range', 'time'), rng.normal(0, 1, (4, nr, nt))),
         'amp': (('beam', 'range', 'time'), rng.integers(1, 200, (4, nr, nt)).astype('u1')),
         'corr': (('beam', 'range', 'time'), rng.integers(1, 100, (4, nr, nt)).astype('u1')),
         'heading': (('time',), rng.uniform(0, 360, nt)), 'depth': (('time',), depth.astype('f4'))}
    if c['b5']:
        n5 = nr if c['b5'] == 'same' else nr + 3
        co['range_b5'] = z if c['b5'] == 'same' else 0.4 + 0.3 * np.arange(n5)
        co['time_b5'] = co['time']
        v['vel_b5'] = (('range_b5', 'time_b5'), rng.normal(0, 1, (n5, nt)))
        v['amp_b5'] = (('range_b5', 'time_b5'), rng.integers(1, 200, (n5, nt)).astype('f4'))
    if c['echo']:
        co['range_echo'] = 0.1 * np.arange(1, 40)
        co['time_echo'] = co['time']
        v['echo'] = (('range_echo', 'time_echo'), rng.normal(0, 1, (39, nt)))
    ds = xr.Dataset({k: xr.DataArray(a, dims=d) for k, (d, a) in v.items()}, coords=co, attrs={'cell_size': 0.5, 'x': 'y'})
    th = c['theta']
    kw = {}
    if c['angle'] == 'attr':
        ds.attrs['beam_angle'] = th
    else:
        kw['beam_angle'] = th
    if c['val'] is not None:
        kw['val'] = c['val']
    if c['h'] is not None:
        ds.attrs['h_deploy'] = c['h']
    snap = gen.snapshot(ds)
    work = ds.copy(deep=True)
    out = clean.nan_beyond_surface(work, inplace=c['inplace'], **kw)
    if c['inplace']:
        check(out is None, 'inplace returns nothing')
        out = work
    else:
        gen.assert_unchanged(snap, work, 'nan_beyond_surface')
    check(set(out.variables) == set(ds.variables) and out.attrs == ds.attrs, 'variables or attributes changed')
    h = c['h'] or 0.
    dep = ds['depth'].values.astype('f8')

    def limit(a):
        return (dep - h) * np.cos(a) - 0.5 + h
    lims = [limit(np.deg2rad(th))]
    if c['angle'] == 'arg':
        lims.append(limit(th))                     # known finding P18/beam_angle_arg

    def expect(lim):
        res, near = {}, {}
        for k, (d, a) in v.items():
            zk = [q for q in d if q.startswith('range')]
            if not zk:
                res[k], near[k] = a, None
                continue
            L = dep if k == 'echo' else lim
            with np.errstate(invalid='ignore'):
                m = co[zk[0]][:, None] > L
                near[k] = np.abs(co[zk[0]][:, None] - L) < 1e-5
            w = a.copy()
            if a.dtype.kind == 'f':
                w[..., m] = np.nan if c['val'] is None else c['val']
            elif c['val'] is None:
                w[..., m] = 0
            else:
                w = a.astype('f8')
                w[..., m] = c['val']
            res[k] = w
        return res, near
    last = None
    for lim in lims:
        res, near = expect(lim)
        last = None
        for k in res:
            g, w = out[k].values, res[k]
            if near[k] is not None and near[k].any():
                continue
            if c['val'] is not None and v[k][1].dtype.kind == 'u':
                g, w = g[w >= 0], w[w >= 0]        # how -99 is stored in unsigned data is not specified
            if not np.array_equal(np.asarray(g, 'f8'), np.asarray(w, 'f8'), equal_nan=True):
                last = k
                break
        if last is None:
            break
    check(last is None, 'nan_beyond_surface: wrong cells of {} masked (limits {})', last, lims[0])
    ctx.nontrivial(np.isnan(out.vel.values).any() and np.isfinite(out.vel.values).any())
    ctx.label(c['angle'], str(c['b5']), 'echo' if c['echo'] else '')
    if c['angle'] == 'attr':
        ds.attrs.pop('beam_angle')
        raises(Exception, clean.nan_beyond_surface, ds, _what='nan_beyond_surface without a beam angle')


@PROP.finding('beam_angle_arg')
def angle_demo():
    nr = 20
    ds = xr.Dataset({'vel': (('dir', 'range', 'time'), np.ones((4, nr, 1))), 'depth': (('time',), [10.])},
                    coords={'time': tco(1), 'range': 0.5 + 0.5 * np.arange(nr)}, attrs={'cell_size': 0.5})
    a = clean.nan_beyond_surface(ds, beam_angle=20)
    ds.attrs['beam_angle'] = 20
    b = clean.nan_beyond_surface(ds)
    close(a.vel.values, b.vel.values, 0, 0, 'beam_angle=20 given as argument and as attribute')


# ------------------------------------------------------ correlation filter
@PROP.sub(st.tuples(gen.ds_case(kinds=['sig', 'sig_ahrs', 'rdi'], frames=('inst',), max_t=6, max_r=5),
                    st.sampled_from(['beam', 'inst', 'earth', 'principal']), st.sampled_from([None, 0, 30, 50, 90, 49.5]),
                    st.sampled_from(['u1', 'f4']), st.booleans()), quick=300, shards=2)
def correlation(case, ctx):
    c, frame, th, dt, inplace = case
    c = dict(c, nan=0)
    ds = gen.build(c)
    if c['kind'] == 'rdi' and frame in ('earth', 'principal'):
        pass
    rng = rng_of(c['seed'], 9)
    shp = ds.vel.shape
    for nm, s in [('corr', shp), ('amp', shp)] + ([('corr_b5', shp[1:]), ('amp_b5', shp[1:])] if 'vel_b5' in ds else []):
        dims = ('beam', 'range', 'time') if len(s) == 3 else ('range_b5', 'time_b5')
        ds[nm] = xr.DataArray(rng.integers(1, 100, s).astype(dt), dims=dims, attrs={'units': '%'})
    if c.get('decl') is not None:
        dolfyn.set_declination(ds, c['decl'])
    with quiet():
        ds = dolfyn.rotate2(ds, frame, inplace=False)
        bm = dolfyn.rotate2(ds, 'beam', inplace=False)
    snap = gen.snapshot(ds)
    work = ds.copy(deep=True)
    kw = {} if th is None else {'thresh': th}
    with quiet():
        out = clean.correlation_filter(work, inplace=inplace, **kw)
    if inplace:
        check(out is None, 'inplace returns nothing')
        out = work
    else:
        gen.assert_unchanged(snap, work, 'correlation_filter')
    check(out.attrs['coord_sys'] == frame, 'frame {} became {}', frame, out.attrs['coord_sys'])
    T = 50 if th is None else th
    want = bm.copy(deep=True)
    hit = False
    for tg in ['', '_b5'] if 'vel_b5' in ds else ['']:
        m = ds['corr' + tg].values <= T
        hit = hit or (m.any() and not m.all())
        want['vel' + tg].values[m] = np.nan
        for nm in ('corr', 'amp'):
            w = ds[nm + tg].values.copy()
            w[m] = np.nan if dt == 'f4' else 0
            close(out[nm + tg].values, w, 0, 0, nm + tg)
    with quiet():
        want = dolfyn.rotate2(want, frame, inplace=False)
    for nm in ds.data_vars:
        if nm.startswith('vel'):
            close(out[nm].values, want[nm].values, 1e-6, 1e-6, nm)
        elif not nm.startswith(('corr', 'amp')) and ds[nm].dtype.kind == 'f':
            close(out[nm].values, ds[nm].values, 1e-4, 1e-4, nm)
    ctx.nontrivial(hit)
    ctx.label(c['kind'], frame)


# --------------------------------------------------------- median filtering
def medwin(x, k):
    p = np.concatenate([np.zeros(k // 2), x, np.zeros(k // 2)])
    return np.array([np.median(p[i:i + k]) for i in range(len(x))])


@PROP.sub(st.tuples(gen.ds_case(kinds=['sig', 'sig_ahrs', 'rdi'], min_t=3, max_t=20, max_r=2), st.sampled_from([None, 1, 3, 5, 7])), quick=200)
def orient(case, ctx):
    c, k = case
    c = dict(c, rough=True, nt=max(c['nt'], (k or 7) + 1))     # zero padding swamps shorter records
    ds = gen.build(c)
    rng = rng_of(c['seed'], 3)
    imu = c['kind'] == 'sig_ahrs'
    nt = c['nt']
    ds.attrs['has_imu'] = int(imu)
    if imu:
        q = Rotation.from_euler('zyx', rng.normal(0, 0.2, (nt, 3))).as_quat()[:, [3, 0, 1, 2]].T
        ds['quaternions'] = xr.DataArray(q, dims=['q', 'time'], coords={'q': list('wxyz')})
    snap = gen.snapshot(ds)
    with quiet():
        out = clean.medfilt_orient(ds, **({} if k is None else {'nfilt': k}))
    gen.assert_unchanged(snap, ds, 'medfilt_orient')
    K = k or 7
    ctx.nontrivial(K > 1 and nt > K)
    ctx.label('quaternions' if imu else 'heading/pitch/roll')
    if imu:
        fq = np.stack([medwin(r, K) for r in q])
        close(out.quaternions.values, fq, 1e-9, 1e-12, 'quaternions')
        # (quaternion2orient itself is P04's subject)
        close(out['orientmat'].values, quaternion2orient(out.quaternions).values, 1e-12, 1e-12, 'orientation matrix')
    else:
        for nm in ('heading', 'pitch', 'roll'):
            close(out[nm].values, medwin(ds[nm].values, K), 1e-6, 1e-6, nm)
        check('orientmat' not in out, 'the stale orientation matrix was kept')
    for nm in ds.data_vars:
        if nm not in ('heading', 'pitch', 'roll', 'orientmat', 'quaternions'):
            check(out[nm].identical(ds[nm]), '{} changed', nm)


# --------------------------------------------------------------- threshold
@PROP.sub(st.tuples(seeds, st.integers(1, 3), st.sampled_from([None, 0.5, 1, 3]), st.sampled_from([None, 0., -9.]), st.sampled_from([0, 0.2])), quick=150)
def exceeds(case, ctx):
    seed, nd, th, val, nan = case
    rng = rng_of(seed)
    a = rng.normal(0, 2 * (th or 5), [3, 4, 6][-nd:])
    a.ravel()[0] = th or 5                         # on the limit: kept
    a[rng.random(a.shape) < nan] = np.nan
    v = xr.DataArray(a, dims=['dir', 'range', 'time'][-nd:], attrs={'units': 'm s-1'})
    keep = v.copy(deep=True)
    kw = {}
    if th is not None:
        kw['thresh'] = th
    if val is not None:
        kw['val'] = val
    out = clean.val_exceeds_thresh(v, **kw)
    check(v.identical(keep), 'val_exceeds_thresh changed its input')
    with np.errstate(invalid='ignore'):
        m = np.abs(a) > (th or 5)
    ctx.nontrivial(m.any() and not m.all())
    close(out.values, np.where(m, np.nan if val is None else val, a), 0, 0, 'val_exceeds_thresh')
    check(out.attrs == v.attrs and out.dims == v.dims, 'attributes')


# ---------------------------------------------------------------- gap fill
@PROP.sub(st.tuples(seeds, now_and_then(st.integers(8, 30), [100, 500]), st.lists(st.tuples(st.integers(0, 29) | st.integers(30, 499), st.integers(1, 5)), max_size=4),
                    st.sampled_from(['time', 'depth']), st.sampled_from([None, 'linear', 'linear', 'cubic', 'nearest']),
                    st.sampled_from([None, None, 1, 2, 4]), st.booleans(), st.booleans()), quick=300)
def fillgaps(case, ctx):
    seed, n, segs, axis, method, maxgap, b5, jit = case
    rng = rng_of(seed)
    m_other = 3
    t = np.arange(n) / 2.
    if jit and axis == 'time':
        t = t + rng.uniform(-0.2, 0.2, n)
    t = np.round(t, 9)
    pos = t if axis == 'time' else np.arange(n)
    s = (pos - pos[0]) / (pos[-1] - pos[0])
    meth = method or 'cubic'
    if meth == 'cubic':
        u = sum(rng.normal(0, 1, (2, m_other, 1)) * s ** k for k in range(4))
    else:
        u = rng.normal(0, 1, (2, m_other, n))
    truth = u.copy()
    bad = np.zeros(u.shape, bool)
    for j, (a, L) in enumerate(segs):
        bad[j % 2, :, a:a + L] = True
        bad[:, j % 3, a:a + L] = True
    if meth == 'cubic' and ((~bad).sum(-1) < 6).any():
        return
    u[bad] = np.nan
    sfx = '_b5' if b5 else ''
    if axis == 'time':
        v = xr.DataArray(u, dims=['dir', 'range' + sfx, 'time' + sfx],
                         coords={'range' + sfx: np.arange(m_other) * 0.5 + 1, 'time' + sfx: T0 + (t * 1e9).astype('timedelta64[ns]')})
    else:
        v = xr.DataArray(np.swapaxes(u, 1, 2), dims=['dir', 'range' + sfx, 'time' + sfx],
                         coords={'range' + sfx: np.arange(n) * 0.5 + 1, 'time' + sfx: tco(m_other)})
    keep = v.copy(deep=True)
    kw = {}
    if method:
        kw['method'] = method
    if maxgap:
        kw['maxgap'] = maxgap
    with quiet():
        out = (clean.fillgaps_time if axis == 'time' else clean.fillgaps_depth)(v, **kw)
    check(v.identical(keep), 'gap filling changed its input')
    check(out.dims == v.dims and out.shape == v.shape, 'shape')
    g = out.values if axis == 'time' else np.swapaxes(out.values, 1, 2)
    ctx.nontrivial(bad.any())
    ctx.label(axis, meth)
    close(g[~bad], truth[~bad], 0, 0, 'samples that were not missing')
    mg = maxgap or n
    for i in range(2):
        for k in range(m_other):
            b = bad[i, k]
            if b.all():
                check(np.isnan(g[i, k]).all(), 'made-up data')
                continue
            j = 0
            while j < n:
                if not b[j]:
                    j += 1
                    continue
                e = j
                while e < n and b[e]:
                    e += 1
                x = g[i, k, j:e]
                if j == 0 or e == n:
                    check(np.isnan(x).all(), 'extrapolated')
                else:
                    ok = np.isfinite(x)
                    y0, y1 = truth[i, k, j - 1], truth[i, k, e]
                    if meth == 'linear':
                        w = y0 + (pos[j:e] - pos[j - 1]) / (pos[e] - pos[j - 1]) * (y1 - y0)
                        close(x[ok], w[ok], 1e-4, 5e-5, 'linear interpolation over ' + axis)
                    elif meth == 'cubic':
                        close(x[ok], truth[i, k, j:e][ok], 1e-3, 1e-3, 'cubic interpolation over ' + axis)
                    else:
                        check(np.isin(x[ok], [y0, y1]).all(), 'nearest')
                    if e - j <= mg:
                        check(ok.all(), 'a gap of {} <= maxgap {} was not filled', e - j, maxgap)
                    else:
                        check(not ok[mg:].any(), 'a gap of {} > maxgap {} was filled', e - j, maxgap)
                j = e
