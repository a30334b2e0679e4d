"""P19 ADCP shear, stresses, structure function and friction velocity."""
from vlib import history
from vlib.core import Prop, check, close, raises, quiet, Violation
from vlib import gen
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from dolfyn.adp.api import ADPBinner

PROP = Prop('P19', 'more than one ensemble and more than one depth cell')


def bins_of(x, n):
    nb = x.shape[-1] // n
    return x[..., :nb * n].reshape(x.shape[:-1] + (nb, n))


# ------------------------------------------------------------------- shear
@PROP.sub(st.tuples(seeds, now_and_then(st.integers(3, 12), [40, 100]), now_and_then(st.integers(1, 5), [50, 300]), st.sampled_from([0.1, 0.25, 0.5, 1, 4]),
                    st.sampled_from(['first', 'centered', 'centered_extended', None]),
                    st.sampled_from(['up', 'down', None]), st.sampled_from(['up', 'down', None]),
                    st.sampled_from(['f4', 'f8'])), quick=300)
def shear(case, ctx):
    seed, nr, nt, dz, style, o_ctor, o_arg, dt = case
    rng = rng_of(seed)
    z = 0.7 + dz * np.arange(nr)
    v = np.cumsum(rng.normal(0, 0.2, (3, nr, nt)), 1).astype(dt)
    if seed % 3 == 0:
        v[rng.random(v.shape) < 0.1] = np.nan
    time = np.datetime64('2020-01-01', 'ns') + np.arange(nt) * np.timedelta64(600, 's')
    vel = xr.DataArray(v, dims=['dir', 'range', 'time'], coords={'dir': list('ENU'), 'range': z, 'time': time})
    kw = {}
    if style:
        kw['diff_style'] = style
    if o_ctor:
        kw['orientation'] = o_ctor
    b = ADPBinner(n_bin=10, fs=1, **kw)
    x = v.astype('f8')
    first = (x[:, 1:] - x[:, :-1]) / dz
    cent = (x[:, 2:] - x[:, :-2]) / (2 * dz)
    want, zz = {'first': (first, z[1:]), 'centered': (cent, z[1:-1])}.get(
        style, (np.concatenate([first[:, :1], cent, first[:, -1:]], 1), z))
    sgn = -1 if (o_arg or o_ctor or 'up') == 'down' else 1
    ctx.nontrivial(nt > 1)
    ctx.label(style, 'down' if sgn < 0 else 'up')
    keep = vel.copy(deep=True)
    got = [b.calc_dudz(vel, o_arg) if o_arg else b.calc_dudz(vel), b.calc_dvdz(vel), b.calc_dwdz(vel)]
    tol = 1e-9 if dt == 'f8' else 2e-5 / dz
    for k, g in enumerate(got):
        nm = ['dudz', 'dvdz', 'dwdz'][k]
        check(g.dims == ('range', 'time'), nm + ' dims {}', g.dims)
        close(g.values, want[k] * (sgn if k == 0 else 1), 1e-5 if dt == 'f4' else 1e-9, tol, nm)
        close(g.range.values, zz, 1e-12, 0, nm + ' range')
        check((g.time.values == time).all(), nm + ' time')
    close(b.calc_shear2(vel).values, want[0] ** 2 + want[1] ** 2, 1e-4 if dt == 'f4' else 1e-8, tol, 'shear squared')
    check(vel.identical(keep), 'the velocity was changed')
    # metamorphic: a linear profile has the same shear everywhere
    lin = vel.copy(data=np.broadcast_to((0.3 * z)[None, :, None], v.shape).copy())
    close(b.calc_dvdz(lin).values, np.full((len(zz), nt), 0.3), 1e-9, 1e-9, 'shear of a linear profile')


# ------------------------------------------------------------------ stress
@st.composite
def stress_case(draw, kinds):
    c = draw(gen.ds_case(kinds=kinds, frames=('inst',), min_t=12, max_t=60, max_r=4, decl=False))
    c['convex'] = True
    c['nan'] = 0
    c['b5'] = True
    c['bt'] = c['extra'] = False
    n = draw(st.integers(4, 12))
    return dict(c=c, n=n, beam=draw(st.booleans()), angle=draw(st.sampled_from(['attr', 'arg', 'both'])),
                orient=draw(st.sampled_from(['attr', 'arg', 'ctor'])),
                noise=draw(st.sampled_from([None, 0.05, 'array', 'da'])), nan=draw(st.booleans()),
                tilt=draw(st.sampled_from([0, 0, 4, 40])))


def setup(s):
    """Dataset whose beams all see the same u, v, w; (ds, inst velocities, theta, up?)."""
    c, n = s['c'], s['n']
    ds = gen.build(c, fs=2)
    rng = rng_of(c['seed'], 5)
    nr, nt = c['nr'], c['nt']
    mix = rng.normal(0, 1, (3, 3))
    uvw = np.einsum('ij,jrt->irt', mix, rng.normal(0, 1, (3, nr, nt))) + rng.normal(0, 1, (3, nr, 1))
    sig = c['kind'] == 'sig'
    uvw4 = np.concatenate([uvw, uvw[2:] if sig else 0 * uvw[2:]])
    theta = 25 if sig else c['theta']
    b2i = gen.sig_b2i(theta) if sig else gen.rdi_b2i(theta)
    ds['beam2inst_orientmat'].values[:] = b2i
    beam = np.einsum('ij,jrt->irt', np.linalg.inv(b2i), uvw4)
    if s['nan'] and s['beam']:
        beam[rng.random(beam.shape) < 0.05] = np.nan
    if s['beam']:
        ds['vel'].values[:] = beam
        ds.attrs['coord_sys'] = 'beam'
        ds = ds.assign_coords(dir=('dir', ds.beam.values))
    else:
        ds['vel'].values[:] = uvw4
    b5 = None
    if sig:
        b5 = uvw[2]
        ds['vel_b5'].values[:] = b5
    for k in ('pitch', 'roll'):
        a = rng.uniform(-1, 1, nt) * s['tilt']
        ds[k].values[:] = a
    up = not c['down']
    kw = {}
    if s['angle'] == 'arg':
        del ds.attrs['beam_angle']
        kw['beam_angle'] = theta
    elif s['angle'] == 'both':
        kw['beam_angle'] = theta
    b = ADPBinner(n_bin=n, fs=2, orientation=('up' if up else 'down') if s['orient'] == 'ctor' else 'up')
    if s['orient'] != 'attr':
        del ds.attrs['orientation']
        if s['orient'] == 'arg':
            kw['orientation'] = 'up' if up else 'down'
    nb = nt // n
    noise = 0.
    if s['noise'] == 0.05:
        kw['noise'] = noise = 0.05
    elif s['noise'] in ('array', 'da'):
        noise = rng.uniform(0, 0.2, nb)
        kw['noise'] = noise if s['noise'] == 'array' else xr.DataArray(noise, dims=['time'])
    return ds, uvw, beam, b5, theta, up, b, kw, noise, nb, sig


def var_(x, n):
    return np.nanvar(bins_of(np.asarray(x, 'f8'), n), axis=-1)


def cov_(a, b, n):
    a, b = bins_of(a, n), bins_of(b, n)
    return ((a - a.mean(-1, keepdims=True)) * (b - b.mean(-1, keepdims=True))).mean(-1)


def either(got, right, listed, atol, what):
    """Known findings: the right value or exactly the listed one."""
    g = np.asarray(got, 'f8')
    if g.shape == right.shape and np.allclose(g, right, rtol=2e-4, atol=atol, equal_nan=True):
        return
    close(g, listed, 2e-4, atol, what)


def meta_ok(out, s, nb, dim, names, ds):
    check(out.dims == (dim, 'range', 'time'), 'dims {}', out.dims)
    check(list(out[dim].values) == names, 'labels {}', out[dim].values)
    check(out.shape == (3, s['c']['nr'], nb), 'shape {}', out.shape)


@PROP.sub(stress_case(['sig', 'rdi']), quick=400, shards=2)
def stress4(s, ctx):
    ds, uvw, beam, b5, theta, up, b, kw, noise, nb, sig = setup(s)
    n = s['n']
    ctx.nontrivial(nb > 1 and s['c']['nr'] > 1)
    ctx.label(s['c']['kind'], 'up' if up else 'down', 'beam' if s['beam'] else 'inst', str(s['noise']))
    vals = {k: ds[k].values.copy() for k in ds.data_vars}
    with quiet():
        out = b.calc_stress_4beam(ds, **kw)
    meta_ok(out, s, nb, 'tau', ['upvp_', 'upwp_', 'vpwp_'], ds)
    o = out.values
    check(np.isnan(o[0]).all(), "u'v' cannot be known from four beams")
    t = np.deg2rad(theta)
    den = 4 * np.sin(t) * np.cos(t)
    B = var_(beam, n)
    sc = 2e-5 * np.nanmax(np.abs(B))
    if sig:
        uw, vw = (B[0] - B[2]) / den, (B[3] - B[1]) / den
        if not up:                    # y and z point the other way
            uw = -uw
        close(o[1], uw, 2e-4, sc, "u'w'")
        close(o[2], vw, 2e-4, sc, "v'w'")
    else:
        uw, vw = (B[0] - B[1]) / den, (B[3] - B[2]) / den
        if up:
            vw = -vw
        close(o[1], uw, 2e-4, sc, "u'w'")
        either(o[2], vw, -vw, sc, "v'w'")
    if not (s['nan'] and s['beam']):   # it is the covariance of the flow
        u, v, w = uvw
        cu, cv = cov_(u, w, n), cov_(v, w, n)
        if sig and not up:
            cu = -cu
        if not sig and up:
            cv = -cv
        close(o[1], cu, 1e-3, 10 * sc, "u'w' of a known flow")
        either(o[2], cv, cv if sig else -cv, 10 * sc, "v'w' of a known flow")
    if s['beam']:
        for k, v in vals.items():
            check(np.array_equal(v, ds[k].values, equal_nan=v.dtype.kind == 'f'), 'calc_stress_4beam changed {}', k)


@PROP.finding('rdi_vpwp')
def rdi_demo():
    c = dict(kind='rdi', seed=3, nt=40, nr=2, frame='inst', rough=False, nan=0, tilt=0, scale=1., phead=0., extra=False,
             down=True, theta=20, convex=True, bt=False, b5=False)
    s = dict(c=c, n=20, beam=True, angle='attr', orient='attr', noise=None, nan=False, tilt=0)
    ds, uvw, beam, b5, theta, up, b, kw, noise, nb, sig = setup(s)
    with quiet():
        o = b.calc_stress_4beam(ds, **kw).values
    close(o[2], cov_(uvw[1], uvw[2], 20), 1e-3, 1e-4, "TRDI v'w' of a known flow")


@PROP.sub(stress_case(['sig']), quick=300, shards=2)
def stress5(s, ctx):
    ds, uvw, beam, b5, theta, up, b, kw, noise, nb, sig = setup(s)
    n, nr = s['n'], s['c']['nr']
    ctx.nontrivial(nb > 1 and nr > 1)
    ctx.label('up' if up else 'down', 'tilted' if s['tilt'] else 'level', str(s['noise']))
    only = bool(s['c']['seed'] % 2)
    pitch, roll = ds['pitch'].values.copy(), ds['roll'].values.copy()
    with quiet():
        out = b.calc_stress_5beam(ds, tke_only=only, **kw)
    tke = out if only else out[0]
    check(isinstance(tke, xr.DataArray), 'tke_only')
    meta_ok(tke, s, nb, 'tke', ['upup_', 'vpvp_', 'wpwp_'], ds)
    t = np.deg2rad(theta)
    S, C = np.sin(t), np.cos(t)
    order = ([0, 2] if up else [2, 0]) + [3, 1]
    B = var_(np.concatenate([beam[order], b5[None]]), n) - np.asarray(noise) ** 2
    sc = 1e-4 * max(1e-12, np.nanmax(np.abs(B)))
    p2 = np.deg2rad(bins_of(roll.astype('f8'), n).mean(-1))
    p3 = -np.deg2rad(bins_of(pitch.astype('f8'), n).mean(-1))
    d = -4 * S ** 6 * C ** 2
    dx, dy = B[1] - B[0], B[3] - B[2]
    uu = (-2 * S ** 4 * C ** 2 * (B[1] + B[0] - 2 * C ** 2 * B[4]) + 2 * S ** 5 * C * p3 * dx) / d

    def vv(q):
        return (-2 * S ** 4 * C ** 2 * (B[3] + q - 2 * C ** 2 * B[4]) - 2 * S ** 4 * C ** 2 * p3 * dx
                + 2 * S ** 3 * C ** 3 * p3 * dx - 2 * S ** 5 * C * p2 * dy) / d
    ww = (-2 * S ** 5 * C * p3 * dx + 2 * S ** 5 * C * p2 * dy - 4 * S ** 6 * C ** 2 * B[4]) / d
    ww_l = (-2 * S ** 5 * C * (dx + 2 * S ** 5 * C * p2 * dy - 4 * S ** 6 * C ** 2 * B[4])) / d
    g = tke.values
    close(g[0], uu, 2e-4, sc * 10, "u'u'")
    either(g[1], vv(B[2]), vv(B[0]), sc * 10, "v'v'")
    either(g[2], ww, ww_l, sc * 10, "w'w'")
    if s['tilt'] == 0 and not (s['nan'] and s['beam']):
        close(g[0], cov_(uvw[0], uvw[0], n) - np.asarray(noise) ** 2 * (2 - 2 * C ** 2) / (2 * S ** 2), 1e-3, sc * 10, "u'u' of a known flow")
    if only:
        return
    tau = out[1]
    meta_ok(tau, s, nb, 'tau', ['upvp_', 'upwp_', 'vpwp_'], ds)
    with quiet():
        ds.velds.rotate2('inst')
    vel = b.detrend(ds.vel.values)
    uv = np.nanmean(vel[0] * vel[1], -1)
    close(tau.values[0], uv, 1e-3, sc * 10, "u'v'")

    def uw(c2):
        return (S ** 5 * C * dx + 2 * S ** 4 * c2 * p3 * (B[1] + B[0]) - 4 * S ** 4 * c2 * p3 * B[4]
                - 4 * S ** 6 * c2 * p2 * uv) / d

    def vw(c2):
        return (S ** 5 * C * dy - 2 * S ** 4 * c2 * p2 * (B[3] + B[2]) + 4 * S ** 4 * c2 * p2 * B[4]
                + 4 * S ** 6 * c2 * p3 * uv) / d
    either(tau.values[1], uw(C ** 2), uw(C * 2), sc * 10, "u'w'")
    either(tau.values[2], vw(C ** 2), vw(C * 2), sc * 10, "v'w'")
    if s['tilt'] == 0 and not (s['nan'] and s['beam']):
        sg = 1 if up else -1
        close(tau.values[1], sg * cov_(uvw[0], uvw[2], n), 1e-3, sc * 10, "u'w' of a known flow")
        close(tau.values[2], cov_(uvw[1], uvw[2], n), 1e-3, sc * 10, "v'w' of a known flow")


@PROP.finding('tke5')
def tke5_demo():
    c = dict(kind='sig', seed=4, nt=40, nr=2, frame='inst', rough=False, nan=0, tilt=0, scale=1., phead=0., extra=False,
             down=False, bt=False, b5=True)
    s = dict(c=c, n=20, beam=True, angle='attr', orient='attr', noise=None, nan=False, tilt=0)
    ds, uvw, beam, b5, theta, up, b, kw, noise, nb, sig = setup(s)
    with quiet():
        o = b.calc_stress_5beam(ds, tke_only=True, **kw).values
    close(o[1:], np.stack([cov_(x, x, 20) for x in uvw[1:]]), 1e-3, 1e-4, "v'v' and w'w' of a known flow, level instrument")


@PROP.finding('tau5_tilt')
def tau5_demo():
    c = dict(kind='sig', seed=4, nt=40, nr=2, frame='inst', rough=False, nan=0, tilt=0, scale=1., phead=0., extra=False,
             down=False, bt=False, b5=True)
    s = dict(c=c, n=20, beam=True, angle='attr', orient='attr', noise=None, nan=False, tilt=0)
    ds, uvw, beam, b5, theta, up, b, kw, noise, nb, sig = setup(s)
    ds['pitch'].values[:] = 4.
    t = np.deg2rad(25)
    S, C = np.sin(t), np.cos(t)
    B = var_(beam, 20)
    p3 = -np.deg2rad(4.)
    with quiet():
        o = b.calc_stress_5beam(ds, **kw)[1].values
    want = ((B[0] - B[2]) / (4 * S * C) - p3 * (B[0] + B[2] - 2 * var_(b5, 20)) / (2 * S ** 2))
    close(o[1], want, 1e-3, 1e-4, "u'w' at 4 deg pitch (Dewey & Stringer, coefficient 2 sin^4 cos^2 phi3)")


@PROP.sub(st.tuples(stress_case(['sig', 'rdi']), st.sampled_from(['angle', 'orient', 'b5'])), quick=60)
def rejected(case, ctx):
    s, what = case
    ds, uvw, beam, b5, theta, up, b, kw, noise, nb, sig = setup(s)
    ctx.nontrivial()
    ctx.label(what)
    if what == 'angle':
        ds.attrs.pop('beam_angle', None)
        kw.pop('beam_angle', None)
        raises(Exception, b.calc_stress_4beam, ds, _what='stress without a beam angle', **kw)
    elif what == 'orient':
        kw['orientation'] = 'sideways'
        raises(Exception, b.calc_stress_4beam, ds, _what='unknown orientation', **kw)
    else:
        ds = ds.drop_vars('vel_b5', errors='ignore')
        raises(Exception, b.calc_stress_5beam, ds, _what='5-beam stress without the 5th beam', **kw)


# ------------------------------------------------------ structure function
@PROP.sub(st.tuples(seeds, now_and_then(st.integers(2, 12), [30]), now_and_then(st.integers(1, 4), [20]), now_and_then(st.integers(6, 24), [100, 400]),
                    st.sampled_from([0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 1.0, 2.0]), st.integers(1, 2), st.integers(3, 8),
                    st.booleans(), st.sampled_from([0, 0, 0.05]), st.sampled_from(['f4', 'f8'])), quick=300, shards=2)
def structure(case, ctx):
    seed, n, nb, nr, dz, lo, hi, b5, nan, dt = case
    nr = max(nr, hi + 2)                # longer separations than the profile are refused by numpy
    rng = rng_of(seed)
    nt = n * nb + int(rng.integers(0, n))
    v = (np.cumsum(rng.normal(0, 0.1, (nr, nt)), 0) + rng.normal(0, 1, (nr, 1))).astype(dt)
    v[rng.random(v.shape) < nan] = np.nan
    sfx = '_b5' if b5 else ''
    z = 0.7 + dz * np.arange(nr)
    time = np.datetime64('2020-01-01', 'ns') + np.arange(nt) * np.timedelta64(1, 's')
    vel = xr.DataArray(v, dims=['range' + sfx, 'time' + sfx], coords={'range' + sfx: z, 'time' + sfx: time})
    keep = vel.copy(deep=True)
    r_range = [lo * dz, hi * dz]
    b = ADPBinner(n_bin=n, fs=1)
    with quiet():
        eps, noi, D = b.calc_dissipation_SF(vel, r_range)
    check(vel.identical(keep), 'the velocity was changed')
    ctx.nontrivial(nb > 1 and nr > hi + 1)
    ctx.label('dz=%g' % dz, 'nan' if nan else 'complete')
    x = bins_of(v.astype('f8'), n)
    with quiet():
        x = x - np.nanmean(x, -1, keepdims=True)
    r = D.range_SF.values
    nR = len(r)
    check(nR in (hi, hi + 1), 'separations {} for r_range {}', r, r_range)
    close(r, dz * np.arange(1, nR + 1), 1e-9, 0, 'separations')
    check(D.shape == (nr, nR, nb), 'structure function shape {}', D.shape)
    want = np.full((nr, nR, nb), np.nan)
    with quiet():
        for k in range(1, nR + 1):
            if k < nr:
                want[k:, k - 1] = np.nanmean((x[k:] - x[:-k]) ** 2, -1)
    # below r.size nothing is fitted, but D itself is defined wherever z - r exists
    close(D.values, want, 1e-4, 1e-6 * (np.nanmax(want) if np.isfinite(want).any() else 1), 'structure function D(z, r)')
    sc = np.nanmax(want) if np.isfinite(want).any() else 1.
    W = want
    e = np.full((4, nr, nb), np.nan)
    q = e.copy()
    for i in range(nr):
        for j in range(nb):
            for m, (R, pw) in enumerate([(lo, None), (lo - 1, 2 / 3), (lo, 2 / 3), (lo - 1, None)]):
                xx = r[R:] ** pw if pw else r[R:] ** 2 / 3
                y = W[i, R:, j]
                if len(xx) < 2 or np.isnan(y).any():
                    continue
                e[m, i, j], q[m, i, j] = np.polyfit(xx, y, 1)
    with np.errstate(invalid='ignore'):
        E, Q = (e / 2.1) ** 1.5, np.sqrt(q / 2)
    i0 = nR                             # cells with every separation available

    def same(m):
        ge, gq = eps.values.astype('f8')[i0:], noi.values.astype('f8')[i0:]
        with np.errstate(invalid='ignore'):
            ce = np.abs(e[m, i0:]) * (r[-1] ** 2) > 1e-3 * sc     # else the sign of the slope is round-off
            cq = np.abs(q[m, i0:]) > 1e-3 * sc
        return (np.allclose(ge[ce], E[m, i0:][ce], rtol=2e-2, equal_nan=True)
                and np.allclose(gq[cq], Q[m, i0:][cq], rtol=2e-2, equal_nan=True))
    if nR - lo < 3 or i0 >= nr:
        return
    if not (same(1) or same(2) or same(0)):
        raise Violation('dissipation rate/noise is not the line fit of D over r^(2/3) (nor the known r^2/3): got %r expected %r'
                        % (eps.values[i0:, 0][:4], E[1, i0:, 0][:4]))
    check(eps.dims == vel.dims and noi.dims == vel.dims, 'dims')
    close(eps[eps.dims[0]].values, z, 1e-9, 0, 'range of the dissipation rate')
    raises(Exception, b.calc_dissipation_SF, xr.DataArray(np.zeros((4, 5, 6)), dims=['dir', 'range', 'time']), _what='3-D velocity')


@PROP.finding('sf_fit')
def sf_demo():
    """A structure function that grows as r^(2/3) gives the dissipation rate back."""
    nr, n = 30, 4000
    rng = rng_of(1)
    dz, eps = 0.5, 1e-3
    z = dz * np.arange(nr)
    r = np.abs(z[:, None] - z[None])
    # D = <(a-b)^2> = C2 eps^(2/3) r^(2/3), realised exactly by unit-covariance noise
    K = 2.1 * eps ** (2 / 3)
    cov = 0.5 * K * (z[-1] ** (2 / 3) - r ** (2 / 3)) + 1
    w = rng.normal(0, 1, (nr, n))
    w -= w.mean(1, keepdims=True)
    w = np.linalg.solve(np.linalg.cholesky(w @ w.T / n), w)
    v = np.linalg.cholesky(cov) @ w
    t = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(1, 's')
    e, _, D = ADPBinner(n_bin=n, fs=1).calc_dissipation_SF(
        xr.DataArray(v, dims=['range', 'time'], coords={'range': z + 1, 'time': t}), [0.5, 5])
    close(D.values[20, :, 0], K * D.range_SF.values ** (2 / 3), 1e-4, 0, 'D')
    close(e.values[20:, 0], np.full(10, eps), 1e-2, 0, 'dissipation rate of an r^(2/3) structure function')


# ------------------------------------------------------------------- ustar
@PROP.sub(st.tuples(seeds, now_and_then(st.integers(6, 12), [30, 80]), now_and_then(st.integers(1, 5), [30, 200]), st.booleans(), st.sampled_from([1, -1]),
                    st.sampled_from([None, slice(0, 3), slice(2, 6), slice(1, 5)]), st.booleans()), quick=200)
def ustar(case, ctx):
    seed, nr, nt, useH, sgn, inds, nan = case
    rng = rng_of(seed)
    z = 0.7 + 0.5 * np.arange(nr)
    H = rng.uniform(20, 40, nt)
    if useH:
        H[:] = H[0]
    us = rng.uniform(0.001, 0.3, nt)
    uw = sgn * us ** 2 * (1 - z[:, None] / H)
    sl = inds or slice(1, 5)
    out = np.ones(nr, bool)
    out[sl] = False
    uw[out] = rng.normal(0, 10, (out.sum(), nt))        # only z_inds may count
    if nan:
        uw[sl.start, rng.random(nt) < 0.5] = np.nan
    time = np.datetime64('2020-01-01', 'ns') + np.arange(nt) * np.timedelta64(600, 's')
    ds = xr.Dataset({'depth': ('time', H)}, coords={'range': z, 'time': time})
    a = xr.DataArray(uw, dims=['range', 'time'], coords={'range': z, 'time': time})
    ctx.nontrivial(nt > 1)
    kw = {'z_inds': inds} if inds else {}
    if useH:
        kw['H'] = float(H[0])
    got = ADPBinner(n_bin=4, fs=1).calc_ustar_fit(ds, a, **kw)
    close(got.values, us, 1e-5, 0, 'friction velocity of a linear stress profile')
    check(got.dims == ('time',) and (got.time.values == time).all(), 'coordinates')


history.add(PROP, 'P19', 'adp')
