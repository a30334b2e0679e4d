"""P04 orientation conversions."""
from vlib.core import Prop, check, close, raises
from vlib import gen
from vlib.gen import seeds, rng_of, Rx, Ry, Rz
import re
import warnings
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn
from dolfyn.rotate import base as rb

PROP = Prop('P04', 'at least two of heading/pitch/roll are off the axes')

ang = st.tuples(st.floats(0, 359.99), st.floats(-89.5, 89.5), st.floats(-179.9, 179.9)).map(
    lambda t: tuple(round(x, 3) for x in t))
hprs = st.lists(ang, min_size=1, max_size=6)


def ref_omat(h, p, r):
    """earth->inst rotation: heading CW from North of the x-axis, pitch up
    positive, roll right-handed, ZYX order (docs: data-structure / hpr)."""
    h, p, r = np.deg2rad([90 - h, -p, r])
    return (Rz(h) @ Ry(p) @ Rx(r)).T


def split(lst):
    return [np.array(x) for x in zip(*lst)]


def nontriv(lst):
    return any(sum(abs(x % 90) > 1e-3 for x in t) >= 2 for t in lst)


@PROP.sub(hprs, quick=300)
def euler_to_matrix(case, ctx):
    h, p, r = split(case)
    ctx.nontrivial(nontriv(case))
    om = dolfyn.euler2orient(h.copy(), p.copy(), r.copy())
    want = np.stack([ref_omat(*t) for t in case], -1)
    close(om, want, 0, 1e-9, 'euler2orient')
    close(np.einsum('ij...,kj...->ik...', om, om),
          np.broadcast_to(np.eye(3)[..., None], om.shape), 0, 1e-9, 'orthogonality')
    close(np.linalg.det(np.moveaxis(om, -1, 0)), np.ones(len(case)), 0, 1e-9, 'determinant')
    rad = dolfyn.euler2orient(*[np.deg2rad(x) for x in (h, p, r)], units='radians')
    close(rad, want, 0, 1e-9, 'radians')
    one = dolfyn.euler2orient(*case[0])
    close(one, want[..., 0], 0, 1e-9, 'scalar')
    raises(Exception, dolfyn.euler2orient, h, p, r, units='furlongs', _what='bad units')


@PROP.sub(hprs, quick=300)
def euler_round_trip(case, ctx):
    h, p, r = split(case)
    ctx.nontrivial(nontriv(case))
    om = np.stack([ref_omat(*t) for t in case], -1)
    hh, pp, rr = dolfyn.orient2euler(om)
    # compare as angles
    close((hh - h + 180) % 360, np.full(h.shape, 180.), 0, 1e-5, 'heading')
    close(pp, p, 0, 1e-5, 'pitch')
    close((rr - r + 180) % 360, np.full(h.shape, 180.), 0, 1e-5, 'roll')
    check(((hh >= 0) & (hh <= 360)).all(), 'heading range {}', hh)
    ds = xr.Dataset({'orientmat': (('earth', 'inst', 'time'), om)})
    h2, p2, r2 = dolfyn.orient2euler(ds)
    close(h2, hh, 0, 0, 'dataset input')
    close(r2, rr, 0, 0, 'dataset input')
    back = dolfyn.euler2orient(hh, pp, rr)
    close(back, om, 0, 1e-7, 'euler2orient(orient2euler(m))')


@PROP.sub(st.tuples(st.lists(ang, min_size=1, max_size=5), seeds, st.booleans()), quick=120)
def quaternion(case, ctx):
    lst, seed, neg = case
    ctx.nontrivial(nontriv(lst))
    q = []
    for h, p, r in lst:
        R = ref_omat(h, p, r).T          # inst -> earth
        # independent quaternion from half angles
        a, b, c = np.deg2rad([90 - h, -p, r]) / 2

        def mul(x, y):
            w1, v1, w2, v2 = x[0], np.array(x[1:]), y[0], np.array(y[1:])
            return np.r_[w1 * w2 - v1 @ v2, w1 * v2 + w2 * v1 + np.cross(v1, v2)]
        k = mul(mul([np.cos(a), 0, 0, np.sin(a)], [np.cos(b), 0, np.sin(b), 0]),
                [np.cos(c), np.sin(c), 0, 0])
        q.append(-k if neg else k)
    q = np.array(q).T
    n = len(lst)
    da = xr.DataArray(q, dims=['q', 'time'], coords={'q': list('wxyz'), 'time': np.arange(n)})
    om = dolfyn.quaternion2orient(da)
    close(om.values, np.stack([ref_omat(*t) for t in lst], -1), 0, 1e-9, 'quaternion2orient')
    check(om.shape == (3, 3, n) and om.dims == ('earth', 'inst', 'time'), 'layout')
    h2, p2, r2 = dolfyn.orient2euler(om.values)
    close((h2 - np.array([t[0] for t in lst]) + 180) % 360, np.full(n, 180.), 0, 1e-4, 'heading')


@PROP.sub(st.tuples(hprs, st.sampled_from(['np', 'xr', 'mixed'])), quick=200)
def tilt(case, ctx):
    lst, mode = case
    p = np.array([min(max(t[1], -80), 80) for t in lst])
    r = np.array([min(max(t[2] / 2.3, -78), 78) for t in lst])
    ctx.nontrivial(bool(((p != 0) & (r != 0)).any()))
    a = xr.DataArray(p, dims='time') if mode != 'np' else p
    b = xr.DataArray(r, dims='time') if mode == 'xr' else r
    got = rb.calc_tilt(a, b)
    # angle between the vertical and the normal of the plane with these slopes
    n = np.stack([np.tan(np.deg2rad(p)), np.tan(np.deg2rad(r)), np.ones(len(p))])
    want = np.rad2deg(np.arccos(1 / np.sqrt((n ** 2).sum(0))))
    close(got, want, 1e-6, 1e-4, 'calc_tilt')
    close(rb.calc_tilt(r, p), want, 1e-6, 1e-4, 'symmetric in pitch and roll')
    close(rb.calc_tilt(-p, r), want, 1e-6, 1e-4, 'independent of sign')


EARTH_FROM_HPR = ['vector', 'awac', 'sig', 'sig_ahrs', 'rdi']


@PROP.sub(gen.ds_case(kinds=['awac', 'sig', 'sig_ahrs', 'rdi'], decl=False), quick=120)
def instrument_angles(c, ctx):
    """Without a stored orientation matrix the instrument's own heading, pitch
    and roll define the earth frame."""
    c = dict(c, nan=0)
    ds = gen.build(c)
    ctx.label(c['kind'])
    ctx.nontrivial(c['tilt'] > 0)
    h, p, r = [ds[k].values.astype('f8') for k in ('heading', 'pitch', 'roll')]
    if c['kind'] == 'rdi':
        om = np.stack([gen.rdi_omat(a, b, g, not c['down']) for a, b, g in zip(h, p, r)], -1)
    else:
        om = np.stack([gen.nortek_omat(a, b, g) for a, b, g in zip(h, p, r)], -1)
    want = {k: gen.ref_to_earth(ds, k, om) for k in ds.rotate_vars}
    ds = ds.drop_vars('orientmat')
    out = dolfyn.rotate2(ds, 'earth', inplace=False)
    for k in want:
        close(out[k].values, want[k], 1e-4, 3e-5 * c['scale'], '%s %s in earth' % (c['kind'], k))


@PROP.sub(gen.ds_case(kinds=['vector'], decl=False), quick=100)
def vector_angles(c, ctx):
    """Vector: 'down' pings are rolled by 180 deg; trailing missing sensor rows
    take the last known attitude."""
    c = dict(c, nan=0, head='none')
    ds = gen.build(c)
    nlost = c['seed'] % 3 if c['nt'] > 3 else 0
    ctx.nontrivial(c['tilt'] > 0)
    ctx.label('trailing NaN %d' % nlost)
    h, p, r = [ds[k].values.astype('f8') for k in ('heading', 'pitch', 'roll')]
    if nlost:
        # ... if all three are missing
        some = [('heading', 'pitch', 'roll'), ('heading',), ('pitch', 'roll')][c['seed'] // 3 % 5 % 3]
        for k, x in (('heading', h), ('pitch', p), ('roll', r)):
            if k in some:
                ds[k].values[-nlost:] = np.nan
                x[-nlost:] = x[-nlost - 1] if len(some) == 3 else np.nan
    om = np.stack([gen.nortek_omat(a, b, g + 180 * d) for a, b, g, d in
                   zip(h, p, r, ds.orientation_down.values)], -1)
    want = gen.ref_to_earth(ds, 'vel', om)
    ds = ds.drop_vars('orientmat')
    out = ds.copy(deep=True)
    dolfyn.rotate2(out, 'earth')
    close(out.vel.values, want, 1e-4, 3e-5 * c['scale'], 'vel in earth')
    for k in ('heading', 'pitch', 'roll', 'orientation_down', 'time'):
        check(out[k].identical(ds[k]), 'rotating the vectors changed {}', k)


@PROP.sub(st.tuples(gen.ds_case(kinds=['vector', 'vector_imu', 'sig', 'sig_ahrs'], frames=('inst', 'earth'), decl=False),
                    st.lists(st.integers(0, 200), max_size=3), st.sampled_from(['scale', 'flip', 'nan'])), quick=120)
def improper(case, ctx):
    """An orientation matrix which is not a rotation is reported, with the
    samples it belongs to; the others come out right."""
    c, bad, how = case
    c = dict(c, nan=0, head='none')
    ds = gen.build(c)
    bad = sorted({b % c['nt'] for b in bad})
    om = ds['orientmat'].values.astype('f8')
    for b in bad:
        if how == 'scale':
            om[..., b] *= 1.1
        elif how == 'flip':
            om[0, :, b] *= -1
        else:
            om[1, 2, b] = np.nan
    good = [i for i in range(c['nt']) if i not in bad]
    ctx.nontrivial(bool(bad) and len(good) > 0)
    ctx.label(c['kind'], how)
    ref = dolfyn.rotate2(ds, 'earth' if c['frame'] == 'inst' else 'inst', inplace=False)
    ds['orientmat'].values[:] = om
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = dolfyn.rotate2(ds, 'earth' if c['frame'] == 'inst' else 'inst', inplace=False)
    said = [str(x.message) for x in w if 'orientation matrix' in str(x.message)]
    if not bad:
        check(not said, 'a rotation is reported as invalid: {}', said)
    else:
        check(len(said) == 1, 'samples {} are not rotations: {} warnings', bad, len(said))
        named = [int(x) for x in re.findall(r'\d+', said[0].split('indices')[1])]
        check(named == bad, 'samples {} are not rotations, reported are {}', bad, named)
    for k in ds.rotate_vars:
        a, b = out[k].values, ref[k].values
        if a.shape[-1] == c['nt']:
            close(a[..., good], b[..., good], 0, 0, '%s of the other samples' % k)
