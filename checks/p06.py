"""P06 what each frame means, per instrument, against independent algebra."""
from vlib.core import Prop, check, close
from vlib import gen
import numpy as np
from hypothesis import strategies as st
import dolfyn

PROP = Prop('P06', 'tilted pings with finite samples in every component')


def prep(c):
    return gen.build(dict(c, frame='inst', nan=0))


def b2i(ds, x, reverse=False):
    M = np.asarray(ds.beam2inst_orientmat.values, 'f8')
    if reverse:
        M = np.linalg.inv(M)
    return np.tensordot(M, x, axes=(1, 0))


def vecs(ds):
    return [k for k in ds.rotate_vars]


@PROP.sub(gen.ds_case(), quick=250, shards=2)
def inst_to_earth(c, ctx):
    ds = prep(c)
    ctx.nontrivial(c['tilt'] > 0)
    ctx.label(c['kind'], 'down %s' % c.get('down'))
    out = dolfyn.rotate2(ds, 'earth', inplace=False)
    for k in vecs(ds):
        close(out[k].values, gen.ref_to_earth(ds, k, ds.orientmat.values), 1e-6,
              1e-6 * c['scale'], '%s %s inst->earth' % (c['kind'], k))


@PROP.sub(gen.ds_case(), quick=250, shards=2)
def earth_to_inst(c, ctx):
    """The inst samples found are the ones whose reference earth image is the data."""
    ds = gen.build(dict(c, frame='earth', nan=0))
    ctx.nontrivial(c['tilt'] > 0)
    ctx.label(c['kind'])
    out = dolfyn.rotate2(ds, 'inst', inplace=False)
    for k in vecs(ds):
        close(gen.ref_to_earth(out, k, ds.orientmat.values), ds[k].values, 1e-6,
              5e-6 * c['scale'], '%s %s earth->inst' % (c['kind'], k))


@PROP.sub(gen.ds_case(), quick=200)
def beam_inst(c, ctx):
    for frame in ('beam', 'inst'):
        ds = gen.build(dict(c, frame=frame, nan=0))
        out = dolfyn.rotate2(ds, 'inst' if frame == 'beam' else 'beam', inplace=False)
        ctx.nontrivial()
        ctx.label(c['kind'])
        H = gen.head_matrix(c)
        H = np.eye(3) if H is None else H
        for k in vecs(ds):
            x, y = ds[k].values, out[k].values
            if x.shape[0] != ds.beam.size:       # IMU vectors are not beam data
                close(y, x, 0, 0, k + ' is not beam data')
                continue
            if c['kind'] == 'vector_imu' and k != 'vel':
                continue
            if frame == 'beam':
                want = b2i(ds, x)
                if c['kind'].startswith('vector'):
                    want = np.tensordot(H, want, (1, 0))
            else:
                if c['kind'].startswith('vector'):
                    x = np.tensordot(H.T, x, (1, 0))
                want = b2i(ds, x, True)
            close(y, want, 1e-6, 1e-6 * c['scale'], '%s %s from %s' % (c['kind'], k, frame))


@PROP.sub(gen.ds_case(), quick=200)
def principal(c, ctx):
    ds = gen.build(dict(c, frame='earth', nan=0))
    ctx.nontrivial(c['phead'] % 90 != 0)
    out = dolfyn.rotate2(ds, 'principal', inplace=False)
    for k in vecs(ds):
        x = ds[k].values
        close(out[k].values, gen.ref_to_principal(x, c['phead']), 1e-5, 2e-6 * c['scale'], k)
    back = gen.build(dict(c, frame='principal', nan=0))
    e = dolfyn.rotate2(back, 'earth', inplace=False)
    for k in vecs(back):
        close(gen.ref_to_principal(e[k].values, c['phead']), back[k].values, 1e-5, 2e-6 * c['scale'], k)
    # a flow along the principal heading is purely streamwise
    h = np.deg2rad(c['phead'])
    ds['vel'].values[:2] = np.array([np.sin(h), np.cos(h)]).reshape((2,) + (1,) * (ds.vel.ndim - 1))
    p = dolfyn.rotate2(ds, 'principal', inplace=False).vel.values
    close(p[0], np.ones(p[0].shape), 0, 1e-5, 'streamwise')
    close(p[1], np.zeros(p[0].shape), 0, 1e-5, 'cross-stream')


@PROP.sub(gen.ds_case(kinds=['rdi']), quick=120)
def ship(c, ctx):
    """TRDI 'ship' data is turned to earth by its orientation matrix like inst data."""
    ds = gen.build(dict(c, frame='ship', nan=0))
    ctx.nontrivial(c['tilt'] > 0)
    out = dolfyn.rotate2(ds, 'earth', inplace=False)
    check(out.coord_sys == 'earth', 'coord_sys {}', out.coord_sys)
    for k in vecs(ds):
        close(out[k].values, gen.ref_to_earth(ds, k, ds.orientmat.values), 1e-6, 1e-6 * c['scale'], k)
    p = dolfyn.rotate2(ds, 'principal', inplace=False)
    for k in vecs(ds):
        close(p[k].values, gen.ref_to_principal(out[k].values, c['phead']), 1e-5, 2e-6 * c['scale'], k)
    # without a stored matrix, heading alone levels ship-frame data
    ds2 = ds.drop_vars('orientmat')
    o2 = dolfyn.rotate2(ds2, 'earth', inplace=False)
    om = np.stack([gen.rdi_omat(h, 0, 0, False) for h in ds.heading.values.astype('f8')], -1)
    for k in vecs(ds):
        close(o2[k].values, gen.ref_to_earth(ds, k, om), 1e-5, 1e-5 * c['scale'], k + ' levelled')


@PROP.sub(st.tuples(gen.ds_case(), st.sampled_from(['f4', 'f8'])), quick=120)
def single_precision(case, ctx):
    """float32 samples rotate like float64 ones."""
    c, dtp = case
    ds = prep(c)
    ctx.nontrivial(c['tilt'] > 0)
    for k in vecs(ds) + ['orientmat']:
        ds[k] = ds[k].astype(dtp)
    ref = {k: gen.ref_to_earth(ds, k, ds.orientmat.values) for k in vecs(ds)}
    out = dolfyn.rotate2(ds, 'earth', inplace=False)
    for k in vecs(ds):
        close(out[k].values, ref[k], 1e-5, 1e-5 * c['scale'], k)


@PROP.sub(st.tuples(gen.ds_case(frames=['beam', 'inst', 'earth', 'principal'], min_t=3), st.sampled_from(['beam', 'inst', 'earth', 'principal']), st.booleans()),
          quick=300, shards=2)
def missing_samples(case, ctx):
    """A missing sample never becomes a finite value, and never spoils another ping."""
    c, to, whole = case
    if to == c['frame']:
        to = 'inst' if to == 'earth' else 'earth'
    ds = gen.build(dict(c, nan=0 if whole else 0.2))
    if whole:                          # all components of some samples
        rng = gen.rng_of(c['seed'], 8)
        for k in vecs(ds):
            ds[k].values[:, rng.random(ds[k].shape[1:]) < 0.3] = np.nan
    full = ds.copy(deep=True)
    for k in vecs(full):
        full[k].values[...] = np.where(np.isnan(ds[k].values), 0.1, ds[k].values)
    a = dolfyn.rotate2(ds, to, inplace=False)
    b = dolfyn.rotate2(full, to, inplace=False)
    ctx.label(c['frame'] + ' to ' + to)
    for k in vecs(ds):
        x = ds[k].values
        ctx.nontrivial(bool(np.isnan(x).any()))
        ok = np.isfinite(x).all(0)
        close(a[k].values[:, ok], b[k].values[:, ok], 1e-9, 1e-12, 'pings without missing samples')
        gone = np.isnan(x[:3]).all(0)
        check(np.isnan(a[k].values[:2][:, gone]).all(), '{}: missing samples became finite', k)
        gone = np.isnan(x).all(0)
        check(np.isnan(a[k].values[:, gone]).all(), '{}: missing vectors became finite', k)
