"""P09 ADV head-to-body rotation."""
from vlib.core import Prop, check, close, raises
from vlib import gen
import numpy as np
from hypothesis import strategies as st
import dolfyn

PROP = Prop('P09', 'the head matrix is not the identity')
FR = ['beam', 'inst', 'earth', 'principal']
ADV = ['vector', 'vector_imu']
heads = st.sampled_from(['eye', 'perm', 'rot', 'rot'])


def build(c):
    return gen.build(dict(c, head='none', nan=0))


def M_of(c, h):
    return gen.head_matrix(dict(c, head=h))


@PROP.sub(st.tuples(gen.ds_case(kinds=ADV, frames=FR), heads, st.integers(0, 2)), quick=250, shards=2)
def semantics(case, ctx):
    c, h, how = case
    ds = build(c)
    M = M_of(c, h)
    ctx.nontrivial(h != 'eye')
    ctx.label(c['frame'], h)
    snap = gen.snapshot(ds)
    if how == 0:
        out = dolfyn.set_inst2head_rotmat(ds, M, inplace=False)
    elif how == 1:
        out = ds.velds.set_inst2head_rotmat(M.tolist(), inplace=False)
    else:
        out = ds.copy(deep=True)
        check(dolfyn.set_inst2head_rotmat(out, M) is None, 'in-place returns None')
    gen.assert_unchanged(snap, ds, 'set_inst2head_rotmat(inplace=False)')
    tol = 2e-5 * c['scale']
    check(out.coord_sys == c['frame'], 'frame changed to {}', out.coord_sys)
    close(out.inst2head_rotmat.values, M, 0, 0, 'stored matrix')
    check(bool(out.attrs['inst2head_rotmat_was_set']), 'was_set flag')
    v = ds.vel.values
    om = ds.orientmat.values
    if c['frame'] == 'beam':
        want = v
    else:
        x = v
        R = np.swapaxes(om, 0, 1)
        if c['frame'] == 'principal':
            a = np.deg2rad(c['phead'])
            x = v.astype('f8').copy()
            x[0] = np.sin(a) * v[0] - np.cos(a) * v[1]
            x[1] = np.cos(a) * v[0] + np.sin(a) * v[1]
        if c['frame'] != 'inst':
            x = np.einsum('ijk,ik->jk', R, x)      # earth -> inst
        x = M @ x
        if c['frame'] != 'inst':
            x = np.einsum('ijk,jk->ik', R, x)
        if c['frame'] == 'principal':
            x = gen.ref_to_principal(x, c['phead'])
        want = x
    close(out.vel.values, want, 1e-5, tol, 'vel in %s' % c['frame'])
    for k in ds.rotate_vars:
        if k != 'vel':
            close(out[k].values, ds[k].values, 1e-5, 2e-5, k)
    # afterwards every frame change includes the head matrix exactly once
    b = dolfyn.rotate2(out, 'beam', inplace=False)
    i = dolfyn.rotate2(b, 'inst', inplace=False)
    B = np.asarray(ds.beam2inst_orientmat.values)
    close(i.vel.values, M @ B @ b.vel.values, 1e-6, tol, 'beam->inst with head matrix')
    raises(Exception, dolfyn.set_inst2head_rotmat, out, M, _what='second set_inst2head_rotmat')
    raises(Exception, dolfyn.set_inst2head_rotmat, out, np.eye(3), False, _what='second set_inst2head_rotmat')


@PROP.sub(st.tuples(gen.ds_case(kinds=ADV, frames=FR), heads, st.sampled_from(FR)), quick=200)
def commutes(case, ctx):
    c, h, f = case
    ds = build(c)
    M = M_of(c, h)
    ctx.nontrivial(h != 'eye' and f != c['frame'])
    if c['frame'] == 'beam' or f == 'beam':
        # beam data is not altered by the matrix: compare via inst
        a = dolfyn.set_inst2head_rotmat(dolfyn.rotate2(ds, 'inst', inplace=False), M, inplace=False)
        b = dolfyn.rotate2(dolfyn.set_inst2head_rotmat(
            dolfyn.rotate2(ds, 'beam', inplace=False), M, inplace=False), 'inst', inplace=False)
    else:
        a = dolfyn.rotate2(dolfyn.set_inst2head_rotmat(ds, M, inplace=False), f, inplace=False)
        b = dolfyn.set_inst2head_rotmat(dolfyn.rotate2(ds, f, inplace=False), M, inplace=False)
    close(a.vel.values, b.vel.values, 1e-5, 2e-5 * c['scale'], 'set/rotate order')


@PROP.sub(st.tuples(gen.ds_case(kinds=gen.KINDS, frames=['inst', 'earth']),
                    st.sampled_from(['scaled', 'mirror', 'not vector', 'unset flag'])), quick=150)
def rejected(case, ctx):
    c, why = case
    ctx.nontrivial()
    ctx.label(why)
    ds = gen.build(dict(c, head='none', nan=0))
    if c['kind'] not in ADV:
        snap = gen.snapshot(ds)
        raises(Exception, dolfyn.set_inst2head_rotmat, ds, np.eye(3), _what='head matrix on ' + c['kind'])
        gen.assert_unchanged(snap, ds, 'rejected set_inst2head_rotmat')
        return
    M = M_of(c, 'rot')
    if why == 'scaled':
        raises(ValueError, dolfyn.set_inst2head_rotmat, ds, 1.05 * M, False, _what='non-unit determinant')
    elif why == 'mirror':
        raises(ValueError, dolfyn.set_inst2head_rotmat, ds, M @ np.diag([1, 1, -1]), False,
               _what='mirror matrix')
    elif why == 'unset flag':
        import xarray as xr
        ds['inst2head_rotmat'] = xr.DataArray(M, dims=['x1', 'x2'])
        ds.attrs['inst2head_rotmat_was_set'] = 0
        raises(Exception, dolfyn.rotate2, ds, 'beam', _what='head matrix never set through the API')
