"""P07 magnetic declination."""
from vlib.core import Prop, check, close
from vlib import gen
import numpy as np
from hypothesis import strategies as st
import dolfyn

PROP = Prop('P07', 'non-zero declination on tilted or rotated pings')
FR = ['beam', 'inst', 'earth', 'principal']
dec = st.floats(-180, 180).map(lambda x: round(x, 3))


def turn(x, d):
    """vectors seen in axes whose North is d deg counter-clockwise of before."""
    a = np.deg2rad(d)
    out = np.array(x, 'f8')
    out[0] = x[0] * np.cos(a) + x[1] * np.sin(a)
    out[1] = -x[0] * np.sin(a) + x[1] * np.cos(a)
    return out


def setd(ds, d, how):
    """three equivalent public ways"""
    if how == 0:
        return dolfyn.set_declination(ds, d, inplace=False)
    if how == 1:
        ds = ds.copy(deep=True)
        check(dolfyn.set_declination(ds, d) is None, 'in-place returns None')
        return ds
    return ds.velds.set_declination(d, inplace=False)


@PROP.sub(st.tuples(gen.ds_case(frames=FR), st.lists(dec, min_size=1, max_size=3), st.integers(0, 2)),
          quick=300, shards=2)
def semantics(case, ctx):
    c, ds_list, how = case
    ds = gen.build(dict(c, nan=0))
    before = ds.copy(deep=True)
    snap = gen.snapshot(ds)
    out = ds
    for d in ds_list:
        out = setd(out, d, how)
    d = ds_list[-1]
    gen.assert_unchanged(snap, ds, 'set_declination(inplace=False)')
    ctx.nontrivial(d != 0 and (c['tilt'] > 0 or c['rough']))
    ctx.label('frame ' + c['frame'], '%d settings' % len(ds_list), c['kind'])
    tol = 2e-5 * c['scale']
    check(out.attrs['declination'] == d, 'declination attribute {}', out.attrs.get('declination'))
    check(out.coord_sys == c['frame'], 'frame changed to {}', out.coord_sys)
    if 'heading' in ds:
        h0, h1 = before.heading.values.astype('f8'), out.heading.values.astype('f8')
        close((h1 - h0 - d + 180 + 720) % 360, np.full(h0.shape, 180.), 0, 1e-3, 'heading')
    om0, om1 = before.orientmat.values, out.orientmat.values
    # columns are earth axes: the same instrument seen from true axes
    close(np.swapaxes(om1, 0, 1), turn(np.swapaxes(om0, 0, 1), d), 0, 1e-6, 'orientmat')
    close(out.attrs['principal_heading'], c['phead'] + d, 0, 1e-6, 'principal_heading')
    for k in ds.rotate_vars:
        want = turn(before[k].values, d) if c['frame'] == 'earth' else before[k].values
        close(out[k].values, want, 1e-5, tol, '%s in %s' % (k, c['frame']))
    for k in ds.variables:
        if k not in ds.rotate_vars and k not in ('heading', 'orientmat', 'dir', 'dirIMU'):
            check(np.array_equal(before[k].values, out[k].values), 'set_declination changed {}', k)


@PROP.sub(st.tuples(gen.ds_case(frames=FR), dec, st.sampled_from(FR)), quick=200)
def commutes(case, ctx):
    """Setting the declination and rotating commute; every route to earth ends
    in the same true-North axes."""
    c, d, f = case
    ds = gen.build(dict(c, nan=0))
    ctx.nontrivial(d != 0 and f != c['frame'])
    a = dolfyn.rotate2(dolfyn.set_declination(ds, d, inplace=False), f, inplace=False)
    b = dolfyn.set_declination(dolfyn.rotate2(ds, f, inplace=False), d, inplace=False)
    e0 = dolfyn.rotate2(ds, 'earth', inplace=False)
    e1 = dolfyn.rotate2(a, 'earth', inplace=False)
    for k in ds.rotate_vars:
        close(a[k].values, b[k].values, 1e-5, 2e-5 * c['scale'], k)
        close(e1[k].values, turn(e0[k].values, d), 1e-5, 2e-5 * c['scale'], k + ' earth')
    close(a.attrs['principal_heading'], b.attrs['principal_heading'], 0, 1e-9, 'principal_heading')
    close(a.orientmat.values, b.orientmat.values, 0, 1e-6, 'orientmat')


@PROP.sub(st.tuples(gen.ds_case(frames=FR), dec), quick=100)
def undo(case, ctx):
    c, d = case
    ds = gen.build(dict(c, nan=0))
    ctx.nontrivial(d != 0)
    out = dolfyn.set_declination(dolfyn.set_declination(ds, d, inplace=False), 0, inplace=False)
    for k in list(ds.rotate_vars) + ['orientmat']:
        close(out[k].values, ds[k].values, 1e-5, 2e-5 * max(1, c['scale']), k)
    close(out.attrs['principal_heading'], c['phead'], 0, 1e-6, 'principal_heading')
    if 'heading' in ds:
        close(out.heading.values, ds.heading.values, 0, 1e-3, 'heading')
    # the same value again changes nothing
    one = dolfyn.set_declination(ds, d, inplace=False)
    two = dolfyn.set_declination(one, d, inplace=False)
    for k in list(ds.rotate_vars) + ['orientmat']:
        close(two[k].values, one[k].values, 1e-6, 1e-6, k + ' (same declination twice)')


@PROP.sub(st.tuples(gen.ds_case(frames=FR), dec), quick=60)
def no_principal(case, ctx):
    c, d = case
    ds = gen.build(dict(c, nan=0))
    ds.attrs.pop('principal_heading')
    if c['frame'] == 'principal':
        return
    ctx.nontrivial(d != 0)
    out = dolfyn.set_declination(ds, d, inplace=False)
    check('principal_heading' not in out.attrs, 'principal_heading appeared')
    check(out.attrs['declination'] == d, 'declination')
