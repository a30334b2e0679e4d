"""P05 rotations are invertible, path independent and relabel the axes."""
from vlib.core import Prop, check, close, raises
from vlib import gen
import warnings
import numpy as np
from hypothesis import strategies as st
import dolfyn

PROP = Prop('P05', 'the path visits at least 3 distinct frames with tilted pings')
FR = ['beam', 'inst', 'earth', 'principal']
paths = st.lists(st.sampled_from(FR), min_size=1, max_size=6)


def labels_ok(ds, frame, what):
    lab = gen.labels_for(ds)
    check(ds.coord_sys == frame, '{}: coord_sys is {!r}, expected {!r}', what, ds.coord_sys, frame)
    d = ds['dir'].values.tolist()
    want = ds.beam.values.tolist() if frame == 'beam' else lab[frame]
    check(d == want, '{}: dir labels {} in frame {}', what, d, frame)
    check(ds['dir'].attrs.get('ref_frame') == frame, '{}: dir ref_frame', what)
    if 'dirIMU' in ds.coords:
        w = {'beam': gen.XYZ, 'inst': gen.XYZ, 'earth': gen.ENU, 'principal': gen.PRINC}[frame]
        check(ds['dirIMU'].values.tolist() == w, '{}: dirIMU labels {}', what, ds['dirIMU'].values)


def same(a, b, tol, what, mask=None):
    for k in a.rotate_vars:
        x, y = a[k].values, b[k].values
        check(x.shape == y.shape and a[k].dims == b[k].dims, '{} {}: layout', what, k)
        m = gen.finite_cols(x, y) if mask is None else mask[k]
        close(x[:, m], y[:, m], 1e-5, tol, '%s: %s' % (what, k))


@PROP.sub(st.tuples(gen.ds_case(frames=FR), paths), quick=350, shards=2)
def round_trip(case, ctx):
    c, path = case
    ds = gen.build(c)
    tol = 2e-5 * c['scale']
    orig = ds.copy(deep=True)
    fin = {k: gen.finite_cols(ds[k].values) for k in ds.rotate_vars}
    ctx.nontrivial(c['tilt'] > 0 and len({c['frame'], *path}) >= 3)
    ctx.label(c['kind'], 'from ' + c['frame'])
    for f in path:
        ret = dolfyn.rotate2(ds, f)
        check(ret is None, 'in-place rotate2 returned {}', type(ret))
        labels_ok(ds, f, 'rotate2')
    direct = dolfyn.rotate2(orig, path[-1], inplace=False)
    labels_ok(direct, path[-1], 'direct rotate2')
    same(ds, direct, tol, 'path %s from %s vs direct' % (path, c['frame']), fin)
    dolfyn.rotate2(ds, c['frame'])
    labels_ok(ds, c['frame'], 'return')
    same(ds, orig, tol, 'round trip %s from %s' % (path, c['frame']), fin)
    for k in orig.variables:
        if k not in orig.rotate_vars and k not in ('dir', 'dirIMU'):
            a, b = orig[k].values, ds[k].values
            check(a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')),
                  'rotation changed {}', k)


@PROP.sub(st.tuples(gen.ds_case(frames=FR), st.sampled_from(FR)), quick=150)
def accessor(case, ctx):
    c, f = case
    ctx.nontrivial(f != c['frame'])
    ds = gen.build(c)
    a = dolfyn.rotate2(ds, f, inplace=False)
    b = ds.velds.rotate2(f, inplace=False)
    same(a, b, 0, 'ds.velds.rotate2')
    labels_ok(b, f, 'velds.rotate2')
    u = dolfyn.rotate2(ds, f.upper(), inplace=False)
    same(a, u, 0, 'frame names are case-insensitive')
    labels_ok(u, f, 'upper case')
    ds2 = ds.copy(deep=True)
    check(ds2.velds.rotate2(f) is None, 'in-place returns None')
    same(a, ds2, 0, 'in-place velds.rotate2')


@PROP.sub(st.tuples(gen.ds_case(frames=['inst', 'earth']), st.sampled_from(
    ['inst', 'earth']), st.integers(0, 2**31)), quick=100)
def norm_preserved(case, ctx):
    """Between orthogonal frames lengths and angles are preserved."""
    c, f, s = case
    c = dict(c, nan=0)
    ds = gen.build(c)
    out = dolfyn.rotate2(ds, 'earth' if c['frame'] == 'inst' else 'inst', inplace=False)
    ctx.nontrivial(c['tilt'] > 0)
    for k in ds.rotate_vars:
        x, y = ds[k].values, out[k].values
        if x.shape[0] == 3 or c['kind'] == 'rdi':
            close((x[:3] ** 2).sum(0), (y[:3] ** 2).sum(0), 1e-5, 1e-9, 'squared length of ' + k)
    p = dolfyn.rotate2(dolfyn.rotate2(ds, 'earth', inplace=False), 'principal', inplace=False)
    e = dolfyn.rotate2(ds, 'earth', inplace=False)
    for k in ds.rotate_vars:
        close((p[k].values[:2] ** 2).sum(0), (e[k].values[:2] ** 2).sum(0), 1e-5, 1e-9, 'horizontal speed')
        close(p[k].values[2:], e[k].values[2:], 0, 0, 'vertical/err components')


@PROP.sub(st.tuples(gen.ds_case(frames=FR), st.sampled_from(['up', 'enu', 'xyz', '', 'ship', 'instrument'])),
          quick=60)
def bad_frames(case, ctx):
    c, f = case
    ctx.nontrivial()
    ds = gen.build(c)
    before = gen.snapshot(ds)
    raises(Exception, dolfyn.rotate2, ds, f, _what='rotate2 to %r' % f)
    gen.assert_unchanged(before, ds, 'rejected rotate2')
    ds2 = ds.copy(deep=True)
    ds2.attrs.update(inst_make='Acme', inst_model='X1')
    raises(ValueError, dolfyn.rotate2, ds2, 'earth', _what='rotate2 of unknown instrument')


@PROP.sub(st.tuples(gen.ds_case(frames=FR), paths, st.integers(0, 2**20)), quick=150)
def listed(case, ctx):
    """Exactly the variables of rotate_vars rotate, each as if it were alone; without that list, vel."""
    c, path, pick = case
    ds = gen.build(c)
    names = list(ds.rotate_vars)
    sub = [k for i, k in enumerate(names) if k == 'vel' or pick >> i & 1]
    none = pick >> 10 & 3 == 0 and all(f != 'beam' for f in (c['frame'], *path))
    part = ds.copy(deep=True)
    if none:
        sub = ['vel']
        part.attrs.pop('rotate_vars')
    else:
        part.attrs['rotate_vars'] = sub[::-1] if pick >> 12 & 1 else sub
    ctx.nontrivial(c['tilt'] > 0 and len({c['frame'], *path}) >= 2 and sub != names)
    ctx.label('no list' if none else '%d of %d' % (len(sub), len(names)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for f in path:
            dolfyn.rotate2(part, f)
            dolfyn.rotate2(ds, f)
    orig = gen.build(c)
    for k in names:
        close(part[k].values, ds[k].values if k in sub else orig[k].values, 0, 0, k + (' listed' if k in sub else ' not listed'))
    labels_ok(part, path[-1], 'rotate2')
    check(('rotate_vars' in part.attrs) == (not none), 'rotate_vars attribute')
