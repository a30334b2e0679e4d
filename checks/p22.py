"""P22 MATLAB save/load round trip."""
from vlib.core import Prop, check, close, raises, scratch, quiet
from vlib import gen, files, rich
import logging
import os
import numpy as np
import scipy.io as sio
from hypothesis import strategies as st
import dolfyn

logging.disable(logging.CRITICAL)
PROP = Prop('P22', 'at least two steps, and a dataset that was changed after it was read')
KINDS = [k for k in files.KINDS if k != 'signature_dual']
TOL = {True: 60000, False: 1000}     # ns: datenum has a resolution of 10 us, epoch of 0.2 us

attr_vals = st.one_of(st.integers(-2**31, 2**31 - 1), st.floats(-1e6, 1e6), st.text('abc XYZ_-09', min_size=1, max_size=12).map(str.strip).filter(bool),
                      st.lists(st.floats(-1e3, 1e3), min_size=2, max_size=4), st.lists(st.integers(-99, 99), min_size=2, max_size=4),
                      st.lists(st.sampled_from(['vel', 'accel', 'mag', 'xy']), min_size=2, max_size=3))
case_st = st.fixed_dictionaries(dict(
    seed=gen.seeds, kind=st.sampled_from(KINDS), frame=st.sampled_from(files.FRAMES), n=st.integers(3, 12), ncells=st.integers(2, 6), magvar=st.sampled_from([0, 830]),
    to=st.sampled_from([None, 'beam', 'inst', 'earth', 'principal']), decl=st.sampled_from([None, 8.28]), datenum=st.sampled_from([None, True, False]),
    cut=st.booleans(), nan=st.booleans(), gps=st.booleans(), us=st.integers(0, 999999),
    attrs=st.dictionaries(st.sampled_from(['serial', 'note', 'latlon', 'motion accel_filtfreq Hz', 'inst2head_vec', 'comments', 'depth_of_time_vars']), attr_vals, max_size=3),
    drop=st.booleans(), name=st.sampled_from(['d.mat', 'd', 'a.b.mat'])))


def norm(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [norm(x) for x in v]
    return v.item() if isinstance(v, np.generic) else v


def same_attr(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same_attr(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return bool(np.isclose(float(a), float(b), rtol=1e-12, atol=0))


def build(c, ctx):
    f = files.build(c['kind'], gen.rng_of(c['seed']), c['n'], c['frame'], magvar=c['magvar'], ncells=c['ncells'])
    with scratch() as d:
        p = os.path.join(d, 'x.' + files.EXT[c['kind']])
        with open(p, 'wb') as fh:
            fh.write(f.data)
        with quiet(), np.errstate(all='ignore'):
            ds = dolfyn.read(p)
    rng = gen.rng_of(c['seed'], 9)
    changed = False
    with quiet(), np.errstate(all='ignore'):
        if c['kind'] != 'vectrino':
            if c['decl'] is not None:
                dolfyn.set_declination(ds, c['decl'])
                changed = True
            if c['to'] == 'principal':
                ds = dolfyn.rotate2(ds, 'earth', inplace=False)
                ds.attrs['principal_heading'] = 33.25
            if c['to']:
                ds = dolfyn.rotate2(ds, c['to'], inplace=False)
                changed = True
        if c['cut'] and ds.time.size > 2:         # (finding single_step)
            ds = ds.isel(time=slice(1, None))
            changed = True
        if c['nan']:
            ds['vel'] = ds['vel'].where(rng.random(ds['vel'].shape) > .3)
            changed = True
        if c['gps'] and c['kind'] == 'trdi':
            t = ds.time.values[:2] + np.timedelta64(137, 'ms')
            ds = ds.assign_coords(time_gps=('time_gps', t))
            ds['latitude_gps'] = (('time_gps',), rng.normal(size=t.size).astype('f4'), dict(units='degrees_north', long_name='Latitude'))
            ds['hdwtime_gps'] = (('time_gps',), t + np.timedelta64(5, 'ms'))
            changed = True
    ds = ds.assign_coords(time=('time', ds.time.values + np.timedelta64(c['us'], 'us'), ds.time.attrs))
    ds.attrs.update(c['attrs'])
    if c['drop'] and 'amp' in ds:
        ds = ds.drop_vars('amp')
    ctx.nontrivial(changed and ds.time.size > 1)
    ctx.label(c['kind'], 'frame %s' % ds.coord_sys, 'datenum %s' % c['datenum'])
    return ds


def written(ds, ctx, name, kw):
    """Save, load and compare with what was saved."""
    keep = ds.copy(deep=True)
    snap = gen.snapshot(ds)
    datenum = kw.get('datenum') is not False
    tol = TOL[datenum]
    with scratch() as d:
        p = os.path.join(d, name)
        q = p if p.endswith('.mat') else p + '.mat'
        dolfyn.save_mat(ds, p, **kw)
        gen.assert_unchanged(snap, ds, 'save_mat')
        check(os.listdir(d) == [os.path.basename(q)], 'files written: {}', os.listdir(d))
        out = dolfyn.load_mat(p, **kw)
        raw = sio.loadmat(q, struct_as_record=False, squeeze_me=True)
    ds = keep
    check(set(out.variables) == set(ds.variables), 'variables {}', set(out.variables) ^ set(ds.variables))
    for k in ds.variables:
        a, b = ds[k], out[k]
        check(a.dims == b.dims, '{}: dims {}, was {}', k, b.dims, a.dims)
        x, y = a.values, b.values
        if x.dtype.kind == 'M':
            dt = np.abs((y.astype('M8[ns]') - x.astype('M8[ns]')).astype('i8'))
            check(y.dtype.kind == 'M' and (dt <= tol).all(), '{} is off by up to {} ns', k, dt.max())
        elif x.dtype.kind in 'OU':
            check([str(v) for v in x.ravel()] == [str(v) for v in y.ravel()], '{}: {}, was {}', k, y, x)
        else:
            check(x.dtype == y.dtype or x.dtype.kind in 'biu' and y.dtype.kind in 'biu', '{}: dtype {}, was {}', k, y.dtype, x.dtype)
            check(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'), '{}: values', k)
        for n in ('units', 'long_name', 'standard_name'):
            if n in a.attrs and x.dtype.kind != 'M':
                check(b.attrs.get(n) == a.attrs[n], '{}: {} {!r}, was {!r}', k, n, b.attrs.get(n), a.attrs[n])
    check(set(out.attrs) == set(ds.attrs), 'attributes {}', set(out.attrs) ^ set(ds.attrs))
    for n, v in ds.attrs.items():
        check(same_attr(v, out.attrs[n]), 'attribute {}: {!r}, was {!r}', n, out.attrs[n], v)
    # what MATLAB gets to see
    t = 'time' if 'time' in ds else 'time_avg'
    v = 'vel' if 'vel' in ds else 'vel_avg'
    if not (t in ds and v in ds):
        return
    tf = getattr(raw['coords'], t)
    t = (ds[t].values - np.datetime64('1970-01-01', 'ns')) / np.timedelta64(1, 'ns') / 1e9
    w = t if not datenum else t / 86400 + 719529
    close(tf, w, 0, 7e-10 if datenum else 1e-6, 'time in the file')
    close(getattr(raw['vars'], v), ds[v].values, 0, 0, v + ' in the file')
    check(getattr(raw['units'], v) == ds[v].units and raw['config'].coord_sys == ds.coord_sys, 'units, config in the file')



@PROP.sub(case_st, quick=350, thorough=7000, shards=2)
def round_trip(c, ctx):
    written(build(c, ctx), ctx, c['name'], {} if c['datenum'] is None else dict(datenum=c['datenum']))


@PROP.sub(st.tuples(rich.case_st, st.sampled_from([None, 'beam', 'inst', 'earth']), st.sampled_from([None, 8.28]), st.sampled_from([None, True, False])), quick=250, thorough=5000, shards=2)
def complete(case, ctx):
    """Files with vertical beam, echosounder, altimeter, bottom track, AHRS, surface layer."""
    c, to, decl, datenum = case
    ds = rich.read(c)
    with quiet(), np.errstate(all='ignore'):
        if ds.time.size < 2 or any(n < 2 for n in ds.sizes.values()):           # (finding single_step)
            return
        for f, x in ((dolfyn.set_declination, decl), (dolfyn.rotate2, to)):
            if x is not None:
                try:
                    f(ds, x)
                except Exception as e:
                    ctx.label('refused: ' + str(e)[:40])
    ctx.nontrivial(any(k.endswith(t) for k in ds.data_vars for t in ('_b5', '_bt', '_echo', '_avg', '_sl', '_altraw')))
    ctx.label(c['kind'], *[t for t in ('_b5', '_bt', '_echo', '_avg', '_sl', '_altraw') if any(k.endswith(t) for k in ds.data_vars)])
    written(ds, ctx, 'x.mat', {} if datenum is None else dict(datenum=datenum))


@PROP.sub(case_st, quick=60, thorough=1000)
def no_times(c, ctx):
    """One ensemble without its time: still a faithful copy, and the dataset is left alone."""
    ds = build(c, ctx)
    ds = ds[['vel']].isel(time=0)
    ds = ds.drop_vars([k for k in ds.coords if 'time' in k])
    keep, snap = ds.copy(deep=True), gen.snapshot(ds)
    with scratch() as d:
        p = os.path.join(d, 'x.mat')
        dolfyn.save_mat(ds, p)
        gen.assert_unchanged(snap, ds, 'save_mat')
        raw = sio.loadmat(p, struct_as_record=False, squeeze_me=True)
    close(raw['vars'].vel, np.squeeze(keep['vel'].values), 0, 0, 'vel in the file')
    check(raw['config'].coord_sys == keep.coord_sys, 'config in the file')


@PROP.sub(st.tuples(case_st, st.sampled_from(['beam', 'inst', 'earth'])), quick=120, thorough=2500)
def usable(cf, ctx):
    """The loaded dataset works like the one that was saved."""
    c, fr = cf
    c = dict(c, gps=False, to=c['to'] if c['to'] != 'principal' else 'inst', datenum=True if c['datenum'] is None else c['datenum'])
    if c['kind'] == 'vectrino':
        return
    ds = build(c, ctx)
    with scratch() as d:
        p = os.path.join(d, 'a.mat')
        dolfyn.save_mat(ds, p, datenum=c['datenum'])
        out = dolfyn.load_mat(p, datenum=c['datenum'])
    with quiet(), np.errstate(all='ignore'):
        for x in (ds, out):
            dolfyn.rotate2(x, fr)
            dolfyn.set_declination(x, -3.5)
    for k in list(ds.rotate_vars) + ['orientmat', 'heading']:
        close(out[k].values, ds[k].values, 1e-6, 1e-6, '%s after rotation and declination' % k)
    check(out['dir'].values.tolist() == ds['dir'].values.tolist(), 'dir labels')


@PROP.sub(st.sampled_from(['x.nc', 'x.txt', 'a.mat.gz', 'a.b', 'mat.x']), quick=10)
def wrong_extension(name, ctx):
    ctx.nontrivial()
    with scratch() as d:
        ds = gen.build(dict(kind='awac', seed=1, nt=3, nr=2, frame='inst', rough=False, nan=0, tilt=3,
                            scale=1., phead=3., extra=False))
        raises(IOError, dolfyn.save_mat, ds, os.path.join(d, name), _what='save_mat as ' + name)
        check(os.listdir(d) == [], 'a file was written: {}', os.listdir(d))
        raises(IOError, dolfyn.load_mat, os.path.join(d, name), _what='load_mat ' + name)


def roundtrip(kind, n):
    f = files.build(kind, gen.rng_of(1), n)
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        p = os.path.join(d, 'x.' + files.EXT[kind])
        with open(p, 'wb') as fh:
            fh.write(f.data)
        for ds in [y for x in [dolfyn.read(p)] for y in (x if isinstance(x, tuple) else (x,))]:
            dolfyn.save_mat(ds, os.path.join(d, 'y.mat'))
            out = dolfyn.load_mat(os.path.join(d, 'y.mat'))
            check(set(out.variables) == set(ds.variables) and all(out[k].dims == ds[k].dims for k in ds.variables), 'variables and dimensions')


@PROP.finding('single_step')
def single():
    roundtrip('vector', 1)


@PROP.finding('derived_dims')
def derived():
    f = files.build('trdi', gen.rng_of(1), 8, ncells=5)
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        p = os.path.join(d, 'x.000')
        with open(p, 'wb') as fh:
            fh.write(f.data)
        ds = dolfyn.read(p)
        ds['U_mag'] = ds.velds.U_mag
        dolfyn.save_mat(ds, os.path.join(d, 'y.mat'))
        out = dolfyn.load_mat(os.path.join(d, 'y.mat'))
    check('U_mag' in out and out['U_mag'].dims == ('range', 'time'), 'U_mag is not in the loaded dataset')


@PROP.sub(st.tuples(gen.seeds, st.integers(8, 14), st.integers(2, 5), st.sampled_from([True, False])), quick=60, thorough=1000)
def dual(case, ctx):
    """Both datasets of a file with two profiles."""
    seed, n, ncells, datenum = case
    f = files.build('signature_dual', gen.rng_of(seed), n, ncells=ncells)
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        p = os.path.join(d, 'x.ad2cp')
        with open(p, 'wb') as fh:
            fh.write(f.data)
        dss = dolfyn.read(p)
    ctx.nontrivial(len(dss) == 2)
    for ds in dss:
        if all(k > 1 for k in ds.sizes.values()):
            written(ds, ctx, 'y.mat', dict(datenum=datenum))
