"""P21 netCDF save/load round trip."""
from vlib.core import Prop, check, close, raises, scratch, quiet
from vlib import gen, files, rich
import os
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn

PROP = Prop('P21', 'the dataset has more than one ping and mixed dtypes, '
            'complex variables or NaNs')
FR = ['beam', 'inst', 'earth', 'principal']
attr_vals = st.one_of(st.integers(-2**31, 2**31 - 1), st.floats(-1e6, 1e6), st.text('abc XYZ_-09', min_size=1, max_size=12),
                      st.lists(st.floats(-1e3, 1e3), min_size=2, max_size=4),
                      st.lists(st.integers(-99, 99), min_size=2, max_size=4),
                      st.lists(st.sampled_from(['vel', 'accel', 'mag', 'x y']), min_size=2, max_size=3))


@st.composite
def cases(draw):
    return dict(ds=draw(gen.ds_case(frames=FR)),
                names=draw(st.lists(st.sampled_from(['U', 'V', 'Uh', 'csd', 'z1', 'a']), unique=True, max_size=3)),
                cdt=draw(st.sampled_from(['c8', 'c16'])),
                ints=draw(st.sampled_from([None, 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8'])),
                bool_=draw(st.booleans()), cnan=draw(st.booleans()),
                tvar=draw(st.booleans()), string=draw(st.booleans()),
                timeunits=draw(st.booleans()), us=draw(st.integers(0, 999999)),
                attrs=draw(st.dictionaries(st.sampled_from(['serial', 'note', 'foo', 'bar1', 'cfg', 'comments', 'serial_number', 'deployment_name', 'firmware_version',
                                                               'wave_cell_position', 'inst2head_vec', 'latitude', 'coord_sys_axes', 'time_var']), attr_vals, max_size=3)),
                comp=draw(st.booleans()),
                name=draw(st.sampled_from(['d.nc', 'd', 'a.b.nc', 'long-name_1.nc'])))


def make(c):
    ds = gen.build(c['ds'])
    rng = gen.rng_of(c['ds']['seed'], 3)
    nt = ds.time.size
    ds = ds.assign_coords(time=ds.time + np.timedelta64(c['us'], 'us'))
    if c['timeunits']:
        ds['time'].attrs['units'] = 'seconds since 1970-01-01 00:00:00'
        ds['time'].attrs['standard_name'] = 'time'
    for i, nm in enumerate(c['names']):
        z = (rng.normal(size=(2, nt)) + 1j * rng.normal(size=(2, nt))).astype(c['cdt'])
        if c['cnan'] and nt > 1:
            z[0, 0] = np.nan
        ds[nm] = (('pair', 'time'), z)
    if c['ints']:
        ii = np.iinfo(c['ints'])
        ds['counts'] = (('time',), rng.integers(ii.min, ii.max, nt, dtype=c['ints'], endpoint=True))
    if c['bool_']:
        ds['flag'] = (('time',), rng.random(nt) < .5)
    if c['tvar']:
        ds['time_gps'] = (('time',), ds.time.values + np.timedelta64(137, 'ms'))
    if c['string']:
        ds = ds.assign_coords(S=('S', ['Sxx', 'Syy', 'Szz']))
        ds['power'] = (('S', 'time'), rng.normal(size=(3, nt)).astype('f4'))
    ds.attrs.update(c['attrs'])
    return ds


def norm(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [norm(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def attr_equal(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, float) or isinstance(b, float):
        return not isinstance(a, (str, list)) and not isinstance(b, (str, list)) and \
            np.isclose(a, b, rtol=1e-12, atol=0)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(attr_equal(x, y) for x, y in zip(a, b))
    return a == b


def compare(ds, out, single=True, what='loaded'):
    check(set(ds.data_vars) == set(out.data_vars), '{}: variables {} vs {}', what,
          sorted(ds.data_vars), sorted(out.data_vars))
    check(set(ds.coords) == set(out.coords), '{}: coords differ: {}', what, set(ds.coords) ^ set(out.coords))
    for k in ds.variables:
        a, b = ds[k], out[k]
        check(a.dims == b.dims, '{} {}: dims {} vs {}', what, k, a.dims, b.dims)
        x, y = a.values, b.values
        w = '%s %s' % (what, k)
        if x.dtype.kind == 'M':
            dt = np.abs((y.astype('datetime64[ns]') - x.astype('datetime64[ns]')).astype('i8'))
            check(y.dtype.kind == 'M' and (dt <= 1000).all(), '{}: times differ by up to {} ns', w, dt.max())
        elif x.dtype.kind in 'OU':
            check([str(v) for v in x.ravel()] == [str(v) for v in y.ravel()], '{}: {} vs {}', w, x, y)
        elif x.dtype.kind == 'c':
            check(y.dtype.kind == 'c', '{}: dtype {}', w, y.dtype)
            close(y, x, 1e-6, 1e-7, w)
        elif x.dtype.kind == 'f':
            check(y.dtype.kind == 'f', '{}: dtype {}', w, y.dtype)
            if k in ds.coords or x.dtype == 'f4':
                close(y, x, 0, 0, w)
            else:
                close(y, x.astype('f4'), 0, 0, w)      # saved in single precision
        else:
            check(x.dtype.kind == y.dtype.kind, '{}: dtype {} vs {}', w, x.dtype, y.dtype)
            check(np.array_equal(x, y), '{}: values', w)
        for n, v in a.attrs.items():
            if x.dtype.kind == 'M' and n == 'units':
                continue
            check(n in b.attrs and attr_equal(v, b.attrs[n]), '{}: attr {} = {!r}, was {!r}', w, n, b.attrs.get(n), v)
    for n, v in ds.attrs.items():
        check(n in out.attrs, '{}: attribute {} lost', what, n)
        check(attr_equal(v, out.attrs[n]), '{}: attribute {} = {!r}, was {!r}', what, n, out.attrs[n], v)
    extra = set(out.attrs) - set(ds.attrs)
    check(not extra, '{}: extra attributes {}', what, extra)


@PROP.sub(cases(), quick=220, shards=4)
def round_trip(c, ctx):
    ds = make(c)
    keep = ds.copy(deep=True)
    snap = gen.snapshot(ds)
    ctx.nontrivial(ds.time.size > 1 and bool(c['names'] or c['ints'] or c['ds']['nan']))
    ctx.label('%d complex' % len(c['names']), 'comp %s' % c['comp'])
    with scratch() as d:
        p = os.path.join(d, c['name'])
        dolfyn.save(ds, p, compression=c['comp'])
        gen.assert_unchanged(snap, ds, 'save')
        check(os.listdir(d) == [c['name'] if c['name'].endswith('.nc') else c['name'] + '.nc'],
              'files written: {}', os.listdir(d))
        out = dolfyn.load(p)
        compare(keep, out)
        # a second generation is identical to the first
        p2 = os.path.join(d, 'second.nc')
        out.velds.save(p2)
        again = dolfyn.load(p2)
        compare(out, again, what='second generation')
        check(again['dir'].values.tolist() == keep['dir'].values.tolist(), 'dir labels')


@PROP.sub(st.tuples(gen.ds_case(frames=FR), st.sampled_from(FR)), quick=60, shards=2)
def usable_after_load(case, ctx):
    """The loaded dataset rotates exactly like the one that was saved."""
    c, f = case
    c = dict(c, nan=0)
    ds = gen.build(c)
    ctx.nontrivial(f != c['frame'])
    with scratch() as d:
        p = os.path.join(d, 'a.nc')
        dolfyn.save(ds, p)
        out = dolfyn.load(p)
    a = dolfyn.rotate2(ds, f, inplace=False)
    b = dolfyn.rotate2(out, f, inplace=False)
    check(b['dir'].values.tolist() == a['dir'].values.tolist(), 'labels')
    for k in ds.rotate_vars:
        close(b[k].values, a[k].values, 1e-4, 2e-5 * max(1, c['scale']), k)


@PROP.sub(st.fixed_dictionaries(dict(
    seed=gen.seeds, kind=st.sampled_from(files.KINDS), frame=st.sampled_from(files.FRAMES), n=st.integers(2, 6), ncells=st.integers(2, 5), comp=st.booleans(),
    cut=st.booleans(), magvar=st.sampled_from([0, 830]), decl=st.booleans())), quick=100, shards=2)
def instruments(c, ctx):
    """Datasets as they come from the readers."""
    # (two averaged profiles in a file with two profiles)
    f = files.build(c['kind'], gen.rng_of(c['seed']), c['n'] + 4 * (c['kind'] == 'signature_dual'), c['frame'], magvar=c['magvar'], ncells=c['ncells'])
    ctx.nontrivial()
    ctx.label(c['kind'], 'comp %s' % c['comp'])
    with scratch() as d:
        p = os.path.join(d, 'x.' + files.EXT[c['kind']])
        with open(p, 'wb') as fh:
            fh.write(f.data)
        with quiet():
            dss = dolfyn.read(p)
        for i, ds in enumerate(dss if isinstance(dss, tuple) else (dss,)):
            if c['decl'] and c['kind'] != 'vectrino' and 'time' in ds.dims:
                with quiet():
                    dolfyn.set_declination(ds, 12.5)
            if c['cut'] and ds.sizes.get('time', 0) > 2:
                ds = ds.isel(time=slice(1, None))
            snap = gen.snapshot(ds)
            q = os.path.join(d, 'y%d.nc' % i)
            with quiet():
                dolfyn.save(ds, q, compression=c['comp'])
            gen.assert_unchanged(snap, ds, 'save')
            out = dolfyn.load(q)
            compare(ds, out, what='dataset %d of a %s file' % (i, c['kind']))


@PROP.sub(st.tuples(rich.case_st, st.sampled_from([None, 'beam', 'inst', 'earth']), st.booleans()), quick=120, thorough=4000, shards=2)
def complete(case, ctx):
    """Files with vertical beam, echosounder, altimeter, bottom track, AHRS, surface layer."""
    c, to, comp = case
    ds = rich.read(c)
    with quiet(), np.errstate(all='ignore'):
        if to:
            try:
                dolfyn.rotate2(ds, to)
            except Exception as e:
                ctx.label('refused: ' + str(e)[:40])
    parts = [t for t in ('_b5', '_bt', '_echo', '_avg', '_sl', '_altraw') if any(k.endswith(t) for k in ds.data_vars)]
    ctx.nontrivial(parts)
    ctx.label(c['kind'], 'comp %s' % comp, *parts)
    with scratch() as d:
        snap = gen.snapshot(ds)
        q = os.path.join(d, 'y.nc')
        with quiet():
            dolfyn.save(ds, q, compression=comp)
        gen.assert_unchanged(snap, ds, 'save')
        compare(ds, dolfyn.load(q), what='dataset of a %s file' % c['kind'])


@PROP.sub(st.tuples(gen.ds_case(min_t=4), st.integers(1, 9), st.sampled_from(['i2', 'f8', 'f4']), st.booleans()),
          quick=40)
def user_encoding(case, ctx):
    """An explicit encoding wins over the compression option."""
    import netCDF4
    c, lev, dtp, comp = case
    ds = gen.build(dict(c, nan=0))
    ds['extra'] = (('time',), np.arange(ds.time.size).astype('f4'))
    ctx.nontrivial()
    with scratch() as d:
        p = os.path.join(d, 'a.nc')
        dolfyn.save(ds, p, compression=comp,
                    encoding={'extra': dict(zlib=True, complevel=lev, dtype=dtp)})
        with netCDF4.Dataset(p) as nc:
            v = nc.variables['extra']
            check(v.dtype == np.dtype(dtp), 'dtype {} on disk, asked for {}', v.dtype, dtp)
            check(v.filters()['zlib'] and v.filters()['complevel'] == lev, 'filters {}', v.filters())
        close(dolfyn.load(p)['extra'].values, ds['extra'].values, 0, 0, 'extra')


@PROP.sub(st.sampled_from(['x.mat', 'x.txt', 'a.nc.gz', 'a.b', 'nc.x']), quick=10)
def wrong_extension(name, ctx):
    ctx.nontrivial()
    with scratch() as d:
        ds = gen.build(dict(kind='awac', seed=1, nt=3, nr=2, frame='inst', rough=False, nan=0, tilt=3,
                            scale=1., phead=3., extra=False))
        raises(IOError, dolfyn.save, ds, os.path.join(d, name), _what='save as ' + name)
        check(os.listdir(d) == [], 'a file was written: {}', os.listdir(d))
        raises(IOError, dolfyn.load, os.path.join(d, name), _what='load ' + name)


@PROP.sub(st.tuples(st.lists(cases(), min_size=2, max_size=3), st.lists(st.tuples(st.booleans(), st.booleans(), st.booleans()), min_size=3, max_size=3)),
          quick=60, thorough=1000, shards=2)
def history(case, ctx):
    """What was saved or loaded before makes no difference."""
    import netCDF4
    cs, opts = case
    ctx.nontrivial()
    enc0 = {'counts2': dict(dtype='i2', scale_factor=.5, _FillValue=-999), 'vel': dict(zlib=True, complevel=7)}
    done = []
    with scratch() as d:
        for i, c in enumerate(cs):
            ds = make(c)
            coarse, over, again = opts[i]
            ds['counts2'] = (('time',), np.arange(ds.time.size) + .25)
            kw = {}
            if coarse:
                kw['encoding'] = {k: dict(v) for k, v in enc0.items()}
            keep, snap = ds.copy(deep=True), gen.snapshot(ds)
            p = os.path.join(d, 'same.nc' if over else 'f%d.nc' % i)
            dolfyn.save(ds, p, compression=c['comp'], **kw)
            gen.assert_unchanged(snap, ds, 'save')
            if coarse:
                check(kw['encoding'] == enc0, 'the encoding that was passed is changed: {}', kw['encoding'])
                keep['counts2'] = (('time',), np.round(np.arange(ds.time.size) * 2 + .5) / 2)
            with netCDF4.Dataset(p) as nc:
                v = nc.variables['counts2']
                check(v.dtype == (np.dtype('i2') if coarse else np.dtype('f4')), 'dtype {} on disk, encoding asked for: {}', v.dtype, coarse)
                v = nc.variables['vel']
                lev = 7 if coarse else 1 if c['comp'] and ds['vel'].size > 1 else 0
                check(v.filters()['complevel'] == lev, 'compression level of vel: {}, expected {}', v.filters()['complevel'], lev)
            if over:
                done = [x for x in done if x[0] != p]
            done.append((p, keep))
            if again:
                # a loaded dataset is changed; the file is as it was
                out = dolfyn.load(p)
                for k in out.data_vars:
                    if out[k].dtype.kind == 'f':
                        out[k].values[...] = 0
                out.attrs['mine'] = [1]
                for v in out.attrs.values():
                    if isinstance(v, list):
                        v.append(v[0])
        for p, keep in done:
            compare(keep, dolfyn.load(p), what='one of %d saved datasets' % len(cs))
