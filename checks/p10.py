"""P10 histories of operations: in place and copying variants, purity."""
from vlib.core import Prop, check, close, quiet, scratch
from vlib import gen
from vlib.gen import seeds, rng_of
import copy
import os
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn
from dolfyn import VelBinner
from dolfyn.adp import clean as adp_clean
from dolfyn.adv import clean as adv_clean
from dolfyn.rotate.base import calc_tilt, orient2euler

PROP = Prop('P10', 'at least three operations, of at least two kinds, were applied')

FR = ['beam', 'inst', 'earth', 'principal']
OPS = (st.tuples(st.just('rotate'), st.sampled_from(FR + ['ship', 'nonsense']))
       | st.tuples(st.just('rotate'), st.sampled_from(FR))
       | st.tuples(st.just('rotate'), st.sampled_from(FR))
       | st.tuples(st.just('declination'), st.integers(-90, 90))
       | st.tuples(st.just('head'), st.sampled_from(['perm', 'bad']))
       | st.tuples(st.just('beyond'), st.integers(1, 4))
       | st.tuples(st.just('correlation'), st.integers(0, 100))
       | st.tuples(st.just('principal'), st.sampled_from(['set', 'drop']))
       | st.tuples(st.just('saveload'), st.booleans())
       | st.tuples(st.just('look'), st.integers(0, 7)))


def look(ds, k, seed):
    """Read-only use; must not change anything."""
    if k == 0:
        dolfyn.calc_principal_heading(ds.vel if 'range' not in ds.vel.dims else ds.vel.mean('range'))
    elif k == 1:
        for nm in ('u', 'v', 'w', 'U', 'U_mag', 'U_dir'):
            getattr(ds.velds, nm)
    elif k == 2:
        repr(ds.velds)
    elif k == 3 and ds.sizes['time'] >= 4:
        b = VelBinner(n_bin=4, fs=ds.fs)
        b.do_avg(ds)
        b.do_var(ds)
    elif k == 4 and ds.sizes['time'] >= 4:
        b = VelBinner(n_bin=4, fs=ds.fs)
        if 'range' not in ds.vel.dims:
            b.calc_tke(ds.vel[:3])
        b.calc_acov(ds.vel[0])
        b.calc_ti(ds.velds.U_mag)
    elif k == 5:
        adp_clean.val_exceeds_thresh(ds.vel, 0.5)
        adv_clean.range_limit(ds.vel)
        adv_clean.spike_thresh(ds.vel)
    elif k == 6:
        orient2euler(ds)
        if 'pitch' in ds:
            calc_tilt(ds['pitch'], ds['roll'])
    elif k == 7:
        adp_clean.fillgaps_time(ds.vel, method='linear')


def apply(ds, op, arg, inplace):
    if op == 'rotate':
        return dolfyn.rotate2(ds, arg, inplace=inplace)
    if op == 'declination':
        return dolfyn.set_declination(ds, arg, inplace=inplace)
    if op == 'head':
        m = np.array([[0, 0, -1.], [0, -1, 0], [-1, 0, 0]]) * (1 if arg == 'perm' else 1.5)
        return dolfyn.set_inst2head_rotmat(ds, m, inplace=inplace)
    if op == 'beyond':
        return adp_clean.nan_beyond_surface(ds, inplace=inplace)
    if op == 'correlation':
        return adp_clean.correlation_filter(ds, thresh=arg, inplace=inplace)


def same(a, b):
    if not a.identical(b):
        return False
    return repr(sorted(a.attrs.items(), key=str)) == repr(sorted(b.attrs.items(), key=str))


@PROP.sub(st.tuples(gen.ds_case(max_t=8), st.lists(OPS, min_size=3, max_size=14)), quick=350, shards=4)
def history(case, ctx):
    c, ops = case
    if 'head' in c:
        c = dict(c, head='none')
    ds = gen.build(c)
    rng = rng_of(c['seed'], 5)
    adp = ds.attrs['inst_type'] == 'ADCP'
    if adp:
        ds.attrs['cell_size'] = 0.5
        ds.attrs['beam_angle'] = 25
        ds['depth'] = xr.DataArray(rng.uniform(0.5, 4, c['nt']).astype('f4'), dims=['time'])
        nm = [('', ds.vel.shape, ('beam', 'range', 'time'))]
        if 'vel_b5' in ds:
            nm.append(('_b5', ds.vel.shape[1:], ('range_b5', 'time_b5')))
        for s, shp, d in nm:
            for k in ('corr', 'amp'):
                ds[k + s] = xr.DataArray(rng.integers(1, 100, shp).astype('u1'), dims=d, attrs={'units': '%'})
    ds.attrs['note'] = ['a', 'b']
    A, B = ds.copy(deep=True), ds.copy(deep=True)
    done, kinds = 0, set()
    for op, arg in ops:
        if op in ('beyond', 'correlation') and not adp:
            continue
        if op == 'correlation' and c['kind'] == 'awac' and 'corr' not in A:
            continue
        kinds.add(op)
        done += 1
        ctx.label(op)
        what = '%s(%s) after %s' % (op, arg, ops[:ops.index((op, arg))])
        before = gen.snapshot(B)
        if op == 'look':
            with quiet():
                look(B, arg, c['seed'])
            gen.assert_unchanged(before, B, 'read-only operation %d' % arg)
            continue
        if op == 'principal':
            for d in (A, B):
                if arg == 'set':
                    d.attrs['principal_heading'] = c['phead']
                elif d.attrs['coord_sys'] != 'principal':
                    d.attrs.pop('principal_heading', None)
            continue
        if op == 'saveload':
            with scratch() as dd, quiet():
                f = os.path.join(dd, 'x.nc')
                dolfyn.save(B, f, compression=arg)
                gen.assert_unchanged(before, B, 'save')
                back = dolfyn.load(f)
            for k in B.data_vars:           # stored in single precision (P21)
                if B[k].dtype.kind == 'f':
                    close(back[k].values, B[k].values, 1e-6, 1e-30, 'saved and loaded ' + k)
            check(back.attrs['coord_sys'] == B.attrs['coord_sys'], 'frame after loading')
            # carry on with the loaded file
            A, B = back.copy(deep=True), back
            continue
        errA = errB = res = None
        with quiet():
            try:
                ret = apply(A, op, arg, True)
                check(ret is None, '{} in place returned something', op)
            except Exception as e:
                errA = e
            try:
                res = apply(B, op, arg, False)
            except Exception as e:
                errB = e
        from vlib.core import Violation
        for e in (errA, errB):
            if isinstance(e, Violation):
                raise e
        gen.assert_unchanged(before, B, '%s, inplace=False' % what)
        check(type(errA) is type(errB), '{}: in place {!r}, on a copy {!r}', what, errA, errB)
        if errA is None:
            check(isinstance(res, xr.Dataset), '{} returned {}', op, type(res))
            check(same(A, res), '{}: the in-place and the copying variant differ', what)
            # the copy shares nothing with its source
            k = 'vel'
            old = B[k].values.copy()
            res[k].values[...] = res[k].values + 1
            res.attrs['rotate_vars'].append('zz')
            check(np.array_equal(old, B[k].values, equal_nan=True), '{}: the copy shares memory with its source', op)
            check('zz' not in B.attrs['rotate_vars'], '{}: the copy shares attributes with its source', op)
            B = A.copy(deep=True)
        else:
            # a refused operation leaves usable data: same values once back in the old frame
            with quiet():
                if A.attrs['coord_sys'] != B.attrs['coord_sys']:
                    dolfyn.rotate2(A, B.attrs['coord_sys'], inplace=True)
            for k in B.data_vars:
                if B[k].dtype.kind == 'f' and not c['nan'] and not np.isnan(B[k].values).any():
                    close(A[k].values, B[k].values, 1e-5, 1e-5, 'after the refused %s: %s' % (op, k))
            A = B.copy(deep=True)
    ctx.nontrivial(done >= 3 and len(kinds) >= 2)
