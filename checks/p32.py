"""P32 workflows: cut in time or stored between steps, the results are the same."""
from vlib.core import Prop, check, quiet, scratch
from vlib import files
from vlib.gen import seeds, rng_of
import logging
import os
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn
from dolfyn.adp import clean as pc, turbulence as pt
from dolfyn.adv import clean as vc, turbulence as vt
from dolfyn.rotate.base import calc_tilt, orient2euler

logging.disable(logging.CRITICAL)
PROP = Prop('P32', 'at least two steps and an analysis of at least two ensembles', boost=1)
H = np.array([[0, 0, -1.], [0, -1, 0], [-1, 0, 0]])

STEPS = (st.tuples(st.just('rotate'), st.sampled_from(['beam', 'inst', 'earth', 'principal'])) | st.tuples(st.just('rotate'), st.sampled_from(['beam', 'inst', 'earth']))
         | st.tuples(st.just('declination'), st.sampled_from([8.28, -15., 0])) | st.tuples(st.just('head'), st.just(0))
         | st.tuples(st.just('offset'), st.sampled_from([.5, 1.25])) | st.tuples(st.just('surface'), st.sampled_from([35, 10]))
         | st.tuples(st.just('beyond'), st.sampled_from([None, -9.])) | st.tuples(st.just('corr'), st.sampled_from([20, 50]))
         | st.tuples(st.just('exceeds'), st.sampled_from([1, 5])) | st.tuples(st.just('range'), st.sampled_from([2, 6]))
         | st.tuples(st.just('derive'), st.just(0)))
case_st = st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(['vector', 'vector_imu', 'awac', 'trdi', 'signature', 'signature']), frame=st.sampled_from(files.FRAMES), nbin=st.integers(6, 12),
    nens=st.integers(2, 5), tail=st.integers(0, 3), ncells=st.integers(2, 6), nan=st.booleans(), b5=st.booleans(), steps=st.lists(STEPS, min_size=1, max_size=6),
    ana=st.integers(0, 2), freq=st.sampled_from(['rad/s', 'Hz']), cuts=st.integers(1, 15),
    store=st.lists(st.sampled_from(['nc', 'ncz', 'mat', '', '']), min_size=8, max_size=8)))


def build(c):
    rng = rng_of(c['seed'])
    f = files.build(c['kind'], rng, c['nbin'] * c['nens'] + c['tail'], c['frame'], ncells=c['ncells'])
    with scratch() as d:
        p = os.path.join(d, 'x.' + files.EXT[c['kind']])
        with open(p, 'wb') as fh:
            fh.write(f.data)
        with quiet(), np.errstate(all='ignore'):
            ds = dolfyn.read(p)
    n = ds.time.size
    if ds.time.size % c['nbin'] == 0 and ds.time.size // c['nbin'] < c['nens'] and n < 2 * c['nbin']:
        return None, rng
    v = ds['vel']
    v.values = (v.values * .05 + rng.normal(0, .4, v.shape)).astype('f4')
    if c['nan']:
        v.values[..., rng.integers(0, n)] = np.nan
        v.values[rng.random(v.shape) < .02] = np.nan
    if 'range' in v.dims:
        ds['pressure'] = (('time',), rng.uniform(.8, ds.range.values[-1] * 1.6 + 1.5, n).astype('f4'), dict(units='dbar', long_name='Pressure', standard_name='sea_water_pressure'))
        ds.attrs.setdefault('beam_angle', 20)
        if c['b5'] and c['kind'] == 'signature':
            ds = ds.assign_coords(range_b5=('range_b5', ds.range.values, ds.range.attrs), time_b5=('time_b5', ds.time.values, ds.time.attrs))
            ds['vel_b5'] = (('range_b5', 'time_b5'), rng.normal(0, .5, v.shape[1:]).astype('f4'), dict(v.attrs))
            for k in ('amp', 'corr'):
                ds[k + '_b5'] = (('range_b5', 'time_b5'), rng.integers(0, 100, v.shape[1:]).astype('u1'), dict(ds[k].attrs) if k in ds else dict(units='1'))
    for k in ('pitch', 'roll'):
        if k in ds:
            ds[k].values = (rng.normal(0, 4, n)).astype(ds[k].dtype)
    ds.attrs['principal_heading'] = 33.25
    return ds, rng


def step(ds, op, arg):
    adp = ds.attrs['inst_type'] == 'ADCP'
    if op == 'rotate':
        return dolfyn.rotate2(ds, arg, inplace=False)
    if op == 'declination':
        return dolfyn.set_declination(ds, arg, inplace=False)
    if op == 'head' and not adp and 'inst2head_rotmat' not in ds:
        return dolfyn.set_inst2head_rotmat(ds, H, inplace=False)
    ds = ds.copy(deep=True)
    if op == 'offset' and adp and 'h_deploy' not in ds.attrs:
        pc.set_range_offset(ds, arg)
    if op == 'surface' and adp:
        pc.find_surface_from_P(ds, salinity=arg)
    if op == 'beyond' and adp and 'depth' in ds:
        return pc.nan_beyond_surface(ds, val=np.nan if arg is None else arg)
    if op == 'corr' and adp and 'corr' in ds:
        return pc.correlation_filter(ds, thresh=arg)
    if op == 'exceeds':
        ds['vel'] = pc.val_exceeds_thresh(ds['vel'], thresh=arg)
    if op == 'range' and not adp:
        m = vc.range_limit(ds['vel'], arg)
        ds['vel'] = ds['vel'].where(~m)
    if op == 'derive':
        ds['mag_'] = ds.velds.U_mag
        ds['dir_'] = ds.velds.U_dir
        if 'pitch' in ds:
            ds['tilt_'] = (('time',), np.asarray(calc_tilt(ds['pitch'], ds['roll'])))
        for k, x in zip('hpr', orient2euler(ds)):
            ds['eul_' + k] = (('time',), np.asarray(x))
    return ds


def analyse(ds, c, hook):
    """Everything that gives one value per ensemble: name -> DataArray."""
    fs, nb, fu = ds.fs, c['nbin'], c['freq']
    adp = ds.attrs['inst_type'] == 'ADCP'
    fr = np.array([.15, .45]) * fs * (1 if fu == 'Hz' else 2 * np.pi)
    fr = [float(fr[0]), float(fr[1])]
    out = {}
    b = pt.ADPBinner(nb, fs, n_fft=nb) if adp else vt.ADVBinner(nb, fs, n_fft=nb)
    avg = hook(b.do_avg(ds))
    out.update({'avg.' + k: avg[k] for k in avg.data_vars})
    out['avg.time'] = avg['time']
    var = b.do_var(ds)
    out.update({'var.' + k: var[k] for k in var.data_vars})
    out['avgvar.I'] = b.calc_ti(ds.velds.U_mag, detrend=True)
    u = ds.vel[0] if not adp else ds.vel[0, 1]
    umag = avg.velds.U_mag
    psd = out['psd'] = b.calc_psd(u, freq_units=fu)
    out['acov'] = b.calc_acov(u)
    out['xcov'] = b.calc_xcov(u, ds.vel[1] if not adp else ds.vel[1, 1], npt=3)
    out['coh'] = b.calc_coh(u, ds.vel[2] if not adp else ds.vel[2, 1], n_fft_coh=nb // 2)
    out['phase'] = b.calc_phase_angle(u, ds.vel[2] if not adp else ds.vel[2, 1], n_fft_coh=nb // 2)
    p3 = psd if adp else b.calc_psd(ds.vel, freq_units=fu)
    out['psd3'], out['noise'] = p3, b.calc_doppler_noise(p3, pct_fN=.8)
    out['slope'], out['intercept'] = b.check_turbulence_cascade_slope(psd, freq_range=fr)
    if adp:
        out['eps'] = b.calc_dissipation_LT83(psd, umag.isel(range=1), freq_range=fr)
        if 'dir' in avg['vel'].dims and avg['vel'].shape[0] >= 3 and ds.sizes['range'] > 2:
            for k in ('calc_dudz', 'calc_dvdz', 'calc_dwdz', 'calc_shear2'):
                out[k] = getattr(b, k)(avg['vel'])
        if ds.inst_model != 'AWAC':
            raw = ds.copy(deep=True)
            if raw.coord_sys != 'beam':
                raw = dolfyn.rotate2(raw, 'beam', inplace=False)
            raw = hook(raw)
            ori = 'up' if c['seed'] % 2 else 'down'
            out['stress4'] = b.calc_stress_4beam(raw, noise=.01, orientation=ori)
            if 'vel_b5' in raw:
                t, s = b.calc_stress_5beam(raw, noise=.01, orientation=ori)
                out['tke5'], out['stress5'] = t, s
    else:
        tke = b.calc_tke(ds.vel, noise=[.01, .02, .03])
        out['tke'], out['stress'] = tke, b.calc_stress(ds.vel)
        out['csd'] = b.calc_csd(ds.vel, freq_units=fu, n_fft_coh=nb // 2)
        out['eps'] = b.calc_epsilon_LT83(p3, umag, freq_range=fr)
        out['eps_sf'] = b.calc_epsilon_SF(ds.vel[0], umag, fs=fs, freq_range=[float(x) for x in np.array([.25, .5]) * fs])
        out['L'] = b.calc_L_int(b.calc_acov(ds.vel), umag)
        avg['tke_vec'], avg['stress_vec'] = tke, out['stress']
        avg = hook(avg)
        out['tke_'], out['I_tke'], out['E_coh'] = avg.velds.tke, avg.velds.I_tke, avg.velds.E_coh
        if c['ana'] == 1:
            full = hook(vt.calc_turbulence(ds, n_bin=nb, fs=fs, freq_units=fu))
            out.update({'turb.' + k: full[k] for k in full.data_vars})
    return out


def workflow(ds, c, hook):
    """steps, then the analysis; which steps were refused is part of the result."""
    refused = []
    for i, (op, arg) in enumerate(c['steps']):
        try:
            ds = step(ds, op, arg)
        except Exception as e:
            refused.append((i, type(e).__name__))
        ds = hook(ds)
    return ds, refused


def join(parts, what):
    dim = [d for d in parts[0].dims if d.startswith('time')]
    for p in parts:
        check(p.dims == parts[0].dims, '{}: dimensions {} in one piece, {} in another', what, p.dims, parts[0].dims)
    return (np.concatenate([p.values for p in parts], parts[0].dims.index(dim[0])) if dim else parts[0].values), dim


def compare(got, want, what, rtol=1e-6, scale=1e-6, floor=1e-12):
    a, b = np.asarray(got), np.asarray(want)
    check(a.shape == b.shape, '{}: shape {}, expected {}', what, a.shape, b.shape)
    if b.dtype.kind == 'M':
        check((np.abs(a - b) < np.timedelta64(150, 'us')).all(), '{}: {}, expected {}', what, a.ravel()[:4], b.ravel()[:4])
    elif b.dtype.kind in 'fc':
        na, nb = np.isnan(a), np.isnan(b)
        check(np.array_equal(na, nb), '{}: missing at {}, expected {}', what, np.argwhere(na ^ nb)[:4].tolist(), np.argwhere(nb)[:4].tolist())
        ok = np.abs(b[~nb])
        big = ok[np.isfinite(ok)].max() if np.isfinite(ok).any() else 1
        with np.errstate(all='ignore'):
            bad = ~(np.isclose(a, b, rtol, scale * big + floor, equal_nan=True))
        check(not bad.any(), '{}: {}, expected {} at {}', what, a[bad][:4], b[bad][:4], np.argwhere(bad)[:3].tolist())
    else:
        check(np.array_equal(a, b), '{}: {}, expected {}', what, a.ravel()[:4], b.ravel()[:4])


ANG = ('dir_', 'eul_', 'heading', 'pitch', 'roll', 'phase')


@PROP.sub(case_st, quick=200, thorough=5000, shards=4)
def pieces(c, ctx):
    ds, rng = build(c)
    if ds is None or ds.time.size < 2 * c['nbin']:
        return
    nb, nt = c['nbin'], ds.time.size
    ne = nt // nb
    same = lambda d: d                                                # noqa: E731
    cuts = [0] + [k * nb for k in range(1, ne) if c['cuts'] >> (k - 1) & 1] + [nt]
    if len(cuts) == 2:
        cuts = [0, nb, nt]
    parts = []
    for a, b in zip(cuts[:-1], cuts[1:]):
        s = {d: slice(a, b) for d in ds.dims if d.startswith('time')}
        parts.append(ds.isel(s).copy(deep=True))
    with quiet(), np.errstate(all='ignore'):
        w, ref = workflow(ds, c, same)
        ps = [workflow(p, c, same) for p in parts]
        for p, r in ps:
            check(r == ref, 'refused in one piece: {}, in the whole: {}', r, ref)
            check(p.attrs['coord_sys'] == w.attrs['coord_sys'], 'frames differ')
            check(set(p.variables) == set(w.variables), 'variables differ')
        for k in w.variables:
            got, dim = join([p[k] for p, _ in ps], k)
            compare(got, w[k].values, 'after the steps, %s of the pieces, of the whole' % k)
        try:
            res = analyse(w, c, same)
        except Exception as e:
            res = e
        if isinstance(res, Exception):
            for p, _ in ps:
                try:
                    analyse(p, c, same)
                except Exception as e:
                    check(type(e) is type(res), 'analysis of the whole: {!r}, of a piece: {!r}', res, e)
                    ctx.label('analysis refused: ' + str(e)[:40])
                else:
                    check(False, 'analysis of the whole: {!r}, of a piece: accepted', res)
            return
        pr = [analyse(p, c, same) for p, _ in ps]
    for k, x in res.items():
        if k.removeprefix('turb.') in ('acov', 'xcov', 'csd', 'coh', 'phase', 'L'):         # take in the ends of the neighbouring ensembles
            continue
        got, dim = join([r[k] for r in pr], k)
        if not dim and k != 'avg.time':
            for r in pr:
                compare(r[k].values, x.values, k + ' of a piece, of the whole')
            continue
        compare(got, x.values, 'analysis: %s of the pieces, of the whole' % k, 1e-5)
    ctx.nontrivial(len(c['steps']) > 1 and ne > 1)
    ctx.label(c['kind'], '%d pieces' % len(parts), *['refused'] * bool(ref))


def storer(c, d, ctx):
    k = iter(list(c['store']) + [''] * 20)
    n = [0]

    def hook(ds):
        how = next(k)
        if not how or any(ds.sizes[t] < 2 for t in ds.dims if t.startswith('time')):     # (finding P22 single_step)
            return ds
        n[0] += 1
        if how == 'mat' and 'mag_' not in ds and 'U_std' not in ds:       # (finding P22 derived_dims)
            p = os.path.join(d, 'x%d.mat' % n[0])
            dolfyn.save_mat(ds, p)
            ctx.label('mat')
            return dolfyn.load_mat(p)
        p = os.path.join(d, 'x%d.nc' % n[0])
        dolfyn.save(ds, p, compression=how == 'ncz')
        ctx.label('nc')
        return dolfyn.load(p)
    return hook, n


@PROP.sub(case_st, quick=150, thorough=4000, shards=4)
def stored(c, ctx):
    ds, rng = build(c)
    if ds is None or ds.time.size < 2 * c['nbin']:
        return
    same = lambda d: d                                                # noqa: E731
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        hook, n = storer(c, d, ctx)
        w, ref = workflow(ds.copy(deep=True), c, same)
        try:
            res = analyse(w, c, same)
        except Exception as e:
            res = e
        g, r = workflow(ds.copy(deep=True), c, hook)
        check(r == ref, 'refused with storing: {}, without: {}', r, ref)
        check(g.attrs['coord_sys'] == w.attrs['coord_sys'], 'frames differ')
        check(set(g.variables) == set(w.variables), 'variables differ: {}', set(g.variables) ^ set(w.variables))
        for k in w.variables:
            check(g[k].dims == w[k].dims, 'after the steps, dims of {}', k)
            compare(g[k].values, w[k].values, 'after the steps, %s with storing, without' % k, 1e-5, 1e-5)
        try:
            out = analyse(g, c, hook)
        except Exception as e:
            check(isinstance(res, Exception) and type(e) is type(res), 'analysis without storing: {!r}, with: {!r}', res, e)
            ctx.label('analysis refused: ' + str(e)[:40])
            return
        check(not isinstance(res, Exception), 'analysis without storing: {!r}, with: accepted', res)
        # what single precision can do to the results (motion much smaller than the flow)
        near = w.copy(deep=True)
        for k in near.data_vars:
            if near[k].dtype.kind == 'f' and 'time' in str(near[k].dims):
                near[k].values = (near[k].values * (1 + 1e-7 * rng_of(c['seed'], 12).normal(size=near[k].shape))).astype(near[k].dtype)
        try:
            near = analyse(near, c, same)
        except Exception:
            near = {}
    for k, x in res.items():
        if k in ('slope', 'intercept', 'eps', 'phase', 'coh', 'L') or k.startswith('turb.eps'):
            check(out[k].shape == x.shape, 'shape of {}', k)       # ill-conditioned: not compared
            continue
        floor = 1e-12
        if k in near and x.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                e = np.abs(near[k].values - x.values)
            floor += 50 * (e[np.isfinite(e)].max() if np.isfinite(e).any() else 0)
        compare(out[k].values, x.values, 'analysis: %s with storing, without' % k, 1e-3, 2e-4, floor)
    ctx.nontrivial(len(c['steps']) > 1 and n[0] > 0)
    ctx.label(c['kind'])
