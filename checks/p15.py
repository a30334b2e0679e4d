"""P15 turbulent kinetic energy, Reynolds stress and turbulence intensity."""
from vlib import history
from vlib.core import Prop, check, close, raises
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
import warnings
from hypothesis import strategies as st
from dolfyn import VelBinner
from dolfyn.adv.api import ADVBinner, calc_turbulence
from dolfyn.adp.api import ADPBinner
from checks.p12 import sig, kinds, lin, ref_psd
from checks.p13 import da, time_ok

PROP = Prop('P15', 'at least two bins of at least four samples')


@st.composite
def case_(draw):
    n = draw(now_and_then(st.integers(2, 40), [128, 300, 1200]))
    nb = draw(now_and_then(st.integers(1, 5), [20, 60] if n < 100 else [3]))
    return dict(n=n, nb=nb, rem=draw(st.integers(0, n - 1)), fs=draw(st.sampled_from([1, 2, 8])),
                dtype=draw(st.sampled_from(['f8', 'f4'])), detrend=draw(st.booleans()),
                kind=draw(kinds), seed=draw(seeds), noise=draw(st.sampled_from(['none', 'scalar', 'vec', 'time', 'da'])),
                shape=draw(st.sampled_from(['vec', 'time', 'range'])), nr=draw(st.integers(1, 5)),
                nan=draw(st.sampled_from([0, 0, 0.15])), thresh=draw(st.sampled_from([0, 0, 0.5, 1.5])), gust=draw(st.booleans()))


def rows_of(c, k):
    L = c['n'] * c['nb'] + c['rem']
    rng = rng_of(c['seed'])
    return np.array([sig(rng, L, c['kind'], 1.) for _ in range(k)]).astype(c['dtype'])


def lin_gaps(y):
    """What is left of the samples that there are, without their trend line."""
    k = ~np.isnan(y)
    if k.all():
        return lin(y)
    out = np.full(len(y), np.nan)
    if k.sum() > 1:
        t = np.flatnonzero(k) - np.flatnonzero(k).mean()
        d = y[k] - y[k].mean()
        out[k] = d - t * (d @ t) / (t @ t)
    return out


def fluct(x, c):
    """(…, nb, n) fluctuations about the bin mean or trend."""
    n, nb = c['n'], c['nb']
    w = x[..., :n * nb].astype('f8').reshape(x.shape[:-1] + (nb, n))
    if c['detrend']:
        return np.apply_along_axis(lin_gaps, -1, w)
    return w - np.nanmean(w, -1, keepdims=True)


TOL = {'f8': 2e-6, 'f4': 5e-4}


@PROP.sub(case_(), quick=900, shards=4)
def tke(c, ctx):
    b = VelBinner(n_bin=c['n'], fs=c['fs'])
    k = {'vec': 3, 'time': 1, 'range': c['nr']}[c['shape']]
    x = rows_of(c, k)
    if c['nan']:
        x[rng_of(c['seed'], 1).random(x.shape) < c['nan']] = np.nan
    ctx.nontrivial(c['nb'] > 1 and c['n'] >= 4)
    ctx.label(c['shape'], c['noise'])
    if c['shape'] == 'vec':
        v = da(x, c['fs'])
    elif c['shape'] == 'time':
        v = da(x[0], c['fs'])
    else:
        t = da(x, c['fs']) if k <= 3 else da(np.tile(x[:1], (3, 1)), c['fs'])
        v = xr.DataArray(x, dims=['range', 'time'], coords={'range': 0.5 * np.arange(k) + 1, 'time': t.time.values})
    rng = rng_of(c['seed'], 2)
    nz, sub = None, 0
    if c['noise'] != 'none':
        if c['shape'] == 'vec':
            if c['noise'] in ('time', 'da'):
                nz = rng.uniform(0, 0.3, (3, c['nb']))
                sub = nz ** 2
                if c['noise'] == 'da':
                    nz = xr.DataArray(nz, dims=['S', 'time'])
            else:
                nz = rng.uniform(0, 0.3, 3)
                sub = nz[:, None] ** 2
        elif c['noise'] in ('scalar', 'vec') or c['shape'] == 'time' and c['noise'] != 'da':
            nz = 0.2
            sub = 0.04
        else:
            nz = rng.uniform(0, 0.3, c['nb'])
            sub = nz ** 2
            if c['noise'] == 'da':
                nz = xr.DataArray(nz, dims=['time'])
    keep = v.copy(deep=True)
    with np.errstate(all='ignore'):
        got = b.calc_tke(v, noise=nz, detrend=c['detrend'])
        want = np.nanmean(fluct(v.values, c) ** 2, -1) - sub
    check(v.identical(keep), 'calc_tke changed its input')
    scale = max(1, np.nanmax(np.abs(x)) ** 2 if c['dtype'] == 'f4' else 1)
    close(got.values, want, TOL[c['dtype']], TOL[c['dtype']] * scale, 'calc_tke')
    time_ok(got, v, c['n'])
    if c['shape'] == 'vec':
        check(got.dims == ('tke', 'time') and list(got.tke.values) == ['upup_', 'vpvp_', 'wpwp_'], 'tke axis')
    else:
        check(got.dims == v.dims, 'dims {}', got.dims)
    if nz is None:
        g2 = b.calc_tke(v * -2 + 3, detrend=c['detrend'])
        close(g2.values, 4 * got.values, 5e-4, 1e-3 * scale if c['dtype'] == 'f4' else 1e-6, 'scaling')


@PROP.sub(case_(), quick=700, shards=4)
def stress(c, ctx):
    b = ADVBinner(n_bin=c['n'], fs=c['fs'])
    x = rows_of(c, 3)
    x[1] += (0.7 * x[0]).astype(x.dtype)
    if c['nan']:
        x[:, rng_of(c['seed'], 1).random(x.shape[1]) < c['nan']] = np.nan
    ctx.nontrivial(c['nb'] > 1 and c['n'] >= 4)
    v = da(x, c['fs'])
    keep = v.copy(deep=True)
    with np.errstate(all='ignore'):
        got = b.calc_stress(v, detrend=c['detrend'])
        f = fluct(x, c)
        want = np.array([np.nanmean(f[i] * f[j], -1) for i, j in ((0, 1), (0, 2), (1, 2))])
    check(v.identical(keep), 'calc_stress changed its input')
    scale = max(1, np.nanmax(np.abs(x)) ** 2 if c['dtype'] == 'f4' else 1)
    close(got.values, want, TOL[c['dtype']], TOL[c['dtype']] * scale, 'calc_stress')
    check(got.dims == ('tau', 'time') and list(got.tau.values) == ['upvp_', 'upwp_', 'vpwp_'], 'tau axis')
    time_ok(got, v, c['n'])
    # realisable: |u'v'|^2 <= u'u' v'v'
    if not c['nan']:
        t = b.calc_tke(v, detrend=c['detrend']).values
        for k, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
            lim = np.sqrt(np.maximum(t[i] * t[j], 0))
            check((np.abs(got.values[k]) <= lim * 1.001 + 1e-4 * scale).all(), 'stress beyond Schwarz bound')


@PROP.sub(case_(), quick=700, shards=4)
def ti(c, ctx):
    b = VelBinner(n_bin=c['n'], fs=c['fs'])
    k = 1 if c['shape'] == 'time' else c['nr']
    x = np.abs(rows_of(c, k)) + 0.2
    if c['nan']:
        x[rng_of(c['seed'], 1).random(x.shape) < c['nan']] = np.nan
    if c['gust'] and c['thresh']:
        # slow but energetic: one gust in each other ensemble
        i = np.flatnonzero((np.arange(x.shape[-1]) // c['n']) % 2 == 0)
        x[:, i] = 0.02 + 0.02 * x[:, i] / np.nanmax(np.abs(x))
        x[:, i[c['n'] // 2::c['n']]] += 0.8 * c['n'] * c['thresh']
    t = da(x[0], c['fs']).time.values
    if c['shape'] == 'time':
        v = xr.DataArray(x[0], dims=['time'], coords={'time': t})
    else:
        v = xr.DataArray(x, dims=['range', 'time'], coords={'range': np.arange(k) + 1., 'time': t})
    ctx.nontrivial(c['nb'] > 1 and c['n'] >= 4)
    nz = {'none': 0, 'scalar': 0.05, 'vec': 0.02}.get(c['noise'])
    if nz is None:
        nz = rng_of(c['seed'], 3).uniform(0, 0.05, c['nb'])
    arg = xr.DataArray(nz, dims=['time']) if c['noise'] == 'da' else nz
    keep = v.copy(deep=True)
    with np.errstate(all='ignore'):
        got = b.calc_ti(v, noise=arg, thresh=c['thresh'], detrend=c['detrend'])
        f = fluct(v.values, c)
        n, nb = c['n'], c['nb']
        m = v.values[..., :n * nb].astype('f8').reshape(v.shape[:-1] + (nb, n))
        m = np.nanmean(m, -1)
        var = np.nanmean(f ** 2, -1) - np.asarray(nz) ** 2
        want = np.sqrt(var) / m
    check(v.identical(keep), 'calc_ti changed its input')
    low = m < c['thresh']
    near = np.abs(m - c['thresh']) < 1e-5
    with np.errstate(all='ignore'):
        ctx.label('below threshold' if low.any() else 'all above', 'gust' if (low & (var > c['thresh']**2)).any() else 'none')
    check(got.dims == v.dims, 'dims {}', got.dims)
    check(np.isnan(got.values[low & ~near]).all(), 'turbulence intensity reported below the threshold')
    sel = ~low & ~near & (np.abs(var) > 1e-4 * (1 + m ** 2 * (c['dtype'] == 'f4')))
    close(got.values[sel], want[sel], 1e-2 if c['dtype'] == 'f4' else 1e-4, 1e-5, 'calc_ti')
    time_ok(got, v, n)


@PROP.sub(case_(), quick=60)
def rejected(c, ctx):
    ctx.nontrivial()
    x = rows_of(c, 3)
    b = VelBinner(n_bin=c['n'], fs=c['fs'])
    v = xr.DataArray(x[:, None], dims=['dir', 'range', 'time'],
                     coords={'dir': list('ENU'), 'range': [1.], 'time': da(x, 1).time.values})
    raises(Exception, b.calc_tke, v, _what='3-D velocity')
    raises(Exception, b.calc_tke, da(x, 1), np.array([0.1, 0.1]), _what='two noise values for three components')


@PROP.sub(case_(), quick=100, shards=2)
def suite(c, ctx):
    """ADVBinner(...) / calc_turbulence: the averages plus the three statistics."""
    from vlib import gen
    c = dict(c, n=max(c['n'], 8))
    L = c['n'] * c['nb'] + c['rem']
    g = dict(kind='vector', seed=c['seed'], nt=L, nr=1, frame='earth', rough=True, nan=0, tilt=5,
             scale=1.0, phead=30., extra=False, down='all', head='none')
    ds = gen.build(g, fs=c['fs'])
    ds.attrs['hdw_config'] = {'a': 1}
    nz = c['noise'] != 'none'
    if nz:
        ds['doppler_noise'] = ('dirn', np.array([0.1, 0.2, 0.05]))
    snap = gen.snapshot(ds)
    b = ADVBinner(n_bin=c['n'], fs=c['fs'])
    units = 'Hz' if c['detrend'] else 'rad/s'
    ctx.nontrivial(c['nb'] > 1)
    out = b(ds, freq_units=units)
    gen.assert_unchanged(snap, ds, 'ADVBinner()')
    noise = ds['doppler_noise'].values if nz else None
    close(out['tke_vec'].values, b.calc_tke(ds.vel, noise=noise).values, 1e-6, 1e-9, 'tke_vec')
    close(out['stress_vec'].values, b.calc_stress(ds.vel).values, 1e-6, 1e-9, 'stress_vec')
    close(out['psd'].values, b.calc_psd(ds.vel, freq_units=units, noise=noise).values, 1e-6, 1e-12, 'psd')
    av = b.do_avg(ds)
    for k in av.data_vars:
        close(out[k].values, av[k].values, 1e-6, 1e-9, k)
    check(out.attrs['n_bin'] == c['n'] and out.attrs['n_fft'] == c['n'], 'n_bin, n_fft attributes')
    check(not any('config' in k for k in out.attrs), 'instrument configuration carried into the averages')
    f = calc_turbulence(ds, n_bin=c['n'], fs=c['fs'], freq_units=units)
    check(f.identical(out), 'calc_turbulence differs from ADVBinner')


@PROP.sub(case_(), quick=120, shards=2)
def local(c, ctx):
    """An ensemble's statistics come from its own samples: others may be missing."""
    from vlib import gen
    n = max(c['n'], 8)
    nb = c['nb'] + 1
    rng = rng_of(c['seed'], 5)
    L = n * nb + c['rem']
    g = dict(kind='vector', seed=c['seed'], nt=L, nr=1, frame='earth', rough=True, nan=0, tilt=5,
             scale=1.0, phead=30., extra=False, down='all', head='none')
    ds = gen.build(g, fs=c['fs'])
    v = ds.vel.values + np.array([1.5, -0.3, 0.])[:, None]
    bad = rng.random(nb) < 0.5
    bad[rng.integers(nb)] = True
    bad[rng.integers(nb)] = False
    near = np.convolve(np.r_[0, bad, 0], [1, 1, 1], 'valid') > 0.5
    w = v.copy()
    for i in np.flatnonzero(bad):
        how = rng.integers(4)
        s = slice(i * n, (i + 1) * n)
        if how == 0:
            w[:, s] = np.nan
        elif how == 1:
            w[:, s][:, rng.random(n) < 0.3] = np.nan
        elif how == 2:
            w[int(rng.integers(3)), i * n + int(rng.integers(n))] = np.nan
        else:
            w[:, s] *= 50
    ok = ~bad
    ctx.nontrivial(c['n'] >= 4)
    ctx.label('some good' if ok.any() else 'none good')
    out = []
    b = ADVBinner(n_bin=n, fs=c['fs'])
    f1 = c['fs'] / 2.
    units = 'Hz' if c['detrend'] else 'rad/s'
    k = 1 if units == 'Hz' else 2 * np.pi
    for x in (v, w):
        d = ds.copy(deep=True)
        d['vel'] = (d.vel.dims, x.astype(c['dtype']), d.vel.attrs)
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a = b(d, freq_units=units)
            U = a.velds.U_mag
            r = [a[q] for q in a.data_vars]
            r += [b.calc_ti(d.velds.U_mag), b.calc_csd(d.vel), b.calc_acov(d.vel), b.calc_xcov(d.vel[0], d.vel[1]),
                  b.calc_psd(d.vel[0], freq_units=units, window=None), b.calc_doppler_noise(a.psd, pct_fN=0.6),
                  b.calc_epsilon_LT83(a.psd, U, [0.05 * f1 * k, 0.9 * f1 * k]),
                  b.calc_epsilon_TE01(d, a, [0.05 * f1 * k, 0.9 * f1 * k]),
                  b.calc_L_int(b.calc_acov(d.vel), U)]
        out.append(r)
    for p, q in zip(*out):
        ax = [j for j, t in enumerate(p.dims) if 'time' in t]
        if not ax:
            close(q.values, p.values, 1e-9, 0, str(p.name))
            continue
        check(p.shape == q.shape, 'shape of {}', p.name)
        if p.dtype.kind not in 'fc':
            continue
        # cross-spectra and covariances draw on the neighbouring ensembles too
        good = ~near if {'lag', 'coh_freq'} & set(p.dims) or p.attrs.get('long_name') == 'Integral Length Scale' else ok
        a_, b_ = np.moveaxis(p.values, ax[0], 0)[good], np.moveaxis(q.values, ax[0], 0)[good]
        close(b_, a_, 1e-5 if c['dtype'] == 'f8' else 1e-4, 1e-9, '%s of an untouched ensemble' % (p.attrs.get('long_name') or p.name))


history.add(PROP, 'P15', 'adv')
