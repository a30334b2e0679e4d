"""P11 binning and bin averages."""
from vlib import history
from vlib.core import Prop, check, close, raises
from vlib import gen
from vlib.gen import seeds, rng_of, now_and_then
import warnings
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from dolfyn import VelBinner
from dolfyn.adv.api import ADVBinner
from dolfyn.adp.api import ADPBinner

PROP = Prop('P11', 'at least two complete bins (and, for datasets, a remainder, NaN or >1 lane)')


@st.composite
def bins(draw, max_bin=40, frac=True):
    n = draw(now_and_then(st.integers(1, max_bin), [128, 250, 601, 1024, 4096], 16))
    f = draw(st.sampled_from([0, 0, 0.01, 0.2, 0.5, 0.9])) if frac else 0
    nb = draw(st.integers(1, 6) | st.integers(6, 200 if n < 200 else 9).filter(lambda x: x * n < 2000 or n > 100 and x * n < 40000))
    length = int(np.ceil((n + f) * nb)) + draw(st.integers(0, max(0, n - 1)))
    return dict(n=n, f=f, length=length, lead=draw(st.lists(st.integers(1, 3), max_size=2)),
                seed=draw(seeds), nan=draw(st.sampled_from([0, 0, 0.2, 0.7])),
                dtype=draw(st.sampled_from(['f8', 'f8', 'f4', 'i4', 'c16'])),
                default=draw(st.booleans()), offset=draw(st.sampled_from([0, 3., 1e3])))


def arr(c):
    rng = rng_of(c['seed'])
    shp = c['lead'] + [c['length']]
    a = rng.normal(0, 5, shp) + c['offset']
    if c['dtype'] == 'c16':
        a = a + 1j * rng.normal(0, 5, shp)
    a = a.astype(c['dtype'])
    if c['dtype'][0] in 'fc' and c['nan']:
        a[rng.random(shp) < c['nan']] = np.nan
    return a


def ref_bins(a, nb_req):
    """(…, n_bins, int(n_bin)) by explicit indices, per the docstring."""
    n = int(nb_req)
    L = a.shape[-1]
    nbins = int(L // n)          # every complete bin whose samples exist
    idx = [[int(k * nb_req // n) if nb_req != n else k for k in range(b * n, b * n + n)]
           for b in range(nbins)]
    while idx and idx[-1][-1] >= L:
        idx = idx[:-1]
    return a[..., np.array(idx, dtype=int).reshape(len(idx), n)]


def binner(c, cls=VelBinner, **k):
    nbin = c['n'] + c['f']
    if c['default']:
        return cls(n_bin=nbin, fs=8, **k), {}
    return cls(n_bin=7, fs=8, **k), dict(n_bin=nbin)


@PROP.sub(bins(), quick=400)
def reshape(c, ctx):
    a = arr(c)
    keep = a.copy()
    b, kw = binner(c)
    want = ref_bins(a, c['n'] + c['f'])
    ctx.nontrivial(want.shape[-2] > 1)
    got = b.reshape(a, **kw)
    close(got, want, 0, 0, 'reshape')
    check(np.array_equal(a, keep, equal_nan=a.dtype.kind in 'fc'), 'reshape changed its input')


@PROP.sub(st.tuples(bins(frac=False), st.integers(1, 40)), quick=300)
def padded(case, ctx):
    c, pad = case
    pad = min(pad, c['n'])
    c = dict(c, nan=0)
    a = arr(c)
    b, kw = binner(c)
    core_ = ref_bins(a, c['n'])
    p0, p1 = pad // 2, (pad + 1) // 2
    nb, n = core_.shape[-2:]
    ctx.nontrivial(nb > 1)
    want = np.zeros(core_.shape[:-1] + (n + pad,), dtype=a.dtype)
    flat = a[..., :nb * n]
    for i in range(nb):
        lo, hi = i * n - p0, i * n + n + p1
        for j, s in enumerate(range(lo, hi)):
            if 0 <= s < nb * n:
                want[..., i, j] = flat[..., s]
    close(b.reshape(a, n_pad=pad, **kw), want, 0, 0, 'reshape with n_pad')


@PROP.sub(bins(), quick=500)
def stats(c, ctx):
    a = arr(c)
    b, kw = binner(c)
    w = ref_bins(a, c['n'] + c['f'])
    ctx.nontrivial(w.shape[-2] > 1)
    ctx.label('nan' if c['nan'] else 'full')
    w = w.astype('c16' if a.dtype.kind == 'c' else 'f8')
    tol = 1e-5 if c['dtype'] == 'f4' else 1e-9
    with np.errstate(all='ignore'):
        m = np.nanmean(w, -1)
    close(b.mean(a, **kw), m, tol, tol * (20 + c['offset']), 'mean')
    if a.dtype.kind != 'c':
        good = ~np.isnan(w)
        cnt = good.sum(-1)
        dev = np.where(good, w - m[..., None], 0)
        with np.errstate(all='ignore'):
            var = np.where(cnt > 0, (dev ** 2).sum(-1) / np.maximum(cnt, 1), np.nan)
        # the variance is accumulated in single precision
        at = 1e-4 + 2e-6 * c['offset'] * (1 + c['offset'] * 1e-3)
        close(b.var(a, **kw), var, 1e-3, at, 'var')
        close(b.std(a, **kw), np.sqrt(var), 1e-3, max(at, np.sqrt(at) * 0.1), 'std')
        close(b.demean(a, **kw), w - m[..., None], tol, 2 * tol * (20 + c['offset']), 'demean')


@PROP.sub(bins(max_bin=30), quick=250)
def detrended(c, ctx):
    c = dict(c, dtype='f8' if c['dtype'] in ('c16', 'i4') else c['dtype'])
    c['n'] = max(2, c['n'])
    if c['length'] < c['n'] + c['f']:
        c['length'] = c['n'] + 2
    a = arr(c)
    b, kw = binner(c)
    w = ref_bins(a, c['n'] + c['f']).astype('f8')
    ctx.nontrivial(w.shape[-2] > 1)
    x = np.where(np.isnan(w), np.nan, np.arange(w.shape[-1]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = x - np.nanmean(x, -1, keepdims=True)
        d = w - np.nanmean(w, -1, keepdims=True)
        # ... one sample: it is its own mean, whatever the line
        slope = np.nansum(d * x, -1, keepdims=True) / np.nansum(x ** 2, -1, keepdims=True)
    tol = 2e-4 if c['dtype'] == 'f4' else 1e-7
    close(b.detrend(a, **kw), d - slope * x, tol, tol * (10 + c['offset']), 'detrend')


@PROP.sub(st.tuples(bins(), st.integers(1, 500)), quick=60)
def too_short(case, ctx):
    c, more = case
    ctx.nontrivial()
    a = arr(c)
    b = VelBinner(n_bin=a.shape[-1] + more, fs=8)
    raises(Exception, b.reshape, a, _what='n_bin longer than the data')
    raises(Exception, b.mean, a, _what='n_bin longer than the data')


@PROP.sub(st.tuples(st.integers(1, 50), st.integers(1, 6), st.integers(0, 49),
                    st.sampled_from([1, 2, 4, 8, 16, 0.1]), st.integers(-10 ** 9, 2 * 10 ** 9)), quick=150)
def times(case, ctx):
    n, nb, rem, fs, t0 = case
    L = n * nb + rem % n
    t = (np.datetime64(0, 'ns') + np.timedelta64(t0, 's') +
         np.round(np.arange(L) * 1e9 / fs).astype('timedelta64[ns]'))
    ctx.nontrivial(nb > 1 and n > 1)
    got = VelBinner(n_bin=n, fs=fs).mean(t)
    check(got.dtype.kind == 'M', 'mean of times is not datetime64: {}', got.dtype)
    want = np.array([int(t[i * n:(i + 1) * n].astype('i8').astype(object).sum()) / n for i in range(nb)])
    check(len(got) == nb, '{} mean times for {} bins', len(got), nb)
    err = np.abs(got.astype('datetime64[ns]').astype('i8').astype(float) - want)
    check((err < 3e3).all(), 'bin mean time off by {} ns', err.max())


SET = gen.ds_case(frames=['inst', 'earth', 'beam'], min_t=4, max_t=24, decl=False)


def check_avg(c, raw, out, n, func, suffix, names):
    nb = raw.sizes['time'] // n
    for k in names:
        v = raw[k]
        if 'time' not in str(v.dims[-1:]) or 'altraw' in str(v.dims) or 'ensemble' in k:
            check(k + suffix not in out.data_vars or n == 1, '{} has no time axis but was averaged', k)
            continue
        check(k + suffix in out.data_vars, '{} missing from the output', k + suffix)
        o = out[k + suffix]
        check(o.dims == v.dims, '{}: dims {} became {}', k, v.dims, o.dims)
        check(o.dtype == np.float32, '{}: dtype {}', k, o.dtype)
        x = v.values[..., :nb * n].astype('f8').reshape(v.shape[:-1] + (nb, n))
        close(o.values, func(x), 2e-4, 2e-4 * c['scale'] + 1e-4, k + suffix)
        for d in v.dims[:-1]:
            check(list(np.asarray(o[d].values)) == list(np.asarray(v[d].values)),
                  '{}: coordinate {} changed', k, d)
        t = raw[v.dims[-1]].values[:nb * n].astype('i8').reshape(nb, n)
        want = t[:, 0] + (t - t[:, :1]).mean(-1)
        got = o[v.dims[-1]].values.astype('datetime64[ns]').astype('i8')
        check(np.abs(got - want).max() < 3e3, '{}: bin time is not the mean of its samples\' times', k)
        for a in ('units', 'long_name'):
            if a in v.attrs:
                check(o.attrs.get(a) == v.attrs[a], '{}: attribute {} lost', k, a)


@PROP.sub(st.tuples(SET, st.integers(1, 8), st.booleans(), st.sampled_from(['vel', 'adv', 'adp'])),
          quick=160, shards=2)
def datasets(case, ctx):
    c, n, sel, cl = case
    raw = gen.build(c, fs=8)
    n = min(n, raw.sizes['time'])
    raw['ensemble'] = ('time', np.arange(raw.sizes['time']))
    if c['kind'] == 'sig':
        raw['amp_altraw'] = (('n_altraw', 'time_altraw'), np.arange(20.).reshape(10, 2))
        raw['temp_altraw'] = (('time_altraw',), [4., 5])
        raw = raw.assign_coords(time_altraw=('time_altraw', raw.time.values[:2]))
    cls = {'vel': VelBinner, 'adv': ADVBinner, 'adp': ADPBinner}[cl]
    b = cls(n_bin=n, fs=8)
    names = ['vel'] if sel else None
    nb = raw.sizes['time'] // n
    ctx.nontrivial(nb > 1 and n > 1)
    ctx.label(c['kind'])
    snap = gen.snapshot(raw)
    out = b.do_avg(raw, names=names)
    with np.errstate(all='ignore'):
        def mean(x):
            return np.nanmean(x, -1)

        def var(x):
            return np.nanvar(x, -1)
        check_avg(c, raw, out, n, mean, '', names or list(raw.data_vars))
        u = raw['vel'].values[:2].astype('f8')
        mag = np.sqrt(u[0] ** 2 + u[1] ** 2)[..., :nb * n]
        std = np.nanstd(mag.reshape(mag.shape[:-1] + (nb, n)), -1)
        close(out['U_std'].values, std, 1e-3, 1e-3 * c['scale'], 'U_std')
        for k, v in raw.attrs.items():
            check(k in out.attrs and str(out.attrs[k]) == str(v), 'attribute {} not carried to the averages', k)
        check(out.attrs['n_bin'] == n, 'n_bin attribute {}', out.attrs.get('n_bin'))
        check(out.attrs['fs'] == 8 and out.attrs.get('n_fft') == n, 'fs, n_fft attributes {}, {}', out.attrs['fs'], out.attrs.get('n_fft'))
        out2 = b.do_var(raw, names=names)
        check_avg(c, raw, out2, n, var, '_var', names or list(raw.data_vars))
        both = b.do_var(raw, out_ds=out, names=names)
        check('vel' in both and 'vel_var' in both, 'do_var(out_ds=) lost variables')
        close(both['vel_var'].values, out2['vel_var'].values, 0, 0, 'do_var into out_ds')
        both = b.do_var(raw, names=names, suffix='_s2')
        close(both['vel_s2'].values, out2['vel_var'].values, 0, 0, 'do_var suffix')
    gen.assert_unchanged(snap, raw, 'do_avg/do_var')


@PROP.sub(st.tuples(SET, st.sampled_from(['fs', 'attr', 'empty', 'burst'])), quick=80)
def inconsistent(case, ctx):
    c, why = case
    ctx.nontrivial()
    ctx.label(why)
    raw = gen.build(c, fs=8)
    if why == 'fs':
        raises(Exception, VelBinner(n_bin=2, fs=4).do_avg, raw, _what='sampling rate mismatch')
        raises(Exception, VelBinner(n_bin=2, fs=4).do_var, raw, _what='sampling rate mismatch')
    elif why == 'attr':
        out = VelBinner(n_bin=2, fs=8).do_avg(raw)
        raises(AttributeError, VelBinner(n_bin=4, fs=8).do_avg, raw, out, _what='inconsistent out_ds')
        raw.attrs['inst_model'] = 'other'
        raises(AttributeError, VelBinner(n_bin=2, fs=8).do_var, raw, out, _what='inconsistent out_ds')
    elif why == 'burst':
        for n in (1, 2, 3, 4):
            raw.attrs['duty_cycle_n_burst'] = n
            for nb in (1, 2, 3, 4):
                with warnings.catch_warnings(record=True) as w, np.errstate(all='ignore'):
                    warnings.simplefilter('always')
                    VelBinner(n_bin=nb, fs=8, n_fft=nb).do_avg(raw)
                said = any('burst' in str(x.message) for x in w)
                check(said == (nb > n), 'averages of {} samples over bursts of {}: {}', nb, n, 'a warning' if said else 'no warning')
    else:
        raises(RuntimeError, VelBinner(n_bin=2, fs=8).do_avg, raw.isel(time=slice(0, 0)), _what='empty data')


history.add(PROP, 'P11', 'vel')
