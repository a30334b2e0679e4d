"""P16 dissipation rate, Doppler noise, cascade slope and length scale."""
from vlib import history
from vlib.core import Prop, Violation, check, close, raises
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from dolfyn.adv.api import ADVBinner
from dolfyn.adp.api import ADPBinner
from checks.p12 import sig, kinds
from checks.p13 import da

PROP = Prop('P16', 'at least two ensembles with different parameters')
ALPHA = 0.5


@st.composite
def spec(draw):
    return dict(nt=draw(now_and_then(st.integers(1, 5), [20, 60])), nf=draw(now_and_then(st.integers(10, 60), [256, 1024])), fs=draw(st.sampled_from([2, 4, 8, 16, 32])),
                units=draw(st.sampled_from(['Hz', 'rad s-1'])), seed=draw(seeds),
                lo=draw(st.floats(0.02, 0.4)), hi=draw(st.floats(0.5, 0.98)),
                noise=draw(st.sampled_from([None, None, 'zero', 'small', 'scalar'])),
                m=draw(st.sampled_from([-5 / 3, -1., 0., 0.7])), pct=draw(st.sampled_from([0.8, 0.6, 0.9])),
                time=draw(st.sampled_from(['time', 'time_b5'])), dtype=draw(st.sampled_from(['f8', 'f4'])))


def tcoord(n):
    return np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(300, 's')


def freqs(c):
    fn = c['fs'] / 2 * (2 * np.pi if 'rad' in c['units'] else 1)
    f = np.arange(1, c['nf'] + 1) * fn / c['nf']
    return xr.DataArray(f, dims=['freq'], coords={'freq': f}, attrs={'units': c['units']}), fn


def mkpsd(vals, c, dims):
    f, fn = freqs(c)
    co = {'freq': f.values}
    if dims[0] == 'S':
        co['S'] = ['Sxx', 'Syy', 'Szz']
    td = [d for d in dims if 'time' in d]
    if td:
        co[td[0]] = tcoord(c['nt'])
    p = xr.DataArray(vals.astype(c['dtype']), dims=dims, coords=co)
    p['freq'].attrs['units'] = c['units']
    return p


def band(c):
    f, fn = freqs(c)
    lo, hi = c['lo'] * fn, c['hi'] * fn
    # keep the limits clear of the grid so that rounding cannot decide membership
    step = fn / c['nf']
    lo, hi = (np.floor(lo / step) + 0.5) * step, (np.floor(hi / step) + 0.5) * step
    if hi - lo < 2 * step:
        hi = lo + 3 * step
    return f.values, [lo, hi], (f.values > lo) & (f.values < hi)


def inertial(eps, U, f, c):
    w = f if 'rad' in c['units'] else 2 * np.pi * f
    s = ALPHA * eps[..., None] ** (2 / 3) * w ** (-5 / 3) * U[..., None] ** (2 / 3)
    return s if 'rad' in c['units'] else s * 2 * np.pi


def close_noise(got, right, listed, rtol, what):
    """Known finding P16/noise_units."""
    if np.allclose(got, right, rtol=rtol, equal_nan=True):
        return
    close(got, listed, rtol, 0, what)


def ref_lt83(p, U, f, m, c, noise, units_bug=False):
    """p (..., freq) spectra, noise (..., 1) in m/s."""
    fs = c['fs'] if (units_bug or c['units'] == 'Hz') else 2 * np.pi * c['fs']
    q = p - noise ** 2 / (fs / 2)
    q = np.where(q > 0, q, np.abs(q).min() / 100)
    Uk = U / (2 * np.pi) if c['units'] == 'Hz' else U
    return (q[..., m] * f[m] ** (5 / 3) / ALPHA).mean(-1) ** 1.5 / Uk


@PROP.finding('noise_units')
def noise_demo():
    c = dict(nt=2, nf=40, fs=8, units='rad s-1', dtype='f8', lo=0.1, hi=0.8)
    f, rng_, m = band(c)
    U, eps = np.array([1., 2.]), np.array([1e-4, 1e-3])
    s = 0.02
    p = inertial(eps, U, f, c) + s ** 2 / (2 * np.pi * 4)     # white noise of std s
    got = ADPBinner(20, 8).calc_dissipation_LT83(mkpsd(p, c, ['time', 'freq']),
                                                 xr.DataArray(U, dims=['time'], coords={'time': tcoord(2)}),
                                                 rng_, noise=np.full((2, 1), s))
    close(got.values, eps, 1e-3, 0, 'dissipation rate with white noise removed, rad/s spectrum')


@PROP.sub(spec(), quick=400, shards=2)
def lt83(c, ctx):
    """An exact -5/3 spectrum gives back the dissipation rate that made it."""
    f, rng_, m = band(c)
    rng = rng_of(c['seed'])
    ctx.nontrivial(c['nt'] > 1)
    ctx.label(c['units'], c['noise'])
    U = rng.uniform(0.2, 3, c['nt'])
    Um = xr.DataArray(U, dims=['time'], coords={'time': tcoord(c['nt'])})
    # ADV: three components
    eps = 10 ** rng.uniform(-7, -2, (3, c['nt']))
    p = inertial(eps, np.tile(U, (3, 1)), f, c)
    p = p * (1 + 0.0 * f)
    adv, adp = ADVBinner(n_bin=100, fs=c['fs']), ADPBinner(n_bin=100, fs=c['fs'])
    P3 = mkpsd(p, c, ['S', 'time', 'freq'])
    keep = P3.copy(deep=True)
    rt = 1e-5 if c['dtype'] == 'f8' else 2e-3
    P2 = mkpsd(p[0], c, ['time', 'freq'])
    if c['noise'] is None:
        close(adv.calc_epsilon_LT83(P3, Um, rng_).values, eps, rt, 0, 'calc_epsilon_LT83')
        close(adp.calc_dissipation_LT83(P2, Um, rng_).values, eps[0], rt, 0, 'calc_dissipation_LT83')
        close(adv.calc_epsilon_LT83(P2, Um, rng_).values, eps[0], rt, 0, 'calc_epsilon_LT83 of one component')
        # not an inertial range: still the documented band average
        q = p * 10 ** rng.normal(0, 0.3, p.shape)
        Q = mkpsd(q, c, ['S', 'time', 'freq'])
        close(adv.calc_epsilon_LT83(Q, Um, rng_).values, ref_lt83(q, U, f, m, c, 0.), 5 * rt, 0, 'calc_epsilon_LT83')
        close(adp.calc_dissipation_LT83(Q[1].drop_vars('S'), Um, rng_).values, ref_lt83(q[1], U, f, m, c, 0.),
              5 * rt, 0, 'calc_dissipation_LT83')
    else:
        fac = {'zero': 0, 'small': 0.5, 'scalar': 0.3}[c['noise']]
        lvl = p[..., m].min(-1)                 # noise density below the signal
        fsu = c['fs'] * (2 * np.pi if 'rad' in c['units'] else 1)
        nz = np.sqrt(fac * lvl * fsu / 2)
        n3 = xr.DataArray(nz, dims=['S', 'time'], coords={'S': P3.S, 'time': P3.time})
        noisy = p + (nz ** 2 / (fsu / 2))[..., None]
        got = adv.calc_epsilon_LT83(mkpsd(noisy, c, ['S', 'time', 'freq']), Um, rng_, noise=n3)
        close_noise(got.transpose('S', 'time').values, eps, ref_lt83(noisy, U, f, m, c, nz[..., None], True), max(rt, 1e-3),
                    'calc_epsilon_LT83 with noise')
        got = adp.calc_dissipation_LT83(mkpsd(noisy[0], c, ['time', 'freq']), Um, rng_,
                                        noise=n3[0].drop_vars('S'))
        close_noise(got.values, eps[0], ref_lt83(noisy[0], U, f, m, c, nz[0][:, None], True), max(rt, 1e-3),
                    'calc_dissipation_LT83 with noise')
        # a level given as a number, per component, or as a plain array
        s = float(nz.min())
        same = dict(number=(s, np.full_like(nz, s)), list=([s, 2 * s, 0.], np.outer([s, 2 * s, 0.], np.ones(c['nt']))),
                    array=(nz, nz))
        for k, (n, full) in same.items() if c['dtype'] == 'f8' else ():      # no rounding next to a zero remainder
            want = adv.calc_epsilon_LT83(P3, Um, rng_, noise=n3.copy(data=full))
            got = adv.calc_epsilon_LT83(P3, Um, rng_, noise=n)
            close(got.transpose('S', 'time').values, want.transpose('S', 'time').values, 1e-5, 0, 'calc_epsilon_LT83, noise as ' + k)
        got = adp.calc_dissipation_LT83(P2, Um, rng_, noise=s)
        want = adp.calc_dissipation_LT83(P2, Um, rng_, noise=n3[0].drop_vars('S').copy(data=np.full(c['nt'], s)))
        if c['dtype'] == 'f8':
            close(got.values, want.values, 1e-5, 0, 'calc_dissipation_LT83, noise as number')
    # an ensemble without a spectrum has no dissipation rate
    if c['nt'] > 1:
        j = int(rng.integers(c['nt']))
        H3 = P3.copy(deep=True)
        H3.loc[dict(time=H3.time[j])] = np.nan
        for k, noise in (('default', None), ('0', 0.), ('number', 1e-9 if c['dtype'] == 'f8' else 0.)):
            for name, fn, h, w in (('calc_epsilon_LT83', adv.calc_epsilon_LT83, H3, P3), ('calc_dissipation_LT83', adp.calc_dissipation_LT83, H3[0].drop_vars('S'), P2)):
                want = fn(w, Um, rng_, noise=noise).values.copy()
                want[..., j] = np.nan
                close(fn(h, Um, rng_, noise=noise).values, want, rt, 0, '%s with a missing spectrum, noise %s' % (name, k))
    check(P3.identical(keep), 'the spectrum was changed')
    raises(ValueError, adv.calc_epsilon_LT83, P3, Um, [1.0], _what='freq_range of length 1')
    raises(ValueError, adp.calc_dissipation_LT83, P2, Um, 3.0, _what='scalar freq_range')
    raises(Exception, adp.calc_dissipation_LT83, P3, Um, rng_, _what='3-D spectrum')


@PROP.sub(spec(), quick=300)
def slope(c, ctx):
    f, rng_, m = band(c)
    rng = rng_of(c['seed'])
    b0 = rng.uniform(-6, 0, c['nt'])
    p = 10 ** b0[:, None] * f ** c['m']
    out = ~m
    p[:, out] *= 10 ** rng.normal(0, 1, (c['nt'], out.sum()))    # only the band may count
    ctx.nontrivial(c['nt'] > 1)
    for b in (ADVBinner(n_bin=100, fs=c['fs']), ADPBinner(n_bin=100, fs=c['fs'])):
        s, i = b.check_turbulence_cascade_slope(mkpsd(p[0], c, ['freq']), rng_)
        close(float(s), c['m'], 1e-4, 1e-4, 'slope')
        close(float(i), b0[0], 1e-3, 1e-3, 'intercept')
        s, i = b.check_turbulence_cascade_slope(mkpsd(p, c, ['time', 'freq']), rng_)
        close(np.asarray(s), np.full(c['nt'], c['m']), 1e-4, 1e-4, 'slope of each ensemble')
        close(np.asarray(i), b0, 1e-3, 1e-3, 'intercept of each ensemble')
        # least squares for scattered spectra
        q = p[0] * 10 ** rng.normal(0, 0.2, len(f))
        s, i = b.check_turbulence_cascade_slope(mkpsd(q, c, ['freq']), rng_)
        A = np.polyfit(np.log10(f[m]), np.log10(q[m].astype(c['dtype'])), 1)
        close([float(s), float(i)], A, 1e-3, 1e-3, 'least-squares slope and intercept')


@PROP.sub(spec(), quick=300)
def doppler_noise(c, ctx):
    f, fn = freqs(c)
    f = f.values
    rng = rng_of(c['seed'])
    p = 10 ** rng.uniform(-5, -2, (3, c['nt'], 1)) * (1 + rng.random((3, c['nt'], c['nf'])))
    ctx.nontrivial(c['nt'] > 1)
    pct = c['pct']
    lim = pct * fn
    if np.abs(f - lim).min() < 1e-5 * fn:
        pct = pct - 0.3 / c['nf']
        lim = pct * fn
    m = f >= lim
    want = np.sqrt((p[..., m] * f[m]).mean(-1))
    m2 = m & (f < fn * (1 - 1e-9))              # the Nyquist sample itself is a rounding matter
    alt = np.sqrt((p[..., m2] * f[m2]).mean(-1)) if m2.any() else want * np.nan
    for b, dims, sel in ((ADVBinner(n_bin=100, fs=c['fs']), ['S', 'time', 'freq'], slice(None)),
                         (ADPBinner(n_bin=100, fs=c['fs']), [c['time'], 'freq'], 0)):
        got = b.calc_doppler_noise(mkpsd(p[sel], c, dims), pct_fN=pct)
        check(got.dims == tuple(dims[:-1]), 'dims {}', got.dims)
        if not np.allclose(got.values, alt[sel], rtol=1e-3):
            close(got.values, want[sel], 1e-3, 0, 'calc_doppler_noise')
    raises(Exception, ADPBinner(n_bin=10, fs=c['fs']).calc_doppler_noise, mkpsd(p, c, ['S', 'time', 'freq']),
           _what='3-D spectrum')


@st.composite
def raw(draw):
    fs = draw(st.sampled_from([8, 16, 32]))
    n = draw(st.integers(2 * fs, 6 * fs))
    nb = draw(now_and_then(st.integers(1, 4), [12, 40]))
    return dict(n=n, nb=nb, rem=draw(st.integers(0, n - 1)), fs=fs, kind=draw(kinds), seed=draw(seeds),
                dtype=draw(st.sampled_from(['f8', 'f4'])), f0=draw(st.sampled_from([1., 2., 0.7])),
                f1=draw(st.sampled_from([4., 3., 4., 3., 1000.])), nan=draw(st.sampled_from([0, 0, 0.1])), arg=draw(st.booleans()))


@PROP.sub(raw(), quick=200, shards=2)
def sf(c, ctx):
    """ADV structure function with Taylor's hypothesis."""
    L = c['n'] * c['nb'] + c['rem']
    rng = rng_of(c['seed'])
    x = sig(rng, L, c['kind'], 1.).astype(c['dtype'])
    if c['nan']:
        x[rng.random(L) < c['nan']] = np.nan
    U = rng.uniform(0.2, 3, c['nb'])
    ctx.nontrivial(c['nb'] > 1)
    Um = xr.DataArray(U, dims=['time'], coords={'time': tcoord(c['nb'])})
    b = ADVBinner(n_bin=c['n'], fs=c['fs'] if not c['arg'] else 99)
    v = da(x, c['fs'])
    got = b.calc_epsilon_SF(v, Um, freq_range=[c['f0'], c['f1']], **(dict(fs=c['fs']) if c['arg'] else {}))
    want = []
    for i in range(c['nb']):
        u = x[i * c['n']:(i + 1) * c['n']].astype('f8')
        v_ = []
        for lag in range(max(int(c['fs'] / c['f1']), 1), int(c['fs'] / c['f0'])):     # no zero lag
            D = np.nanmean((u[lag:] - u[:-lag]) ** 2)
            v_.append(D / (U[i] * lag / c['fs']) ** (2 / 3))
        want.append((np.median(v_) / 2.1) ** 1.5)
    close(got.values, want, 1e-3 if c['dtype'] == 'f4' else 1e-5, 1e-12, 'calc_epsilon_SF')
    check(got.dims == Um.dims, 'dims')
    raises(Exception, b.calc_epsilon_SF, da(np.array([x, x, x]), c['fs']), Um, _what='2-D velocity')


@st.composite
def te(draw):
    fs = draw(st.sampled_from([8, 16]))
    n = draw(st.integers(24, 80))
    return dict(n=n, nb=draw(st.integers(1, 4)), fs=fs, seed=draw(seeds), U=draw(st.floats(0.3, 2)),
                ang=draw(st.floats(-3, 3)), units=draw(st.sampled_from(['Hz', 'rad/s'])), ti=draw(st.floats(0.05, 0.4)))


@PROP.sub(te(), quick=40, shards=2)
def te01(c, ctx):
    from scipy.integrate import quad
    from vlib import gen
    L = c['n'] * c['nb']
    ds = gen.build(dict(kind='vector', seed=c['seed'], nt=L, nr=1, frame='earth', rough=True, nan=0, tilt=5,
                        scale=1.0, phead=30., extra=False, down='all', head='none'), fs=c['fs'])
    v = ds.vel.values * c['ti'] * c['U']
    v[0] *= 1.6
    v[0] += c['U'] * np.cos(c['ang'])
    v[1] += c['U'] * np.sin(c['ang'])
    ds['vel'] = (ds.vel.dims, v, ds.vel.attrs)
    b = ADVBinner(n_bin=c['n'], fs=c['fs'])
    av = b(ds, freq_units=c['units'])
    ctx.nontrivial(c['nb'] > 1)
    f = av.psd.freq.values.astype('f8')
    k = 2 * np.pi if 'rad' in c['units'] else 1
    step = f[0]                 # limits halfway between spectral lines
    lo, hi = [(np.floor(q * c['n']) + 0.5) * step for q in (0.1, 0.4)]
    m = (f > lo) & (f < hi)
    got = b.calc_epsilon_TE01(ds, av, [lo, hi])
    want = []
    w = v[:2].reshape(2, c['nb'], c['n'])
    for i in range(c['nb']):
        u = w[0, i] + 1j * w[1, i]
        mean = u.mean()
        d = u - mean
        d = np.where(d.imag <= 0, -d, d)
        th = np.angle(mean) - np.angle(d.mean())
        beta = np.sqrt(av.tke_vec.values[:, i].astype('f8').sum()) / abs(mean)
        g = quad(lambda x: (x * x - 2 / beta * np.cos(th) * x + beta ** -2) ** (1 / 3) * np.exp(-x * x / 2),
                 -20, 20, limit=400, points=[0, np.cos(th) / beta] if abs(np.cos(th) / beta) < 20 else [0])[0]
        J = g / np.sqrt(2 * np.pi) * beta ** (2 / 3)
        p = av.psd.values[:, i].astype('f8')[:, m] * f[m] ** (5 / 3)
        e = 0.5 * ((p[0] + p[1]).mean() / (21 / 55 * 1.5 * J)) ** 1.5 / abs(mean) + \
            0.5 * (p[2].mean() / (12 / 55 * 1.5 * J)) ** 1.5 / abs(mean)
        want.append(e)
    close(got.values, want, 2e-3, 0, 'calc_epsilon_TE01')
    check(got.dims == ('time',), 'dims')


@PROP.sub(st.tuples(seeds, st.integers(1, 5), st.integers(1, 12), st.sampled_from([4, 8, 16]), st.booleans()), quick=200)
def length_scale(case, ctx):
    seed, nt, nl, fs, arg = case
    rng = rng_of(seed)
    a = rng.uniform(0.5, 5, (3, nt, 1)) * np.cumprod(np.concatenate(
        [np.ones((3, nt, 1)), rng.uniform(0.4, 1.0, (3, nt, nl - 1))], -1), -1)
    A = xr.DataArray(a, dims=['dir', 'time', 'lag'], coords={'dir': list('ENU'), 'time': tcoord(nt), 'lag': np.arange(nl)})
    U = rng.uniform(0.1, 3, nt)
    Um = xr.DataArray(U, dims=['time'], coords={'time': tcoord(nt)})
    b = ADVBinner(n_bin=100, fs=99 if arg else fs)
    kw = dict(fs=fs) if arg else {}
    got = b.calc_L_int(A, Um, **kw)
    r = a / a[..., :1]
    ctx.nontrivial((r < 1 / np.e).any())
    want = np.zeros((3, nt))
    for i in range(3):
        for j in range(nt):
            k = [q for q in range(nl) if r[i, j, q] <= 1 / np.e]
            want[i, j] = U[j] / fs * k[0] if k else 0
    close(got.values, want, 1e-6, 1e-9, 'calc_L_int')
    check(got.dims == ('dir', 'time'), 'dims {}', got.dims)
    one = b.calc_L_int(A[1].drop_vars('dir'), Um, **kw)
    close(one.values, want[1], 1e-6, 1e-9, 'calc_L_int of one component')
    check(one.dims == ('time',) and (one.time.values == A.time.values).all(), 'dims {}', one.dims)


history.add(PROP, 'P16', 'adv')
