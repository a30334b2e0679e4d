"""P12 power spectral density."""
from vlib import history
from vlib.core import Prop, check, close, raises
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from dolfyn import VelBinner
from dolfyn.tools import psd as P

PROP = Prop('P12', 'signal longer than one FFT segment (averaging over overlapping segments)')

WIN = ['hann', 'hanning', 'hamm', 'hamming', None, 1, 1.0, 'array']


def window_of(w, n, seed=0):
    if w in ('hann', 'hanning'):
        return np.hanning(n)
    if w in ('hamm', 'hamming'):
        return np.hamming(n)
    if isinstance(w, str) and w == 'array':
        return 0.1 + rng_of(seed, 5).random(n)
    return np.ones(n)


def warg(w, n, seed=0):
    return window_of(w, n, seed) if isinstance(w, str) and w == 'array' else w


def lin(x):
    t = np.arange(len(x)) - (len(x) - 1) / 2.
    x = x - x.mean()
    return x - t * (x @ t) / (t @ t)


def starts(l, nfft, step=None, nens=None):
    """Segment starts per the docstring: >= 50 % overlap, minimum count."""
    if nens is None and step is not None:
        return [i * int(step) for i in range(int((l - nfft) / step + 1))]
    if nens is None:
        if l == nfft:
            return [0]
        nens = int(2. * l / nfft)
    if nens == 1:
        return [0]
    s = int((l - nfft) / (nens - 1))
    return [i * s for i in range(nens)]


def ffts(a, nfft, w, st_):
    return [np.fft.fft(lin(a[i:i + nfft]) * w)[1:nfft // 2 + 1] for i in st_]


def ref_psd(a, nfft, fs, w, step=None):
    nfft = min(nfft, len(a))
    s = ffts(a, nfft, w, starts(len(a), nfft, step))
    return np.mean([np.abs(x) ** 2 for x in s], 0) * 2 / (w ** 2).sum() / fs


def sig(rng, n, kind, amp):
    t = np.arange(n)
    if kind == 'sine':
        return amp * np.sin(t * rng.uniform(0.05, 3) + rng.uniform(0, 6)) + 0.05 * rng.normal(size=n)
    if kind == 'walk':
        return amp * np.cumsum(rng.normal(size=n)) / 3
    if kind == 'trend':
        return 50 + 0.3 * min(1, 200 / n) * t + amp * rng.normal(size=n)
    return amp * rng.normal(size=n)


kinds = st.sampled_from(['white', 'sine', 'walk', 'trend'])


@st.composite
def sigcase(draw):
    nfft = draw(now_and_then(st.integers(4, 64), [128, 255, 1024, 4096]))
    l = draw(now_and_then(st.integers(1, 12), [40, 150] if nfft < 100 else [3])) * nfft + draw(st.integers(0, nfft - 1))
    return dict(nfft=nfft, l=l, kind=draw(kinds), seed=draw(seeds), amp=draw(st.sampled_from([0.01, 1., 30.])),
                fs=draw(st.sampled_from([1, 2, 8, 16., 32, 0.5])), win=draw(st.sampled_from(WIN)),
                step=draw(st.none() | st.integers(1, 2 * nfft)))


@PROP.sub(sigcase(), quick=500)
def functional(c, ctx):
    a = sig(rng_of(c['seed']), c['l'], c['kind'], c['amp'])
    w = window_of(c['win'], c['nfft'], c['seed'])
    ctx.nontrivial(c['l'] > c['nfft'])
    ctx.label(str(c['win']))
    keep = a.copy()
    got = P.psd(a, c['nfft'], c['fs'], window=warg(c['win'], c['nfft'], c['seed']), step=c['step'])
    want = ref_psd(a, c['nfft'], c['fs'], w, c['step'])
    close(got, want, 1e-6, 1e-9 * max(want.max(), 1e-12), 'psd')
    check((got >= 0).all(), 'negative spectral density')
    check((a == keep).all(), 'psd changed its input')
    # amplitude scaling and independence of offset and trend
    a2 = 3 * a + 7 - 0.01 * np.arange(len(a))
    got2 = P.psd(a2, c['nfft'], c['fs'], window=warg(c['win'], c['nfft'], c['seed']), step=c['step'])
    close(got2, 9 * got, 1e-5, 1e-7 * max(want.max(), 1e-9), 'psd of a scaled, detrendable copy')
    # the autospectrum is the same through the cross-spectrum of two copies
    g3 = P.cpsd(a, a.copy(), c['nfft'], c['fs'], window=warg(c['win'], c['nfft'], c['seed']), step=c['step'])
    close(g3, got.astype(complex), 1e-6, 1e-9 * max(want.max(), 1e-12), 'cpsd(a, a)')


@PROP.sub(st.tuples(now_and_then(st.integers(2, 128), [512, 1023, 8192]), kinds, seeds, st.sampled_from([1, 8, 0.5])), quick=200)
def variance(case, ctx):
    """Boxcar window, one segment: the spectrum sums to the variance."""
    n, k, seed, fs = case
    a = sig(rng_of(seed), n, k, 1.)
    ctx.nontrivial(n > 8)
    s = P.psd(a, n, fs, window=None)
    f = P.psd_freq(n, fs)
    check(len(f) == len(s), 'frequency vector length')
    df = fs / n
    tot = s.sum() * df
    if n % 2 == 0:
        tot -= s[-1] * df / 2         # the Nyquist bin is not doubled
    v = (lin(a) ** 2).mean()
    close(tot, v, 1e-8, 1e-12, 'integral of the PSD vs variance')


@PROP.sub(st.tuples(now_and_then(st.integers(2, 300), [1024, 4097, 65536]), st.floats(0.01, 1000), st.booleans()), quick=150)
def freq(case, ctx):
    n, fs, full = case
    ctx.nontrivial(n > 4)
    got = P.psd_freq(n, fs, full)
    if full:
        k = np.arange(n)
        k[k >= (n + 1) // 2] -= n
        close(got, k * fs / n, 1e-12, 1e-12, 'full frequency')
    else:
        close(got, np.arange(1, n // 2 + 1) * fs / n, 1e-12, 1e-12, 'frequency')
    b = VelBinner(n_bin=n, fs=fs)
    close(b.calc_freq(units='Hz'), np.arange(1, n // 2 + 1) * fs / n, 1e-12, 1e-12, 'calc_freq Hz')
    close(b.calc_freq(units='rad/s'), 2 * np.pi * np.arange(1, n // 2 + 1) * fs / n, 1e-12, 1e-12,
          'calc_freq rad/s')
    raises(Exception, b.calc_freq, None, 'days', _what='unit "days"')


@st.composite
def binned(draw):
    n = draw(now_and_then(st.integers(4, 48), [128, 300, 1200]))
    nb = draw(now_and_then(st.integers(1, 5), [20, 60] if n < 100 else [3]))
    return dict(n=n, nb=nb, rem=draw(st.integers(0, n - 1)), nfft=draw(st.none() | st.integers(4, n)),
                pad=draw(st.none() | st.none() | st.integers(0, n)),
                fs=draw(st.sampled_from([1, 2, 8, 16])), units=draw(st.sampled_from(['rad/s', 'Hz', 'rad'])),
                vec=draw(st.booleans()), dtype=draw(st.sampled_from(['f8', 'f4'])),
                noise=draw(st.sampled_from([None, None, 0.02, 0.5])), win=draw(st.sampled_from(WIN)),
                how=draw(st.sampled_from(['binner', 'args', 'fsarg'])), kind=draw(kinds), seed=draw(seeds),
                tname=draw(st.sampled_from(['time', 'time', 'time_b5'])),
                lost=draw(st.just(()) | st.lists(st.tuples(st.integers(0, 2), st.integers(0, 300)), min_size=1, max_size=2)))


def mk(c):
    L = c['n'] * c['nb'] + c['rem']
    rng = rng_of(c['seed'])
    a = np.array([sig(rng, L, c['kind'], 1.) for _ in range(3 if c['vec'] else 1)]).astype(c['dtype'])
    t = np.datetime64('2020-01-01T00:00:00', 'ns') + np.round(np.arange(L) * 1e9 / c['fs']).astype('timedelta64[ns]')
    for k, i in c['lost']:       # missing samples
        a[k % len(a), i % L] = np.nan
    if c['vec']:
        return xr.DataArray(a, dims=['dir', 'time'], coords={'dir': ['E', 'N', 'U'], 'time': t}, name='vel')
    d = c['tname']
    return xr.DataArray(a[0], dims=[d], coords={d: t}, name='vel')


def padded_bin(x, i, n, nb, pad):
    p0, p1 = pad // 2, (pad + 1) // 2
    out = np.zeros(n + pad)
    for j, s in enumerate(range(i * n - p0, i * n + n + p1)):
        if 0 <= s < n * nb:
            out[j] = x[s]
    return out


@PROP.sub(binned(), quick=600, shards=4)
def dataset(c, ctx):
    v = mk(c)
    n, nb, nfft = c['n'], c['nb'], c['nfft'] or c['n']
    pad = c['pad']
    kw = {}
    if c['how'] == 'args':
        b = VelBinner(n_bin=n + 5, fs=c['fs'])
        kw = dict(n_bin=n, n_fft=nfft)
    elif c['how'] == 'fsarg':
        b = VelBinner(n_bin=n, fs=99, n_fft=nfft)
        kw = dict(fs=c['fs'])
    else:
        b = VelBinner(n_bin=n, fs=c['fs'], n_fft=c['nfft'])
    if pad is not None:
        kw['n_pad'] = pad
    p_ = min(n - nfft, nfft) if pad is None else pad
    ctx.nontrivial(nb > 1 and n + p_ > nfft)
    ctx.label(c['how'], 'noise' if c['noise'] else 'clean', 'missing samples' if c['lost'] else 'complete')
    fs = c['fs'] * (2 * np.pi if 'rad' in c['units'] else 1)
    w = window_of(c['win'], nfft, c['seed'])
    noise = c['noise']
    nz = None if noise is None else (np.array([noise, 2 * noise, 0]) if c['vec'] else noise)
    keep = v.copy(deep=True)
    got = b.calc_psd(v, freq_units=c['units'], window=warg(c['win'], nfft, c['seed']), noise=nz, **kw)
    check(v.identical(keep), 'calc_psd changed its input')
    rows = v.values if c['vec'] else [v.values]
    want = []
    for k, x in enumerate(rows):
        s = np.array([ref_psd(padded_bin(x.astype('f8'), i, n, nb, p_), nfft, fs, w) for i in range(nb)])
        if nz is not None and np.atleast_1d(nz)[k]:
            s -= np.atleast_1d(nz)[k] ** 2 / (fs / 2)
            if not np.isnan(s).all():
                s[s < 0] = np.nanmin(np.abs(s)) / 100
            g = np.asarray(got)[k if c['vec'] else slice(None)]
            check((np.isnan(g) == np.isnan(s)).all(), 'missing samples of one ensemble: {} spectral estimates are missing, expected {}',
                  np.isnan(g).sum(), np.isnan(s).sum())
            check(not (g <= 0).any(), 'non-positive noise-corrected PSD')
        want.append(s)
    want = np.array(want) if c['vec'] else want[0]
    if np.isnan(want).all():
        big = 1.
    else:
        big = np.nanmax(np.abs(want))
    g = got.values.astype('f8')
    check(g.shape == want.shape, 'shape {} expected {}', g.shape, want.shape)
    if noise is not None:     # the floor replacing negatives is tiny but rounding-sensitive
        m = want < 1e-3 * big
        check((g[m] < 3e-3 * big).all(), 'noise floor replaced by a large value')
        g, want = g[~m], want[~m]
    close(g, want, 1e-3 if c['dtype'] == 'f4' else 1e-5, 1e-6 * big, 'calc_psd')
    close(got.freq.values, np.arange(1, nfft // 2 + 1) * fs / nfft, 1e-6, 0, 'freq coordinate')
    td = v.dims[-1]
    check(got.dims == (('S',) if c['vec'] else ()) + (td, 'freq'), 'dims {}', got.dims)
    t = v[td].values[:n * nb].astype('i8').reshape(nb, n)
    err = got[td].values.astype('datetime64[ns]').astype('i8') - (t[:, 0] + (t - t[:, :1]).mean(-1))
    check(np.abs(err).max() < 3e3, 'time coordinate is not the bin mean time')
    check(('Hz' in got.freq.attrs['units']) == (c['units'] == 'Hz'), 'frequency units {}', got.freq.attrs)


@PROP.sub(st.tuples(binned(), st.sampled_from(['units', 'window', 'shape', 'noise', 'winlen', 'nfft'])), quick=80)
def rejected(case, ctx):
    c, why = case
    ctx.nontrivial()
    ctx.label(why)
    c = dict(c, vec=True)
    v = mk(c)
    b = VelBinner(n_bin=c['n'], fs=c['fs'])
    if why == 'units':
        raises(ValueError, b.calc_psd, v, 'cph', _what='unknown frequency unit')
    elif why == 'window':
        raises(ValueError, b.calc_psd, v, window='triangle', _what='unknown window')
    elif why == 'winlen':
        raises(ValueError, b.calc_psd, v, window=np.ones(c['n'] + 1), _what='wrong window length')
    elif why == 'shape':
        raises(ValueError, b.calc_psd, xr.concat([v, v], 'dir'), _what='six components')
    elif why == 'noise':
        raises(ValueError, b.calc_psd, v, noise=np.array([0.1, 0.1]), _what='two noise values')
        raises(ValueError, b.calc_psd, v[0].drop_vars('dir'), noise=np.array([0.1, 0.1]), _what='two noise values')
    else:
        import warnings
        with warnings.catch_warnings(record=True) as r:
            warnings.simplefilter('always')
            b2 = VelBinner(n_bin=c['n'], fs=c['fs'], n_fft=c['n'] + 3)
        check(len(r) > 0 and b2.n_fft == c['n'], 'n_fft larger than n_bin not limited to n_bin')


history.add(PROP, 'P12', 'vel')


@PROP.sub(st.tuples(sigcase(), st.integers(1, 200)), quick=120)
def longer_fft(case, ctx):
    """A segment longer than the record: one segment, the whole record."""
    c, more = case
    l = c['l'] = min(c['l'], 500)
    ctx.nontrivial(l > 4)
    if l < 4:
        return
    a = sig(rng_of(c['seed']), l, c['kind'], c['amp'])
    win = c['win']
    w = window_of(win, l, c['seed'])
    for f in (lambda n: P.psd(a, n, c['fs'], window=warg(win, l, c['seed'])),
              lambda n: P.cpsd(a, a, n, c['fs'], window=warg(win, l, c['seed']))):
        got = f(l + more)
        want = ref_psd(a, l, c['fs'], w)
        close(np.abs(got), want, 1e-6, 1e-9 * max(want.max(), 1e-12), 'spectrum with nfft greater than the record')


@st.composite
def sizes(draw):
    n0 = draw(st.integers(4, 60))
    n = draw(st.none() | st.integers(4, 60))
    return dict(n0=n0, n=n, f0=draw(st.none() | st.integers(4, 70)), f=draw(st.none() | st.integers(4, 90)),
                nb=draw(st.integers(1, 4)), rem=draw(st.integers(0, 20)), vec=draw(st.booleans()), kind=draw(kinds),
                fs=draw(st.sampled_from([1, 2, 8])), seed=draw(seeds))


def settle(c):
    """(bin size, FFT size) in force: the call's over the binner's, the FFT limited to the bin."""
    n = c['n'] or c['n0']
    f = c['f'] if c['f'] is not None else min(c['f0'] or c['n0'], c['n0'])
    return n, min(f, n)


def sized(c):
    n, _ = settle(c)
    L = max(n, c['n0']) * c['nb'] + c['rem']
    a = np.array([sig(rng_of(c['seed'] + k), L, c['kind'], 1.) for k in range(3 if c['vec'] else 1)])
    t = np.datetime64('2020-01-01T00:00:00', 'ns') + np.round(np.arange(L) * 1e9 / c['fs']).astype('timedelta64[ns]')
    if c['vec']:
        return xr.DataArray(a, dims=['dir', 'time'], coords={'dir': ['E', 'N', 'U'], 'time': t}, name='vel')
    return xr.DataArray(a[0], dims=['time'], coords={'time': t}, name='vel')


@PROP.sub(sizes(), quick=250)
def call_sizes(c, ctx):
    """Sizes given in the call give what a binner made with them gives."""
    n, f = settle(c)
    ctx.nontrivial(n != c['n0'] or f != n)
    ctx.label('bin ' + ('same' if n == c['n0'] else 'smaller' if n < c['n0'] else 'larger'),
              'fft limited' if (c['f'] or 0) > n else 'fft fits')
    v = sized(c)
    kw = {k: x for k, x in (('n_bin', c['n']), ('n_fft', c['f'])) if x is not None}
    got = VelBinner(n_bin=c['n0'], fs=c['fs'], n_fft=c['f0']).calc_psd(v, freq_units='Hz', **kw)
    want = VelBinner(n_bin=n, fs=c['fs'], n_fft=f).calc_psd(v, freq_units='Hz')
    check(got.shape == want.shape, 'shape {} expected {} (bins of {}, FFT of {})', got.shape, want.shape, n, f)
    close(got.values, want.values, 1e-5, 1e-7 * float(np.abs(want).max()), 'sizes given in the call')
    close(got.freq.values, np.arange(1, f // 2 + 1) * c['fs'] / f, 1e-6, 0, 'frequencies')
    check((got.time.values == want.time.values).all(), 'times')
