"""P13 cross-spectra, coherence and phase."""
from vlib import history
from vlib.core import Prop, Violation, check, close, raises
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from dolfyn import VelBinner
from dolfyn.adv.api import ADVBinner
from dolfyn.tools import psd as P
from checks.p12 import (WIN, window_of, warg, starts, ffts, sig, kinds, padded_bin,
                        sizes, settle, sized)

PROP = Prop('P13', 'more than one FFT segment per estimate')


def segs(la, lb, nfft):
    nfft = min(nfft, la, lb)
    if la == lb:
        s = starts(la, nfft)
        return s, s, nfft
    sh = starts(min(la, lb), nfft)
    lo = starts(max(la, lb), nfft, nens=len(sh))
    return (sh, lo, nfft) if la < lb else (lo, sh, nfft)


def ref_csd(a, b, nfft, fs, w):
    sa, sb, nfft = segs(len(a), len(b), nfft)
    A, B = ffts(a, nfft, w, sa), ffts(b, nfft, w, sb)
    return np.mean([x * np.conj(y) for x, y in zip(A, B)], 0) * 2 / (w ** 2).sum() / fs


def ref_coh(a, b, nfft, w, noise=(0, 0), debias=True):
    sa, sb, nfft = segs(len(a), len(b), nfft)
    A, B = ffts(a, nfft, w, sa), ffts(b, nfft, w, sb)
    k = 2 / (w ** 2).sum()
    sab = np.mean([x * np.conj(y) for x, y in zip(A, B)], 0) * k
    saa = np.mean([np.abs(x) ** 2 for x in A], 0) * k - 2 * noise[0] ** 2
    sbb = np.mean([np.abs(x) ** 2 for x in B], 0) * k - 2 * noise[1] ** 2
    c = np.abs(sab) ** 2 / (saa * sbb)
    n = len(sa)
    return c * (1 + 1 / n) - 1 / n if debias else c


def ref_phase(a, b, nfft, w):
    """mean over segments of exp(i (angle(b) - angle(a)))"""
    nfft = min(nfft, len(a))
    s = starts(len(a), nfft)
    A, B = ffts(a, nfft, w, s), ffts(b, nfft, w, s)
    ang = [np.exp(1j * (np.angle(y) - np.angle(x))) for x, y in zip(A, B)]
    return np.mean(ang, 0), (ang[0] + len(s) - 1) / len(s)


def close_phase(got, right, listed, tol, what):
    """Known finding P13/phase: segments after the first contribute exactly 1.
    Anything that is neither right nor exactly that is a violation."""
    got = np.asarray(got)
    if np.allclose(got, right, atol=tol):
        return True
    close(got, listed, 0, tol, what)
    return False


@PROP.finding('phase')
def phase_demo():
    a, b = rng_of(1).normal(size=(2, 64))
    r, _ = ref_phase(a, b, 16, np.hanning(16))
    close(P.phase_angle(a, b, 16), r, 1e-6, 1e-6, 'phase_angle over 7 segments')


@st.composite
def pair(draw, same=None):
    nfft = draw(now_and_then(st.integers(5, 48), [128, 255, 1024]))
    la = draw(now_and_then(st.integers(1, 8), [40, 150] if nfft < 100 else [3])) * nfft + draw(st.integers(0, nfft - 1))
    lb = la
    if not (draw(st.booleans()) if same is None else same):
        lb = max(nfft, int(la * draw(st.floats(0.4, 1.0))))
    return dict(nfft=nfft, la=la, lb=lb, kind=draw(kinds), seed=draw(seeds),
                mix=draw(st.sampled_from([0, 0.5, 1.0])), fs=draw(st.sampled_from([1, 4., 32])),
                win=draw(st.sampled_from(WIN)), swap=draw(st.booleans()))


def two(c):
    rng = rng_of(c['seed'])
    a = sig(rng, c['la'], c['kind'], 1.)
    b = c['mix'] * np.interp(np.linspace(0, 1, c['lb']), np.linspace(0, 1, c['la']), np.roll(a, 1)) \
        + sig(rng, c['lb'], 'white', 0.5)
    return (b, a) if c['swap'] else (a, b)


@PROP.sub(pair(), quick=400)
def csd(c, ctx):
    a, b = two(c)
    w = window_of(c['win'], c['nfft'], c['seed'])
    wa = warg(c['win'], c['nfft'], c['seed'])
    ctx.nontrivial()
    ctx.label('equal' if len(a) == len(b) else 'unequal')
    same = len(a) == len(b)
    f = P.cpsd if same else P.cpsd_quasisync
    got = f(a, b, c['nfft'], c['fs'], window=wa)
    sa = ref_csd(a, a, c['nfft'], c['fs'], w)
    big = max(sa.real.max(), 1e-3)
    want = ref_csd(a, b, c['nfft'], c['fs'], w)
    close(got, want, 1e-6, 1e-8 * big, 'cpsd')
    if same:
        close(P.cpsd_quasisync(a, b, c['nfft'], c['fs'], window=wa), got, 1e-9, 1e-9 * big, 'cpsd_quasisync')
        close(f(b, a, c['nfft'], c['fs'], window=wa), np.conj(got), 1e-9, 1e-9 * big, 'conjugate symmetry')
    raises(Exception, f, a + 1j, b, c['nfft'], c['fs'], _what='complex signal')


@PROP.sub(st.tuples(pair(), st.booleans(), st.sampled_from([None, 0.05, (0.05, 0.1), [0.02]])), quick=300)
def coherence(case, ctx):
    c, debias, noise = case
    a, b = two(c)
    w = window_of(c['win'], c['nfft'], c['seed'])
    wa = warg(c['win'], c['nfft'], c['seed'])
    sa, sb, _ = segs(len(a), len(b), c['nfft'])
    kw = {} if noise is None else dict(noise=noise)
    if len(sa) <= 2:
        raises(Exception, P.coherence, a, b, c['nfft'], wa, debias, _what='coherence from two segments')
        return
    ctx.nontrivial()
    nz = (0, 0) if noise is None else (noise, noise) if np.isscalar(noise) else \
        (noise[0], noise[-1])
    got = P.coherence(a, b, c['nfft'], window=wa, debias=debias, **kw)
    want = ref_coh(a, b, c['nfft'], w, nz, debias)
    raw = ref_coh(a, b, c['nfft'], w, (0, 0), False)
    ok = np.isfinite(want) & (np.abs(want) < 50 * np.maximum(raw, 1e-3))  # away from Saa == noise
    close(got[ok], want[ok], 1e-5, 1e-6, 'coherence')
    if noise is None and not debias:
        check((got > -1e-9).all() and (got < 1 + 1e-9).all(), 'coherence outside 0..1: {}', got)
        g2 = P.coherence(-5 * a, 2 * b + 3, c['nfft'], window=wa, debias=False)
        close(g2, got, 1e-5, 1e-6, 'coherence of rescaled signals')
        g1 = P.coherence(a, 4 * a, c['nfft'], window=wa, debias=False)
        close(g1, np.ones_like(g1), 1e-6, 1e-6, 'coherence of a signal with itself')


@PROP.sub(pair(same=True), quick=300)
def phase(c, ctx):
    a, b = two(c)
    w = window_of(c['win'], c['nfft'], c['seed'])
    wa = warg(c['win'], c['nfft'], c['seed'])
    r, k = ref_phase(a, b, c['nfft'], w)
    ctx.nontrivial()
    close_phase(P.phase_angle(a, b, c['nfft'], window=wa), r, k, 1e-5, 'phase_angle')
    # a single segment has no averaging: must be right whatever the finding
    n = c['nfft']
    r, _ = ref_phase(a[:n], b[:n], n, w)
    g = P.phase_angle(a[:n], b[:n], n, window=wa)
    close(g, r, 0, 1e-5, 'phase_angle of one segment')
    close(np.abs(g), np.ones(len(g)), 1e-9, 1e-9, 'unit magnitude')
    close(P.phase_angle(b[:n], a[:n], n, window=wa), np.conj(g), 0, 1e-5, 'antisymmetry')
    close(P.phase_angle(a[:n], a[:n], n, window=wa), np.ones(len(g)) + 0j, 0, 1e-9, 'phase with itself')


@st.composite
def binned(draw):
    n = draw(now_and_then(st.integers(6, 40), [128, 300, 1200]))
    nb = draw(now_and_then(st.integers(1, 4), [20, 60] if n < 100 else [3]))
    return dict(n=n, nb=nb, rem=draw(st.integers(0, n - 1)), nfft=draw(st.none() | st.integers(5, n)),
                ratio=draw(st.sampled_from([1, 1, 0.9, 0.5])),
                fs=draw(st.sampled_from([1, 2, 8, 16])), units=draw(st.sampled_from(['rad/s', 'Hz', 'rad'])),
                dtype=draw(st.sampled_from(['f8', 'f4'])), lead=draw(st.booleans()),
                win=draw(st.sampled_from(WIN)), debias=draw(st.booleans()),
                how=draw(st.sampled_from(['binner', 'coh', 'args'])), kind=draw(kinds), seed=draw(seeds))


def da(a, fs):
    L = a.shape[-1]
    t = np.datetime64('2020-01-01T00:00:00', 'ns') + np.round(np.arange(L) * 1e9 / fs).astype('timedelta64[ns]')
    if a.ndim == 1:
        return xr.DataArray(a, dims=['time'], coords={'time': t})
    return xr.DataArray(a, dims=['dir', 'time'], coords={'dir': ['E', 'N', 'U'][:len(a)], 'time': t})


def tools(c, cls):
    n, nfft = c['n'], c['nfft'] or c['n']
    if c['how'] == 'args':
        return cls(n_bin=n + 3, fs=c['fs']), dict(n_bin=n, n_fft_coh=nfft), nfft
    if c['how'] == 'coh':
        return cls(n_bin=n, fs=c['fs'], n_fft_coh=nfft), {}, nfft
    return cls(n_bin=n, fs=c['fs'], n_fft=c['nfft']), {}, nfft


def time_ok(out, v, n):
    t = v.time.values.astype('i8')
    t = t[:len(t) // n * n].reshape(-1, n)
    err = out.time.values.astype('datetime64[ns]').astype('i8') - (t[:, 0] + (t - t[:, :1]).mean(-1))
    check(np.abs(err).max() < 3e3, 'time coordinate is not the bin mean time')


@PROP.sub(binned(), quick=300, shards=2)
def binner(c, ctx):
    """calc_coh / calc_phase_angle on (possibly unequal) records."""
    b, kw, nfft = tools(c, VelBinner)
    rng = rng_of(c['seed'])
    n2 = c['n']
    L1 = c['n'] * c['nb'] + c['rem']
    L2 = max(c['n'], int(L1 * c['ratio']))
    if c['how'] == 'args' and L2 < c['n'] + 3:
        L1 = L2 = c['n'] + 3
    k = 3 if c['lead'] else 1
    x = np.array([sig(rng, L1, c['kind'], 1.) for _ in range(k)]).astype(c['dtype'])
    y = (0.5 * x[:, :L2] + np.array([sig(rng, L2, 'white', .5) for _ in range(k)])).astype(c['dtype'])
    if c['seed'] % 4 == 0:      # a missing sample
        (x if c['seed'] % 8 else y)[0, c['seed'] // 8 % L2] = np.nan
    if not c['lead']:
        x, y = x[0], y[0]
    n1 = (L1 * n2) // L2
    nb = L2 // n2
    w = window_of(c['win'], nfft, c['seed'])
    wa = warg(c['win'], nfft, c['seed'])
    ctx.nontrivial(nb > 1)
    ctx.label(c['how'], 'equal' if L1 == L2 else 'unequal')
    v1, v2 = da(x, c['fs']), da(y, c['fs'] * L2 / L1)
    if L1 > L2:
        raises(Exception, b.calc_coh, v2, v1, _what='shorter record first')
    coh = b.calc_coh(v1, v2, window=wa, debias=c['debias'], **kw)
    pha = b.calc_phase_angle(v1, v2, window=wa, **kw)
    close(coh.f.values, np.arange(1, nfft // 2 + 1) * c['fs'] / nfft, 1e-9, 0, 'frequency')
    time_ok(coh, v2, n2)
    tol = 2e-3 if c['dtype'] == 'f4' else 2e-5
    for j, (p, q) in enumerate(zip(np.atleast_2d(x).astype('f8'), np.atleast_2d(y).astype('f8'))):
        for i in range(nb):
            pa = padded_bin(p, i, n1, L1 // n1, nfft)
            qa = padded_bin(q, i, n2, L2 // n2, nfft)
            g = coh.values[j, i] if c['lead'] else coh.values[i]
            close(g, ref_coh(pa, qa, nfft, w, (0, 0), c['debias']), tol, tol, 'calc_coh')
            if n1 == n2 and not np.isnan(pa.sum() + qa.sum()):
                r, kf = ref_phase(pa, qa, nfft, w)
                g = pha.values[j, i] if c['lead'] else pha.values[i]
                close_phase(g, r, kf, 5 * tol, 'calc_phase_angle')


@PROP.sub(binned(), quick=200, shards=2)
def adv_csd(c, ctx):
    b, kw, nfft = tools(c, ADVBinner)
    rng = rng_of(c['seed'])
    L = c['n'] * c['nb'] + c['rem']
    if c['how'] == 'args':
        L = max(L, c['n'] + 3)
    x = np.array([sig(rng, L, c['kind'], 1.) for _ in range(3)])
    x[1] += 0.5 * x[0]
    x[2] -= 0.5 * np.roll(x[0], 1)
    x = x.astype(c['dtype'])
    if c['seed'] % 4 == 0:      # a missing sample
        x[c['seed'] // 4 % 3, c['seed'] // 12 % L] = np.nan
    v = da(x, c['fs'])
    n = c['n']
    nb = L // n
    ctx.nontrivial(nb > 1)
    w = window_of(c['win'], nfft, c['seed'])
    fs = c['fs'] * (2 * np.pi if 'rad' in c['units'] else 1)
    out = b.calc_csd(v, freq_units=c['units'], window=warg(c['win'], nfft, c['seed']), **kw)
    check(out.dims == ('C', 'time', 'coh_freq'), 'dims {}', out.dims)
    check(list(out.C.values) == ['Cxy', 'Cxz', 'Cyz'], 'C labels')
    close(out.coh_freq.values, np.arange(1, nfft // 2 + 1) * fs / nfft, 1e-6, 0, 'frequency')
    time_ok(out, v, n)
    for j, (p, q) in enumerate([(0, 1), (0, 2), (1, 2)]):
        for i in range(nb):
            A = padded_bin(x[p].astype('f8'), i, n, nb, nfft)
            B = padded_bin(x[q].astype('f8'), i, n, nb, nfft)
            want = ref_csd(A, B, nfft, fs, w)
            sc = np.sqrt(ref_csd(A, A, nfft, fs, w).real.max() * ref_csd(B, B, nfft, fs, w).real.max())
            close(out.values[j, i], want, 1e-4, 1e-5 * sc, 'calc_csd ' + str(out.C.values[j]))
    raises(Exception, b.calc_csd, v[0], _what='one component')


@PROP.sub(sizes(), quick=80)
def call_sizes(c, ctx):
    """Sizes given in the call give what a binner made with them gives."""
    n, f = settle(c)
    ctx.nontrivial(n != c['n0'] or f != n)
    ctx.label('bin ' + ('same' if n == c['n0'] else 'smaller' if n < c['n0'] else 'larger'),
              'fft limited' if (c['f'] or 0) > n else 'fft fits')
    v = sized(dict(c, vec=True))
    x, y = v[0].drop_vars('dir'), v[1].drop_vars('dir')
    kw = {k: q for k, q in (('n_bin', c['n']), ('n_fft_coh', c['f'])) if q is not None}
    first = ADVBinner(n_bin=c['n0'], fs=c['fs'], n_fft=c['f0'])
    b = ADVBinner(n_bin=n, fs=c['fs'], n_fft=f)
    for name, args in (('calc_csd', (v,)), ('calc_coh', (x, y)), ('calc_phase_angle', (x, y))):
        k = dict(freq_units='Hz') if name == 'calc_csd' else {}
        got, want = getattr(first, name)(*args, **k, **kw), getattr(b, name)(*args, **k)
        check(got.shape == want.shape, '{}: shape {} expected {} (bins of {}, FFT of {})', name, got.shape, want.shape, n, f)
        close(got.values, want.values, 1e-5, 1e-7 * float(np.abs(want).max()), name + ': sizes given in the call')
        fd = got.dims[-1]
        close(got[fd].values, np.arange(1, f // 2 + 1) * c['fs'] / f, 1e-6, 0, 'frequencies')
        check((got.time.values == want.time.values).all(), name + ': times')


history.add(PROP, 'P13', 'adv')
