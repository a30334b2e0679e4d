"""P14 auto- and cross-covariance."""
from vlib import history
from vlib.core import Prop, check, close, raises
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from dolfyn import VelBinner
from checks.p12 import sig, kinds
from checks.p13 import da, time_ok

PROP = Prop('P14', 'at least three bins, so that an interior bin uses data on both sides')


@st.composite
def case_(draw):
    n = draw(now_and_then(st.integers(4, 40), [128, 300]))
    nb = draw(now_and_then(st.integers(1, 6), [20, 60] if n < 100 else [3]))
    return dict(n=n, nb=nb, rem=draw(st.integers(0, n - 1)), lead=draw(st.booleans()),
                fs=draw(st.sampled_from([1, 2, 8])), dtype=draw(st.sampled_from(['f8', 'f4'])),
                how=draw(st.sampled_from(['binner', 'args', 'float'])), kind=draw(kinds), seed=draw(seeds),
                npt=draw(st.integers(1, n)), normed=draw(st.booleans()))


def mk(c, k=0):
    L = c['n'] * c['nb'] + c['rem']
    rng = rng_of(c['seed'], k)
    a = np.array([sig(rng, L, c['kind'], 1.) for _ in range(3 if c['lead'] else 1)])
    a = a.astype(c['dtype'])
    if c['seed'] % 5 == 0:       # a missing sample
        a[0, (c['seed'] // 5 + 7 * k) % L] = np.nan
    return da(a if c['lead'] else a[0], c['fs'])


def tool(c):
    if c['how'] == 'args':
        return VelBinner(n_bin=c['n'] + 1 if c['rem'] else c['n'] - 1, fs=c['fs']), dict(n_bin=c['n'])
    return VelBinner(n_bin=float(c['n']) if c['how'] == 'float' else c['n'], fs=c['fs']), {}


def missing(x, i, n, got, want):
    """Missing samples in the ensemble or around it: nothing can come of a
    product with one, the others need not be there."""
    if not np.isnan(x[max(0, (i - 1) * n):(i + 2) * n].sum()):
        return False
    check(np.isnan(got) or not np.isnan(want), 'bin {}: {} from missing samples', i, got)
    return True


def cov(x, y, i, n, lag, nb):
    """sum over bin i of x[t+lag] * (y[t] - mean of y); None when it needs
    samples outside the binned record"""
    lo = i * n + lag
    if lo < 0 or lo + n > nb * n:
        return None
    d = y[i * n:(i + 1) * n]
    d = d - d.mean()
    return (x[lo:lo + n] * d).sum()


@PROP.sub(case_(), quick=900, shards=4)
def acov(c, ctx):
    v = mk(c)
    b, kw = tool(c)
    keep = v.copy(deep=True)
    out = b.calc_acov(v, **kw)
    check(v.identical(keep), 'calc_acov changed its input')
    n, nb = c['n'], c['nb']
    ctx.nontrivial(nb > 2 and n >= 8)
    ctx.label(c['how'], 'n%%4=%d' % (n % 4))
    check(out.sizes['lag'] == n // 4 and list(out.lag.values) == list(range(n // 4)), 'lag axis')
    check(out.dims[-2] == 'time' and out.sizes['time'] == nb, 'time axis')
    time_ok(out, v, n)
    rows = np.atleast_2d(v.values).astype('f8')
    got = out.values.reshape((len(rows), nb, n // 4))
    for j, x in enumerate(rows):
        x = x - np.nanmean(x[:nb * n])
        for i in range(nb):
            ref = n * max(np.nanvar(x[:nb * n]), 1e-12)
            for lag in range(n // 4):
                p, m = cov(x, x, i, n, lag, nb), cov(x, x, i, n, -lag, nb)
                if nb == 1 and lag:
                    continue        # no neighbouring data at all
                want = p if i == 0 else m if i == nb - 1 else (p + m) / 2
                if missing(x, i, n, got[j, i, lag], want):
                    continue
                check(abs(got[j, i, lag] - want) <= 1e-4 * ref + 1e-5 * abs(want) +
                      (1e-5 * n * 60 ** 2 if c['dtype'] == 'f4' else 0),
                      'acov bin {} lag {}: {} expected {}', i, lag, got[j, i, lag], want)
            if n >= 4 and not np.isnan(got[j, i, 0]):
                check(got[j, i, 0] >= -1e-3 * ref - (0.5 if c['dtype'] == 'f4' else 0), 'negative zero-lag covariance')


@PROP.sub(case_(), quick=900, shards=4)
def xcov(c, ctx):
    u, v = mk(c, 1), mk(c, 2)
    b, kw = tool(c)
    out = b.calc_xcov(u, v, npt=c['npt'], normed=c['normed'], **kw)
    n, nb, npt = c['n'], c['nb'], c['npt']
    ctx.nontrivial(nb > 2 and npt > 1)
    ctx.label('normed' if c['normed'] else 'plain')
    check(out.dims[-1] == 'dt' and out.sizes['dt'] == npt, 'dt axis')
    time_ok(out, u, n)
    r1, r2 = np.atleast_2d(u.values).astype('f8'), np.atleast_2d(v.values).astype('f8')
    got = out.values.reshape((len(r1), nb, npt))
    f4 = c['dtype'] == 'f4'
    for j, (x, y) in enumerate(zip(r1, r2)):
        x = x - np.nanmean(x[:nb * n])
        for i in range(nb):
            s1 = x[i * n:(i + 1) * n].std()
            s2 = y[i * n:(i + 1) * n].std()
            div = s1 * s2 * n if c['normed'] else 1
            mag = n * max(np.nanmax(np.abs(x)), 1e-6) * max(s2, 1e-6)
            for k in range(npt):
                want = cov(x, y, i, n, k - (npt - 1) // 2, nb)
                if want is None:
                    continue
                if missing(x, i, n, got[j, i, k], want) or missing(y, i, n, got[j, i, k], want):
                    continue
                check(abs(got[j, i, k] - want / div) <= (1e-3 if f4 else 1e-4) * mag / div + 1e-3 * abs(want / div),
                      'xcov bin {} lag {}: {} expected {}', i, k - (npt - 1) // 2, got[j, i, k], want / div)
    if c['normed'] and n > 2 and not np.isnan(r1.sum()) and c['kind'] in ('white', 'sine'):
        one = b.calc_xcov(u, u, npt=1, normed=True, **kw)
        close(one.values, np.ones(one.shape), 1e-3, 1e-3, 'correlation of a signal with itself')


history.add(PROP, 'P14', 'vel')
