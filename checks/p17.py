"""P17 ADV despiking and gap filling."""
from vlib.core import Prop, check, close, quiet, Violation
from vlib.gen import seeds, rng_of, over
import numpy as np
from scipy import interpolate
import xarray as xr
from hypothesis import strategies as st
from dolfyn.adv import clean

PROP = Prop('P17', 'some but not all samples are bad (flagged, masked or missing)')
T0 = np.datetime64('2020-01-01', 'ns')


def da(a, fs=8, jitter=None):
    n = a.shape[-1]
    t = np.arange(n) / fs if jitter is None else jitter
    time = T0 + (t * 1e9).astype('timedelta64[ns]')
    if a.ndim == 1:
        return xr.DataArray(a, dims=['time'], coords={'time': time}, attrs={'units': 'm s-1'})
    return xr.DataArray(a, dims=['dir', 'time'], coords={'dir': list('XYZ')[:a.shape[0]], 'time': time},
                        attrs={'units': 'm s-1'})


# ------------------------------------------------------------------ GN2002
def ellipsoid(u):
    """Goring & Nikora (2002) eqs. 6-13 with Wahl's (2003) tilt: distance form."""
    n = len(u)
    u = u - u.mean()
    du, d2 = np.zeros(n), np.zeros(n)
    for i in range(1, n - 1):
        du[i] = (u[i + 1] - u[i - 1]) / 2
    for i in range(2, n - 2):
        d2[i] = (du[i + 1] - du[i - 1]) / 2
    lam = np.sqrt(2 * np.log(n))
    al = np.arctan2((u * d2).sum(), (u ** 2).sum())
    c2, s2 = np.cos(al) ** 2, np.sin(al) ** 2
    a2, b2 = np.linalg.solve([[c2, s2], [s2, c2]], [(lam * u.std()) ** 2, (lam * d2.std()) ** 2])
    x = u * np.cos(al) + d2 * np.sin(al)
    z = u * np.sin(al) - d2 * np.cos(al)
    return x ** 2 / a2 + z ** 2 / b2 + du ** 2 / (lam * du.std()) ** 2


def gn_ref(u, npt):
    q = np.full(len(u), np.nan)
    nb = len(u) // npt
    for k in range(nb):
        q[k * npt:(k + 1) * npt] = ellipsoid(u[k * npt:(k + 1) * npt])
    q[-npt:] = ellipsoid(u[-npt:])
    return q


def agree(mask, q, what):
    with np.errstate(invalid='ignore'):
        sure = np.abs(q - 1) > 1e-6
    bad = sure & (mask != (q > 1))
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('%s: sample %d flagged=%s but its ellipsoid distance is %.4f (%d samples)'
                        % (what, i, mask[i], q[i], bad.sum()))


@st.composite
def turb(draw, max_n=300):
    n = draw(st.integers(24, max_n))
    return dict(n=n, npt=draw(st.integers(12, 120) | st.sampled_from([5000])), seed=draw(seeds),
                spikes=draw(st.integers(0, 6)), amp=draw(st.sampled_from([3, 10, 100])),
                colour=draw(st.sampled_from(['white', 'red', 'wave'])), off=draw(st.sampled_from([0, 1.5, -20])),
                scale=draw(st.sampled_from([0.01, 1, 3])), dim=draw(st.booleans()), dtype=draw(st.sampled_from(['f8', 'f8', 'f4'])))


def series(c, k=0):
    rng = rng_of(c['seed'], k)
    n = c['n']
    x = rng.normal(0, 1, n)
    if c['colour'] == 'red':
        x = np.cumsum(x) * 0.3
    elif c['colour'] == 'wave':
        x = x * 0.2 + np.sin(np.arange(n) * rng.uniform(0.05, 0.5))
    i = rng.choice(n, min(c['spikes'], n // 4), replace=False)
    x[i] += c['amp'] * x.std() * rng.choice([-1, 1], len(i))
    return (x * c['scale'] + c['off']).astype(c['dtype'])


@PROP.sub(turb(), quick=400)
def gn2002(c, ctx):
    rows = [series(c, k) for k in range(3)]
    u = np.stack(rows) if c['dim'] else rows[0]
    v = da(u)
    keep = v.copy(deep=True)
    m = clean.GN2002(v, npt=c['npt'])
    check(v.identical(keep), 'GN2002 changed the velocity')
    check(isinstance(m, np.ndarray) and m.dtype == bool and m.shape == u.shape, 'mask {} {}', type(m), getattr(m, 'shape', None))
    ctx.nontrivial(m.any() and not m.all())
    ctx.label('single' if c['npt'] >= c['n'] else 'blocks', c['colour'])
    for k, r in enumerate(rows if c['dim'] else rows[:1]):
        mk = m[k] if c['dim'] else m
        if c['dtype'] == 'f8':
            agree(mk, gn_ref(r.astype('f8'), c['npt']), 'GN2002')
        check(np.array_equal(mk, clean.GN2002(r, npt=c['npt'])), 'component {} is not despiked on its own', k)
        # change of units (exact in binary) and direction
        check(np.array_equal(mk, clean.GN2002(r * 4, npt=c['npt'])), 'the mask depends on the unit of velocity')


@PROP.sub(turb(200), quick=150)
def gn2002_default(c, ctx):
    """Default block length; a lone huge spike in noise is always found."""
    c = dict(c, dtype='f8', spikes=0, colour='white')
    u = series(c)
    i = c['seed'] % (c['n'] - 6) + 3
    u[i] += 50 * u.std()
    m = clean.GN2002(da(u))
    ctx.nontrivial(m.any() and not m.all())
    agree(m, gn_ref(u, 5000), 'GN2002 (default block length)')
    check(m[i], 'a 50-sigma spike was not flagged')


@PROP.sub(st.tuples(seeds, st.integers(20, 60), st.lists(st.integers(30, 80), min_size=4, max_size=6),
                    st.booleans(), st.booleans()), quick=200)
def gn2002_gaps(case, ctx):
    """Good regions between long gaps are despiked separately, whatever the gaps."""
    seed, npt, lens, lead, tail = case
    rng = rng_of(seed)
    gap = np.full(npt, np.nan)
    parts, regions, pos = [], [], 0
    if lead:
        parts.append(gap)
        pos += npt
    for j, L in enumerate(lens):
        x = rng.normal(0, 1, L)
        x[rng.integers(3, L - 3)] += 30
        if j:
            parts.append(gap)
            pos += npt
        regions.append(slice(pos, pos + L))
        parts.append(x)
        pos += L
    if tail:
        parts.append(gap)
    u = np.concatenate(parts)
    m = clean.GN2002(da(u), npt=npt)
    ctx.nontrivial()
    ctx.label('lead' if lead else '', 'tail' if tail else '')
    check(not m[np.isnan(u)].any(), 'missing samples were flagged')
    for r in regions:
        agree(m[r], gn_ref(u[r], npt), 'GN2002 between gaps')


# ----------------------------------------------------------- simple masks
@PROP.sub(st.tuples(seeds, st.integers(1, 60), st.booleans(), st.sampled_from([0, 0.2]), st.floats(0.1, 10)), quick=200)
def thresholds(case, ctx):
    seed, n, dim, nan, th = case
    rng = rng_of(seed)
    u = rng.normal(0, th, (3, n) if dim else n)
    u[rng.random(u.shape) < nan] = np.nan
    u[rng.random(u.shape) < 0.1] = th          # on the limit
    v = da(u)
    keep = v.copy(deep=True)
    m = clean.spike_thresh(v, thresh=th)
    check(m.shape == u.shape and m.dtype == bool, 'spike_thresh mask')
    with np.errstate(invalid='ignore'):
        want = np.abs(u[..., 1:] - u[..., :-1]) > th
    check(np.array_equal(m[..., 1:], want), 'spike_thresh: jump of more than thresh')
    lo, hi = -th * (seed % 3), th
    m = clean.range_limit(v, [lo, hi])
    with np.errstate(invalid='ignore'):
        want = (u > lo) & (u < hi)
    check(np.array_equal(m, ~want), 'range_limit: flags exactly what is not inside the limits')
    m2 = clean.range_limit(v)
    with np.errstate(invalid='ignore'):
        check(np.array_equal(m2, ~((u > -5) & (u < 5))), 'range_limit default [-5, 5]')
        check(np.array_equal(clean.spike_thresh(v)[..., 1:], np.abs(np.diff(u)) > 10), 'spike_thresh default 10')
    check(v.identical(keep), 'masking changed the velocity')
    ctx.nontrivial(m.any() and not m.all())


# -------------------------------------------------------------- clean_fill
def runs(bad):
    out, i = [], 0
    while i < len(bad):
        if bad[i]:
            j = i
            while j < len(bad) and bad[j]:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


@st.composite
def gaps(draw):
    n = draw(st.integers(10, 80))
    segs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 9)), min_size=0, max_size=5))
    return dict(n=n, segs=segs, seed=draw(seeds), dim=draw(st.booleans()), mdim=draw(st.booleans()),
                method=draw(st.sampled_from(['linear', 'linear', 'cubic', 'nearest'])), maxgap=draw(st.integers(1, 8)),
                npt=draw(st.integers(1, 14)), jitter=draw(st.booleans()), pre=draw(st.booleans()),
                defaults=draw(st.sampled_from([False, False, True])))


@PROP.sub(gaps(), quick=500, shards=2)
def fill(c, ctx):
    n = c['n']
    rng = rng_of(c['seed'])
    t = np.arange(n) / 8.
    if c['jitter']:
        t = t + rng.uniform(-0.05, 0.05, n)
    t = (t * 1e9).round() / 1e9
    tt = (t - t[0]) / max(1e-9, t[-1] - t[0])
    d = 3 if c['dim'] else 1
    poly = c['method'] == 'cubic' or c['defaults']
    if poly:
        co = rng.normal(0, 1, (d, 4))
        u = sum(co[:, k:k + 1] * tt ** k for k in range(4))
    else:
        u = rng.normal(0, 1, (d, n))
    mask = np.zeros((d, n), bool)
    for j, (s, L) in enumerate(c['segs']):
        if c['mdim'] and c['dim']:
            mask[j % 3, s:s + L] = True
        else:
            mask[:, s:s + L] = True
    if c['defaults'] or c['method'] == 'cubic':      # keep enough samples for a cubic
        if ((~mask).sum(1) < 8).any():
            return
        for k in range(d):
            for s, e in runs(mask[k]):
                pass
    truth = u.copy()
    if c['pre'] and mask.any():                       # some are missing already
        u[mask & (rng.random(mask.shape) < 0.5)] = np.nan
    v = da(u if c['dim'] else u[0], jitter=t)
    m = mask if (c['mdim'] and c['dim']) else mask[0]
    kw = {} if c['defaults'] else dict(npt=c['npt'], method=c['method'], maxgap=c['maxgap'])
    npt, method, maxgap = (12, 'cubic', 6) if c['defaults'] else (c['npt'], c['method'], c['maxgap'])
    if method == 'cubic' and npt < 4:
        return
    mkeep = m.copy()
    with quiet():
        out = clean.clean_fill(v.copy(deep=True), m, **kw)
    check(np.array_equal(m, mkeep), 'clean_fill changed the mask')
    check(out.dims == v.dims and out.shape == v.shape and (out.time.values == v.time.values).all(), 'clean_fill shape or coordinates')
    g = np.atleast_2d(out.values)
    ctx.nontrivial(mask.any())
    ctx.label(method)
    for k in range(d):
        check(np.array_equal(g[k][~mask[k]], truth[k][~mask[k]]), 'clean_fill changed a good sample')
        for s, e in runs(mask[k]):
            L = e - s
            got = g[k][s:e]
            if s == 0 or e == n:
                check(np.isnan(got).all(), 'clean_fill extrapolated beyond the ends: {}', got)
                continue
            if method == 'linear':
                w = truth[k][s - 1] + (t[s:e] - t[s - 1]) / (t[e] - t[s - 1]) * (truth[k][e] - truth[k][s - 1])
            elif method == 'cubic':
                w = truth[k][s:e]
            else:
                w = None
            if w is not None:
                ok = np.isfinite(got)
                close(got[ok], w[ok], 1e-5, 1e-4 if method == 'cubic' else 2e-5, 'interpolated values (%s)' % method)
            else:
                check(np.isin(got[np.isfinite(got)], truth[k][[s - 1, e]]).all(), 'nearest: a value that is not a neighbour')
            if L <= maxgap:
                check(np.isfinite(got).all(), 'a gap of {} <= maxgap {} was not filled', L, maxgap)
            else:
                check(np.isnan(got[maxgap:]).all(), 'a gap of {} > maxgap {} was filled', L, maxgap)


@PROP.sub(st.tuples(seeds, st.integers(1, 12), st.sampled_from([1, 2, 4]), st.integers(1, 5), st.integers(0, 40), st.booleans(),
                    st.sampled_from([0.05, 0.3, 0.8])), quick=300)
def ensemble_mean(case, ctx):
    seed, window, fs, nb, rem, dim, p = case
    n_bin = window * fs
    rem = rem % n_bin
    n = nb * n_bin + rem
    rng = rng_of(seed)
    u = rng.normal(3, 1, (3, n) if dim else n)
    mask = rng.random(u.shape) < p
    if seed % 4 == 0:
        mask[..., :n_bin] = True             # a whole ensemble missing
    u[rng.random(u.shape) < 0.05] = np.nan
    v = da(u)
    keep = v.copy(deep=True)
    if n == 1:
        return
    with quiet():
        out = clean.fill_nan_ensemble_mean(v, mask, fs=fs, window=window)
    check(v.identical(keep), 'fill_nan_ensemble_mean changed its input')
    w = np.where(mask, np.nan, u)
    with quiet():
        for k in range(0, n, n_bin):
            b = w[..., k:k + n_bin]
            mean = np.nanmean(b, -1, keepdims=True)
            w[..., k:k + n_bin] = np.where(np.isnan(b), mean, b)
    bad = mask | np.isnan(u)
    ctx.nontrivial(bad.any() and not bad.all() and nb > 1)
    ctx.label('partial last ensemble' if rem else 'even')
    close(out.values, w, 1e-12, 1e-12, 'fill_nan_ensemble_mean')
    check(out.dims == v.dims and (out.time.values == v.time.values).all(), 'coordinates')


@PROP.sub(st.tuples(seeds, st.integers(30, 120), st.integers(4, 14), st.integers(1, 5), st.sampled_from(['cubic', 'quadratic', 'slinear', 'pchip']),
                    st.booleans(), st.booleans()), quick=400)
def fill_window(case, ctx):
    """The fit over an isolated gap uses the `npt` good points on either side of it, and no others."""
    seed, n, npt, ng, method, dim, defaults = case
    if defaults:
        npt, method = 12, 'cubic'
    rng = rng_of(seed)
    d = 3 if dim else 1
    u = rng.normal(0, 1, (d, n))
    mask = np.zeros((d, n), bool)
    segs = [[] for _ in range(d)]
    for k in range(d):
        e = int(rng.integers(2, 2 * npt))
        for _ in range(ng):                      # npt good points or more between gaps
            L = int(rng.integers(1, 6))
            if e + L + 2 >= n:
                break
            mask[k, e:e + L] = True
            segs[k].append((e, e + L))
            e += L + npt + int(rng.integers(0, 4))
    t = np.sort(np.round(np.arange(n) / 8. + rng.uniform(-.05, .05, n), 9))
    v = da(u if dim else u[0], jitter=t)
    t = (v.time.values - v.time.values[0]).astype('i8') / 1e9
    kw = {} if defaults else dict(npt=npt, method=method)
    with quiet():
        out = clean.clean_fill(v.copy(deep=True), mask if dim else mask[0], **kw)
    g = np.atleast_2d(out.values)
    ctx.label(method)
    ctx.nontrivial(mask.any())
    for k in range(d):
        for s, e in segs[k]:
            i = np.r_[max(s - npt, 0):s, e:min(e + npt, n)]
            if method == 'pchip':
                w = interpolate.PchipInterpolator(t[i], u[k][i])(t[s:e])
            else:
                if len(i) < 4:
                    continue
                w = interpolate.interp1d(t[i], u[k][i], kind=method)(t[s:e])
            close(g[k][s:e], w, 1e-4, 1e-4 * max(1, np.abs(w).max()), 'gap %d-%d of %d, %s over %d points either side' % (s, e, n, method, npt))


# ------------------------------------------------------- records of usual length
LONG = st.sampled_from([5000, 5600, 10000, 12345, 20000])
PROP.sub(over(turb(), n=LONG, npt=st.sampled_from([5000, 5000, 1000, 300]), spikes=st.integers(0, 60)), quick=16, name='gn2002_long')(gn2002)
PROP.sub(over(turb(), n=LONG), quick=12, name='gn2002_default_long')(gn2002_default)
PROP.sub(over(gaps(), n=st.sampled_from([400, 1500]), segs=st.lists(st.tuples(st.integers(0, 1499), st.integers(1, 14)), min_size=5, max_size=40),
              maxgap=st.integers(1, 14)), quick=40, name='fill_long')(fill)
PROP.sub(st.tuples(seeds, st.sampled_from([30, 100, 300]), st.sampled_from([8, 16, 32]), st.integers(1, 4), st.integers(0, 9000), st.booleans(),
                   st.sampled_from([0.05, 0.3, 0.8])), quick=20, name='ensemble_mean_long')(ensemble_mean)
