"""P03 array helpers: runs, 1-D slices, detrend, running median, compass."""
from vlib.core import Prop, check, close
from vlib.gen import seeds, rng_of, now_and_then
import itertools
import xarray as xr
import numpy as np
from hypothesis import strategies as st
from dolfyn.tools import misc

PROP = Prop('P03', 'runs: >1 run of True; slices: >1 lane; detrend/median: '
            'non-constant data; degrees: an angle off the axes')


LONG = st.builds(lambda s, n, m: [tuple(int(v) for v in x) for x in rng_of(s).integers(1, m, (n, 2))], seeds, st.sampled_from([30, 300]), st.sampled_from([3, 8, 60]))


@PROP.sub(st.tuples(st.integers(1, 9).flatmap(lambda k: LONG if k == 9 else st.lists(st.tuples(st.integers(1, 5), st.integers(1, 5)), min_size=1, max_size=8)),
                    st.booleans(), st.booleans(), st.integers(0, 6)), quick=600)
def group(case, ctx):
    runs, start, end, ml = case
    bl = []
    for i, (a, b) in enumerate(runs):
        if not (i == 0 and start):
            bl += [False] * b
        bl += [True] * a
    if not end:
        bl += [False] * 2
    bl = np.array(bl)
    want = []
    i = 0
    for k, g in itertools.groupby(bl.tolist()):
        n = len(list(g))
        if k and n >= ml:
            want.append((i, i + n))
        i += n
    ctx.nontrivial(len(want) > 1)
    ctx.label('starts True' if start else 'starts False', 'ends True' if end else 'ends False')
    got = [(int(s.start), int(s.stop)) for s in misc.group(bl, ml)]
    check(got == want, 'group({}, {}) = {}, expected {}', bl.astype(int).tolist(), ml, got, want)


@PROP.sub(st.integers(1, 20), quick=10)
def group_none(n, ctx):
    ctx.nontrivial()
    check(len(misc.group(np.zeros(n, bool))) == 0, 'group of all-False is not empty')


@PROP.sub(st.tuples(st.lists(now_and_then(st.integers(1, 5), [8, 12], 15), min_size=2, max_size=4), st.integers(0, 3),
                    st.booleans()), quick=300)
def slices(case, ctx):
    shape, ax, neg = case
    ax = ax % len(shape)
    a = np.arange(np.prod(shape)).reshape(shape)
    lanes = np.moveaxis(a, ax, -1).reshape(-1, shape[ax])
    ctx.nontrivial(len(lanes) > 1)
    got = [a[s].copy() for s in misc.slice1d_along_axis(tuple(shape), ax - len(shape) if neg else ax)]
    check(len(got) == len(lanes), '{} slices, expected {}', len(got), len(lanes))
    for g, w in zip(got, lanes):
        check(g.shape == w.shape and (g == w).all(), 'slice {} expected {}', g, w)


@PROP.sub(st.tuples(st.lists(st.integers(1, 5), min_size=1, max_size=3), st.integers(0, 2),
                    now_and_then(st.integers(2, 40), [200, 1500, 20000]), seeds, st.booleans(), st.floats(-5, 5), st.floats(-100, 100)),
          quick=300)
def detrend(case, ctx):
    shape, ax, n, seed, inpl, slope, off = case
    ax = ax % len(shape)
    shape = list(shape)
    shape[ax] = n
    ctx.nontrivial()
    rng = rng_of(seed)
    sh = [1] * len(shape)
    sh[ax] = n
    x = np.arange(n).reshape(sh)
    a = rng.normal(0, 1, shape) + slope * x + off
    if seed % 3 == 1:
        a = np.repeat(a, 2, ax)[tuple(slice(None, None, 2) if i == ax else slice(None) for i in range(a.ndim))]
    elif seed % 3 == 2:
        a = np.asfortranarray(a)
    if seed % 5 == 1 and n > 4:       # missing samples: the line is that of the others
        a[rng.random(a.shape) < .3] = np.nan
        np.moveaxis(a, ax, 0)[[0, 2]] = 1.5
        np.moveaxis(a, ax, 0)[n // 2:n // 2 + (seed % 3 == 0)] = np.nan
    orig = a.copy()
    got = misc.detrend(a, axis=ax, in_place=inpl)
    if not inpl:
        check(np.array_equal(a, orig, equal_nan=True), 'detrend modified its input')
    else:
        close(a, got, 0, 0, 'in-place result')
    lanes = np.moveaxis(orig, ax, -1).reshape(-1, n)
    res = np.moveaxis(got, ax, -1).reshape(-1, n)
    t = np.arange(n)
    for y, g in zip(lanes, res):
        k = ~np.isnan(y)
        co = np.polyfit((t - t.mean())[k], y[k], 1)
        close(g, y - np.polyval(co, t - t.mean()), 1e-7, 1e-7 * (1 + abs(slope) * n), 'residual')
    close(misc.detrend(orig), misc.detrend(orig, axis=-1), 0, 0, 'default axis')
    close(misc.detrend(got, axis=ax), got, 1e-7, 1e-7 * (1 + abs(slope) * n), 'detrend is not idempotent')


@PROP.sub(st.tuples(st.booleans(), st.integers(1, 9), now_and_then(st.integers(3, 25), [120, 1000]), st.sampled_from([1, 3, 5]),
                    st.sampled_from([1, 3, 5, 7]), seeds, st.sampled_from([0, .2, .34, .5, .8]),
                    st.sampled_from([0, 0.1, 0.5])), quick=300)
def medfilt(case, ctx):
    two, m, n, k0, k1, seed, thr, fr = case
    rng = rng_of(seed)
    if not two:
        m, k0 = 1, 1
    a = np.round(rng.normal(0, 3, (m, n)), 2)
    a[rng.random((m, n)) < fr] = np.nan
    pad = np.pad(a, ((k0 // 2, k0 // 2), (k1 // 2, k1 // 2)))
    w = np.lib.stride_tricks.sliding_window_view(pad, (k0, k1))
    ctx.nontrivial(k1 > 1)
    how = seed % 4
    if how == 1:
        a = a.astype('f4')
        w = w.astype('f4')
    arg = a if two else a[0]
    if how == 2:
        arg = np.repeat(arg, 2, -1)[..., ::2]
    elif how == 3:
        arg = np.asfortranarray(arg)
    before = arg.copy()
    out = misc.medfiltnan(arg, k1 if k0 == k1 or not two else [k0, k1], thr)
    check(np.array_equal(arg, before, equal_nan=True), 'medfiltnan modified its input')
    check(out.shape == arg.shape, 'shape {}', out.shape)
    out = np.atleast_2d(out)
    frac = np.isnan(w).mean((-1, -2))
    clean = frac == 0
    med = np.median(w, axis=(-1, -2))
    close(out[clean], med[clean], 1e-12, 1e-12, 'median of NaN-free windows')
    if thr > 0:
        over = frac > thr + 1e-9
        check(np.isnan(out[over]).all(), 'window with NaN fraction > thresh not NaN')


@PROP.sub(st.tuples(st.lists(st.floats(-720, 720).map(lambda v: round(v, 3)) | st.integers(-48, 48).map(lambda k: 15. * k) |
                             st.floats(-181, -179).map(lambda v: round(90 - v, 3)), min_size=1, max_size=8),
                    st.booleans(), st.booleans()), quick=300)
def degrees(case, ctx):
    vals, tidal, scalar = case
    ctx.nontrivial(any(v % 90 for v in vals))
    d = np.array(vals)
    out = np.asarray(misc.convert_degrees(d.copy(), tidal_mode=tidal))
    # direction vectors: math angle (CCW from E) <-> compass angle (CW from N)
    close(np.sin(np.deg2rad(out)), np.cos(np.deg2rad(d)), 0, 1e-9, 'east component')
    close(np.cos(np.deg2rad(out)), np.sin(np.deg2rad(d)), 0, 1e-9, 'north component')
    if tidal:
        check((np.abs(out) <= 180 + 1e-9).all() and (out <= 180).all() and (out > -180 - 1e-9).all(), 'range {}', out)
    else:
        check((out < 360).all() and (out >= 0).all(), 'range {}', out)
    back = np.asarray(misc.convert_degrees(out.copy(), tidal_mode=tidal))
    close((back - d + 180) % 360, np.full(d.shape, 180.), 0, 1e-9, 'round trip')
    # other containers; a missing angle stays the only one missing
    forms = dict(column=lambda a: a[:, None], fortran=lambda a: np.asfortranarray(np.stack([a, a])), strided=lambda a: np.repeat(a, 2)[::2],
                 series=lambda a: xr.DataArray(a, dims=['time']), table=lambda a: xr.DataArray(np.stack([a, a]), dims=['range', 'time']))
    for k, fn in forms.items():
        a = fn(d)
        g = misc.convert_degrees(a.copy(), tidal_mode=tidal)
        close(np.asarray(g), np.asarray(fn(out)), 0, 1e-9, k)
        if hasattr(a, 'dims'):
            check(g.dims == a.dims, 'dims of {}', k)
    h = d.copy()
    h[len(h) // 2] = np.nan
    w = out.copy()
    w[len(h) // 2] = np.nan
    close(np.asarray(misc.convert_degrees(h, tidal_mode=tidal)), w, 0, 1e-9, 'a missing angle')
    g = np.asarray(misc.convert_degrees(d.astype('f4'), tidal_mode=tidal))
    close((g - out + 180 + 1e-3) % 360, np.full(d.shape, 180.), 0, 3e-3, 'single precision')
    if scalar:
        s = misc.convert_degrees(float(vals[0]), tidal_mode=tidal)
        close(float(s), out[0], 0, 1e-9, 'scalar')
