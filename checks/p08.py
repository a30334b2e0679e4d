"""P08 principal heading."""
from vlib.core import Prop, check, close, quiet
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn

PROP = Prop('P08', 'at least 3 valid, non-collinear samples')


@st.composite
def flows(draw):
    return dict(seed=draw(seeds), n=draw(now_and_then(st.integers(1, 60), [200, 1500, 20000])), m=draw(now_and_then(st.integers(0, 3), [12, 30])),
                ncomp=draw(st.sampled_from([2, 3, 4])), axis=draw(st.floats(0, 360)),
                spread=draw(st.sampled_from([0, 0.05, 0.3])),
                bidir=draw(st.booleans()), nan=draw(st.sampled_from([0, 0, 0.2])),
                dtype=draw(st.sampled_from(['f8', 'f4'])), da=draw(st.booleans()))


def make(c):
    rng = rng_of(c['seed'])
    shp = (c['m'], c['n']) if c['m'] else (c['n'],)
    s = rng.uniform(0.1, 2, shp)
    if c['bidir']:
        s = s * rng.choice([-1, 1], shp)
    a = np.deg2rad(c['axis']) + rng.normal(0, 1, shp) * c['spread']
    v = np.stack([s * np.sin(a), s * np.cos(a)] +
                 [rng.normal(0, .1, shp) for _ in range(c['ncomp'] - 2)])
    if c['nan']:
        bad = rng.random(shp) < c['nan']
        bad[..., 0] = False
        v[:, bad] = np.nan
    return v.astype(c['dtype'])


def axis_diff(a, b):
    return np.abs((np.asarray(a) - b + 90) % 180 - 90)


def dir_diff(a, b):
    return np.abs((np.asarray(a) - b + 180) % 360 - 180)


@PROP.sub(flows(), quick=400)
def tidal(c, ctx):
    v = make(c)
    before = v.copy()
    arg = v
    if c['da'] and not c['m']:
        arg = xr.DataArray(v, dims=['dir', 'time'])
    got = dolfyn.calc_principal_heading(arg)
    check(np.array_equal(v, before, equal_nan=True), 'input modified')
    x = v.astype('f8')
    z = x[0] + 1j * x[1]
    ctx.nontrivial(c['spread'] > 0 and np.isfinite(z).sum() > 2)
    ctx.label('bidir' if c['bidir'] else 'unidir', 'rows %d' % c['m'])
    mean2 = np.nanmean(z ** 2 / np.abs(z), -1)
    ok = np.abs(mean2) > 0.05
    want = 90 - np.rad2deg(np.angle(mean2)) / 2
    check(np.shape(got) == np.shape(want), 'shape {}', np.shape(got))
    check((axis_diff(got, want)[ok] < 2e-3).all() if np.ndim(got) else (not ok or axis_diff(got, want) < 2e-3),
          'principal axis {}, expected {}', got, want)
    g = np.asarray(got)
    check(((g >= -1e-9) & (g <= 180 + 1e-9)).all(), 'not between 0 and 180: {}', g)


@PROP.sub(flows(), quick=250)
def direction(c, ctx):
    v = make(c)
    got = dolfyn.calc_principal_heading(v.copy(), tidal_mode=False)
    m = np.nanmean(v.astype('f8')[:2], -1)
    ok = np.hypot(m[0], m[1]) > 0.05
    ctx.nontrivial(c['spread'] > 0 and bool(np.any(ok)))
    want = np.rad2deg(np.arctan2(m[0], m[1]))
    e = dir_diff(got, want)
    check((e[ok] < 2e-3).all() if np.ndim(e) else (not ok or e < 2e-3),
          'mean direction {}, expected {}', got, want)
    g = np.asarray(got)
    check(((g >= 0) & (g <= 360)).all(), 'not between 0 and 360: {}', g)


@PROP.sub(st.tuples(flows(), st.floats(0, 360), seeds), quick=250)
def relations(case, ctx):
    """Reversing any subset of pings keeps the tidal axis; turning the flow
    turns the heading; component 3 and sample order are irrelevant."""
    c, turn, seed = case
    c = dict(c, dtype='f8', m=0, ncomp=3)
    v = make(c)
    z = v[0] + 1j * v[1]
    if np.abs(np.nanmean(z ** 2 / np.abs(z))) < 0.1:
        return
    ctx.nontrivial(c['n'] > 2)
    h = dolfyn.calc_principal_heading(v.copy())
    rng = rng_of(seed)
    w = v.copy()
    w[:2] *= rng.choice([-1, 1], v.shape[1])
    w[2] = 9
    w = w[:, rng.permutation(v.shape[1])]
    h2 = dolfyn.calc_principal_heading(w)
    check(axis_diff(h, h2) < 1e-3, 'reversed pings: {} -> {}', h, h2)
    a = np.deg2rad(turn)
    r = np.stack([v[0] * np.cos(a) + v[1] * np.sin(a), -v[0] * np.sin(a) + v[1] * np.cos(a)])
    h3 = dolfyn.calc_principal_heading(r)
    check(axis_diff(h3, h + turn) < 1e-3, 'turned by {}: {} -> {}', turn, h, h3)
    # it is the heading the principal frame expects
    import vlib.gen as g
    p = g.ref_to_principal(v[:2], float(h))
    check(np.nanmean(np.abs(p[0])) >= np.nanmean(np.abs(p[1])) * 0.99, 'flow is not streamwise')


@PROP.sub(st.tuples(st.floats(0, 359.9), st.integers(1, 5)), quick=100)
def pure_axis(case, ctx):
    h, n = case
    ctx.nontrivial(h % 90 != 0)
    a = np.deg2rad(h)
    v = np.outer([np.sin(a), np.cos(a)], np.arange(1, n + 1) * 0.3)
    got = dolfyn.calc_principal_heading(v)
    check(axis_diff(got, h) < 1e-3, 'pure flow toward {}: {}', h, got)
    got = dolfyn.calc_principal_heading(v, tidal_mode=False)
    check(dir_diff(got, h) < 1e-3, 'pure flow toward {}: {}', h, got)


@PROP.sub(st.tuples(flows(), st.booleans(), st.integers(0, 3)), quick=150)
def no_data(case, ctx):
    """Series without any valid velocity have no heading (NaN), the others
    keep theirs."""
    c, tidal_mode, dead = case
    v = make(c)
    bad = v.copy()
    if c['m']:
        rows = [i for i in range(c['m']) if (i + dead) % 2 == 0]
        bad[:, rows] = np.nan
    else:
        bad[:] = np.nan
        rows = Ellipsis
    ctx.nontrivial(c['n'] > 1)
    ctx.label('tidal' if tidal_mode else 'mean', 'rows %d' % c['m'])
    with quiet():
        got = np.array(dolfyn.calc_principal_heading(bad, tidal_mode=tidal_mode), dtype='f8')
        want = np.array(dolfyn.calc_principal_heading(v.copy(), tidal_mode=tidal_mode), dtype='f8')
    want[rows] = np.nan
    check(got.shape == want.shape and np.array_equal(got, want, equal_nan=True), '{} without data in {}, expected {}', got, rows, want)
