"""P02 gap filling."""
from vlib.core import Prop, check, close
from vlib.gen import seeds, rng_of, now_and_then
import numpy as np
from hypothesis import strategies as st
from dolfyn.tools import misc

PROP = Prop('P02', 'the data has at least one NaN between two finite values')


@st.composite
def gappy(draw, nd=None):
    nd = nd or draw(st.integers(1, 3))
    dim = draw(st.integers(0, nd - 1))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    shape[dim] = draw(now_and_then(st.integers(1, 24), [60, 300, 2500]))
    return dict(shape=shape, dim=dim - (nd if draw(st.booleans()) else 0),
                seed=draw(seeds), runs=draw(st.lists(st.integers(1, 6), min_size=1, max_size=20)),
                first=draw(st.booleans()), stretch=draw(now_and_then(st.just(1), [3, 8])),
                maxgap=draw(st.sampled_from([np.inf, 0, 1, 2, 3, 4, 5, 10, 20])),
                extrap=draw(st.booleans()),
                dtype=draw(st.sampled_from(['f8', 'f8', 'f4'])),
                layout=draw(st.sampled_from(['C', 'F', 'stride'])))


def data(c):
    rng = rng_of(c['seed'])
    shape, nd = c['shape'], len(c['shape'])
    a = np.round(rng.normal(0, 5, shape), 3).astype(c['dtype'])
    n = shape[c['dim']]
    m = np.zeros(shape, bool)
    mm = np.moveaxis(m, c['dim'], -1).reshape(-1, n)   # may copy
    out = []
    for k in range(mm.shape[0]):
        runs = np.roll(c['runs'], k) * c.get('stretch', 1)
        flag = np.concatenate([np.full(r, (i % 2 == 0) == (c['first'] ^ (k % 2 == 1)))
                               for i, r in enumerate(list(runs) * (n + 1))])[:n]
        out.append(flag)
    mask = np.moveaxis(np.array(out).reshape(
        [s for i, s in enumerate(shape) if i != c['dim'] % nd] + [n]), -1, c['dim'])
    a[mask] = np.nan
    if c['layout'] == 'F':
        a = np.asfortranarray(a)
    elif c['layout'] == 'stride':
        b = np.empty([2 * s for s in shape], dtype=a.dtype)
        b = b[tuple(slice(None, None, 2) for _ in shape)]
        b[...] = a
        a = b
    return a


def reference(a, t, maxgap, extrap):
    a = a.astype('f8').copy()
    good = [i for i in range(len(a)) if not np.isnan(a[i])]
    out = a.copy()
    if not good:
        return out
    if extrap:
        if good[0] <= maxgap:
            out[:good[0]] = a[good[0]]
        if len(a) - 1 - good[-1] <= maxgap:
            out[good[-1]:] = a[good[-1]]
    for i, j in zip(good, good[1:]):
        if j - i - 1 and j - i - 1 <= maxgap:
            for k in range(i + 1, j):
                w = (t[k] - t[i]) / (t[j] - t[i])
                out[k] = a[i] * (1 - w) + a[j] * w
    return out


def interior(a):
    g = np.flatnonzero(~np.isnan(a))
    return len(g) > 1 and (np.diff(g) > 1).any()


def run(c, ctx, irregular):
    a = data(c)
    n, dim = c['shape'][c['dim']], c['dim']
    orig = a.copy()
    lanes = np.moveaxis(orig, dim, -1).reshape(-1, n)
    ctx.nontrivial(any(interior(x) for x in lanes))
    ctx.label('nd%d' % a.ndim, 'maxgap %s' % c['maxgap'], 'extrap %s' % c['extrap'])
    if irregular:
        t = np.cumsum(rng_of(c['seed'], 5).uniform(0.1, 9, n))
        ret = misc.interpgaps(a, t, c['maxgap'], dim, c['extrap'])
    else:
        t = np.arange(n, dtype=float)
        ret = misc.fillgaps(a, c['maxgap'], dim, c['extrap'])
    got = np.moveaxis(a if a.ndim > 1 else ret, dim, -1).reshape(-1, n)
    rt = 2e-5 if c['dtype'] == 'f4' else 1e-9
    for x, y in zip(got, lanes):
        close(x, reference(y, t, c['maxgap'], c['extrap']), rt, rt * 10, 'filled lane')
        g = ~np.isnan(y)
        check((x[g] == y[g]).all(), 'valid samples were changed')
    check(a.dtype == orig.dtype, 'dtype changed')


@PROP.sub(gappy(), quick=500)
def fillgaps(c, ctx):
    run(c, ctx, False)


@PROP.sub(gappy(), quick=500)
def interpgaps(c, ctx):
    run(c, ctx, True)


@PROP.sub(gappy(1), quick=200)
def defaults(c, ctx):
    """Without options: every interior gap is filled, the ends are not."""
    a = data(c)
    b = a.copy()
    n = len(a)
    ctx.nontrivial(interior(b))
    t = np.arange(n) * 0.37
    close(misc.fillgaps(a.copy()), reference(b, t, np.inf, False), 3e-5, 1e-4, 'fillgaps')
    close(misc.interpgaps(a.copy(), t), reference(b, t, np.inf, False), 3e-5, 1e-4, 'interpgaps')


@PROP.sub(gappy(), quick=150)
def default_dimension(c, ctx):
    """The documented defaults: no limit, first dimension, no extrapolation."""
    a = data(c)
    ctx.nontrivial(a.ndim > 1 and np.isnan(a).any())
    t = np.arange(a.shape[0]) * 0.37

    def both(what, f, x, y):
        p, q = a.copy(), a.copy()
        r, s = f(p, **x), f(q, **y)
        close(p, q, 0, 0, what)
        check((r is None) == (s is None), what)
        if r is not None:
            close(r, s, 0, 0, what)
    both('fillgaps', misc.fillgaps, {}, dict(maxgap=np.inf, dim=0, extrapFlg=False))
    both('fillgaps', misc.fillgaps, dict(maxgap=2), dict(maxgap=2, dim=0, extrapFlg=False))
    both('interpgaps', misc.interpgaps, dict(t=t), dict(t=t, maxgap=np.inf, dim=0, extrapFlg=False))
