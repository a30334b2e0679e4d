"""Instrument files with all the optional parts: vertical beam, echosounder, altimeter, bottom track, AHRS, surface layer, navigation."""
from hypothesis import strategies as st
from .gen import seeds, rng_of
from checks import p28, p29

sig_st = st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(3, 9), ncells=st.integers(2, 6), cy=st.integers(0, 2), theta=st.sampled_from([25, 20]),
    ids=st.lists(st.sampled_from([23, 24, 28]), unique=True), amp=st.booleans(), corr=st.booleans(), le=st.booleans(), ast=st.booleans(),
    ahrs=st.booleans(), std=st.booleans(), orient=st.sampled_from([4, 5, 7]), up=st.booleans(), vscale=st.just(-3), vscale5=st.just(-3),
    altraw=st.sampled_from([0, 0, 1, 2]), main=st.sampled_from([21, 21, 22]))).map(
        lambda c: dict(c, kind='sig', strings=False, unknown=False, rare=0, skip=0, bad=0, cold=False, ens0=1, ids=c['ids'] if c['main'] == 21 else []))
trdi_st = st.fixed_dictionaries(dict(
    seed=seeds, ver=st.sampled_from(p28.VERS), ncells=st.integers(2, 9), n=st.integers(3, 9), frame=st.integers(0, 3), bits=st.just(0), up=st.booleans(),
    convex=st.booleans(), b5=st.booleans(), magvar=st.sampled_from([0, -1250]), types=st.integers(0, 127), nans=st.booleans())).map(
        lambda c: dict(c, kind='trdi', bigid=False, extra=[], dual=False))
case_st = sig_st | trdi_st


def data(c):
    """The file and its extension."""
    rng = rng_of(c['seed'])
    if c['kind'] == 'sig':
        return p29.build(c, rng, c['main'])['f'], 'ad2cp'
    g = p28.config(c, rng)
    es = p28.values(c, g, rng, c['n'] + 1)
    nsl = p28.ii(rng, 2, c['ncells'] + 1)
    sl = (nsl, p28.ii(rng, 1, 500), p28.ii(rng, 1, 999))
    for e in es:
        for k in p28.IDS:
            e['sl_' + k] = p28.ii(rng, -32767, 32768, (nsl, 4)) if k == 'vel' else p28.ii(rng, 0, 256, (nsl, 4))
    order, pad = p28.order_of(c, rng)
    return b''.join(p28.blocks(c, g, e, order, sl, pad) for e in es), '000'


def read(c, **k):
    f, ext = data(c)
    return p29.load(f, **k) if ext == 'ad2cp' else p28.load(f, None, ext=ext)
