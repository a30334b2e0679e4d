"""P01 time representations."""
from vlib.core import Prop, check, close, Violation
from vlib.gen import seeds, rng_of, now_and_then
import contextlib
import os
import time as _t
from datetime import datetime, timedelta
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn
from dolfyn import time as dt

PROP = Prop('P01', 'at least one sub-second instant (or, for the '
            'representation pairs, an instant outside 1970)')

EPOCH0 = datetime(1970, 1, 1)
dates = st.one_of(st.datetimes(datetime(1970, 1, 1), datetime(2100, 1, 1)), st.datetimes(datetime(1970, 1, 1), datetime(2100, 1, 1)),
                  st.datetimes(datetime(1902, 1, 1), datetime(2100, 1, 1)))


@st.composite
def many(draw, item=dates, n=6):
    """a few instants, now and then a long record of them"""
    few = draw(st.lists(item, min_size=1, max_size=n))
    if draw(st.integers(1, 15)) == 15:
        r = rng_of(draw(seeds), 8)
        k = draw(st.sampled_from([70, 400, 3000]))
        if isinstance(few[0], float):
            few += (few[0] + r.uniform(-1, 1, k) * min(1e6, abs(few[0]) / 2)).tolist()
        else:
            few += [min(max(few[0], datetime(1970, 2, 1)), datetime(2099, 1, 1)) + timedelta(microseconds=int(u)) for u in r.integers(0, 2 * 10**12, k)]
    return few


TZS = ['UTC', 'America/Los_Angeles', 'Asia/Kolkata', 'Europe/London', 'XYZ+7', 'ABC-11:30']


@contextlib.contextmanager
def tz(name):
    old = os.environ.get('TZ')
    os.environ['TZ'] = name
    _t.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop('TZ')
        else:
            os.environ['TZ'] = old
        _t.tzset()


def secs(d):
    x = d - EPOCH0
    return x.days * 86400 + x.seconds + x.microseconds * 1e-6


@PROP.sub(st.tuples(many(dates, 6), st.sampled_from(TZS)),
          quick=250)
def date_epoch(case, ctx):
    ds, zone = case
    ctx.nontrivial(any(d.microsecond for d in ds))
    ctx.label(zone)
    with tz(zone):
        ep = dt.date2epoch(list(ds))
        close(ep, [secs(d) for d in ds], 0, 1e-6, 'date2epoch')
        back = dt.epoch2date(np.array(ep))
        check(list(back) == list(ds), 'epoch2date(date2epoch) {} != {}', back, ds)
        check(list(dt.epoch2date(list(ep))) == list(ds), 'list input')
        check(list(dt.epoch2date(xr.DataArray(np.array(ep), dims='time'))) == list(ds),
              'DataArray input')
        one = dt.epoch2date(ep[0])
        check(len(one) == 1 and one[0] == ds[0], 'scalar epoch2date {}', one)
        one = dt.epoch2date(np.array(ep[0]))
        check(len(one) == 1 and one[0] == ds[0], '0-d epoch2date {}', one)
        one = dt.epoch2date(xr.DataArray(np.array(ep), dims='time')[0])
        check(len(one) == 1 and one[0] == ds[0], '0-d epoch2date {}', one)
        one = dt.date2epoch(ds[0])
        close(one, [secs(ds[0])], 0, 1e-6, 'scalar date2epoch')


@PROP.sub(st.tuples(many(dates, 6), st.sampled_from(TZS)),
          quick=250)
def date_dt64(case, ctx):
    ds, zone = case
    ctx.nontrivial(any(d.microsecond for d in ds))
    with tz(zone):
        d64 = dt.date2dt64(list(ds))
        check(d64.dtype == np.dtype('datetime64[ns]'), 'dtype {}', d64.dtype)
        ns = (d64 - np.datetime64('1970-01-01T00:00:00', 'ns')).astype('int64')
        want = [((d - EPOCH0).days * 86400 + (d - EPOCH0).seconds) * 10**9 +
                (d - EPOCH0).microseconds * 1000 for d in ds]
        check(ns.tolist() == want, 'date2dt64: {} != {}', ns, want)
        back = dt.dt642date(d64)
        check(list(back) == list(ds), 'dt642date(date2dt64) {} != {}', back, ds)
        ep = dt.dt642epoch(d64)
        close(ep, [secs(d) for d in ds], 0, 1e-6, 'dt642epoch')
        check(dt.dt642date(d64[0])[0] == ds[0], 'scalar dt642date')
        da = xr.DataArray(d64, dims='time', coords={'time': d64})
        close(np.asarray(dt.dt642epoch(da)), ep, 0, 0, 'dt642epoch of a DataArray')
        check(list(dt.dt642date(da)) == list(ds), 'dt642date of a DataArray')
        close(dt.dt642epoch(np.array([d64, d64[::-1]])), [ep, ep[::-1]], 0, 0, 'dt642epoch of a 2-D array')
        close(dt.dt642epoch(d64[0]), ep[0], 0, 0, 'scalar dt642epoch')
        one = np.asarray(dt.date2dt64(ds[0]))
        check(one.ndim == 0 and one == d64[0], 'scalar date2dt64 {}', one)
        # coarser datetime64 units denote the same instants
        sec = d64.astype('datetime64[s]')
        close(dt.dt642epoch(sec), [np.floor(secs(d) + 1e-9) for d in ds], 0, 1e-6,
              'dt642epoch of datetime64[s]')


@PROP.sub(st.tuples(many(st.floats(0, 4.1e9)),
                    st.sampled_from([1, 4, 16, 64, 1e3, 1e6])), quick=300)
def epoch_dt64(case, ctx):
    ep, q = case
    ep = np.round(np.array(ep) * q) / q
    ctx.nontrivial((ep % 1 != 0).any())
    for arg in (ep, xr.DataArray(ep, dims='time', coords={'time': ep})):
        d64 = dt.epoch2dt64(arg)
        v = np.asarray(d64)
        ns = (v.astype('datetime64[ns]') - np.datetime64(0, 'ns')).astype('int64')
        # exact integer reference (float64 seconds -> ns)
        want = np.array([int(e) * 10**9 + int(round((e % 1) * 1e9)) for e in ep.tolist()])
        check((np.abs(ns - want) <= 2).all(), 'epoch2dt64 {}: {} ns, expected {}', ep, ns, want)
        close(dt.dt642epoch(v), ep, 0, 6e-7, 'dt642epoch(epoch2dt64)')
    flat = np.asarray(dt.epoch2dt64(ep))
    two = np.asarray(dt.epoch2dt64(np.array([ep, ep[::-1]])))
    check(two.shape == (2, len(ep)) and (two == [flat, flat[::-1]]).all(), 'epoch2dt64 of a 2-D array')
    two = np.asarray(dt.epoch2dt64(np.repeat(ep, 2)[::2]))
    check((two == flat).all(), 'epoch2dt64 of a strided array')
    whole = np.floor(ep).astype('i8')
    check((np.asarray(dt.epoch2dt64(whole)).astype('M8[ns]') == whole.astype('M8[s]')).all(), 'epoch2dt64 of integers')
    one = dt.epoch2dt64(np.float64(ep[0]))
    close(dt.dt642epoch(np.asarray(one)), ep[0], 0, 6e-7, 'scalar')


@PROP.sub(many(st.floats(-2.2e9, -1e-3)), quick=100)
def before_1970(case, ctx):
    ep = np.array(case)
    ctx.nontrivial((ep % 1 != 0).any())
    close(dt.dt642epoch(np.asarray(dt.epoch2dt64(ep))), ep, 0, 6e-7,
          'dt642epoch(epoch2dt64) before 1970')


@PROP.sub(many(dates, 5), quick=250)
def matlab(case, ctx):
    ds = case
    ctx.nontrivial(any(d.microsecond for d in ds))
    mdn = dt.date2matlab(list(ds))
    # MATLAB: datenum(1970,1,1) == 719529
    close(mdn, [719529 + secs(d) / 86400 for d in ds], 0, 3e-10, 'date2matlab')
    back = dt.matlab2date(list(mdn))
    check(list(dt.matlab2date(np.array(mdn))) == list(back), 'matlab2date of an array')
    check(list(dt.matlab2date(tuple(mdn))) == list(back), 'matlab2date of a tuple')
    check(list(dt.date2matlab(np.array(ds, dtype='O'))) == list(mdn), 'date2matlab of an array')
    for b, d in zip(back, ds):
        err = abs((b - d).total_seconds())
        check(err <= 75e-6, 'matlab2date(date2matlab({})) = {}', d, b)
        check(b.microsecond % 100 == 0, 'matlab2date {} is not rounded to 100 us', b)
    check(len(back) == len(ds), 'length')


@PROP.sub(st.tuples(many(dates, 4),
                    st.one_of(st.integers(-12, 14), st.sampled_from([-9.5, -3.5, 5.5, 5.75, 8.75])), st.sampled_from(TZS),
                    st.sampled_from([None, '%Y-%m-%d %H:%M:%S', '%j/%H', '%f'])),
          quick=200)
def strings_offsets(case, ctx):
    ds, off, zone, fmt = case
    ctx.nontrivial(off != 0)
    with tz(zone):
        ep = np.array([secs(d) for d in ds])
        got = dt.epoch2date(ep, offset_hr=off)
        want = [d + timedelta(hours=off) for d in ds]
        check(got == want, 'offset {}: {} != {}', off, got, want)
        s = dt.epoch2date(ep, offset_hr=off, to_str=True)
        check(s == [w.strftime('%Y-%m-%d %H:%M:%S.%f') for w in want], 'to_str {}', s)
        f = fmt or '%Y-%m-%d %H:%M:%S.%f'
        check(dt.date2str(list(ds), fmt) == [d.strftime(f) for d in ds], 'date2str')
        check(dt.date2str(ds[0], fmt) == [ds[0].strftime(f)], 'date2str scalar')


@PROP.sub(st.tuples(dates, st.lists(st.integers(0, 10**7), min_size=1, max_size=30) | st.builds(lambda s, n: rng_of(s).integers(0, 10**7, n).tolist(), seeds, st.sampled_from([300, 2000]))),
          quick=150)
def order_preserved(case, ctx):
    d0, steps = case
    us = np.cumsum(steps)
    ctx.nontrivial(len(steps) > 2)
    ds = [d0 + timedelta(microseconds=int(u)) for u in us]
    ep = dt.date2epoch(ds)
    d64 = dt.epoch2dt64(np.array(ep))
    check((np.diff(d64.astype('int64')) >= 0).all() if len(d64) > 1 else True,
          'epoch2dt64 breaks time order')
    check(all(a <= b for a, b in zip(ep, ep[1:])), 'date2epoch breaks time order')
    m = dt.date2matlab(ds)
    check(all(a <= b + 2e-10 for a, b in zip(m, m[1:])), 'date2matlab breaks time order')
