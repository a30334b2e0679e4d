"""P23 the velds shortcuts."""
from vlib.core import Prop, check, close, quiet, scratch
from vlib import gen
from vlib.gen import seeds, rng_of
import os
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn

PROP = Prop('P23', 'more than one time step')


@PROP.sub(st.tuples(gen.ds_case(max_t=12), st.sampled_from(['beam', 'inst', 'earth', 'principal']),
                    st.sampled_from(['all', 'all', 'one time', 'one vector', 'one range', 'time mean'])), quick=400, shards=2)
def components(case, ctx):
    c, frame, part = case
    ds = gen.build(c)
    if c.get('decl') is not None:
        dolfyn.set_declination(ds, c['decl'])
    with quiet():
        ds = dolfyn.rotate2(ds, frame, inplace=False)
    prof = 'range' in ds.vel.dims
    if part in ('one time', 'one vector'):
        ds = ds.isel(time=c['seed'] % c['nt'])
    if part in ('one range', 'one vector') and prof:
        ds = ds.isel(range=c['seed'] % c['nr'])
    if part == 'time mean':
        ds = ds.mean('time', keep_attrs=True)
    snap = gen.snapshot(ds)
    V = ds.velds
    x = ds['vel'].values.astype('f8')
    ctx.nontrivial(c['nt'] > 1)
    ctx.label(c['kind'], frame, part)
    with quiet():
        for k, nm in enumerate('uvw'):
            g = getattr(V, nm)
            close(g.values, ds['vel'].values[k], 0, 0, nm)
            check('dir' not in g.coords and g.dims == ds.vel.dims[1:], nm + ' still has a direction')
        U, mag, ang = V.U, V.U_mag, V.U_dir
    close(U.values, x[0] + 1j * x[1], 1e-6, 1e-6, 'U')
    close(mag.values, np.hypot(x[0], x[1]), 1e-6, 1e-6, 'U_mag')
    a = np.asarray(ang.values, 'f8')
    m = np.isfinite(x[0]) & np.isfinite(x[1])
    check(np.isnan(a[~m]).all(), 'U_dir of a missing vector')
    check(((a[m] >= 0) & (a[m] <= 360.0001)).all(), 'U_dir out of [0, 360]: {}', a[m])
    r = np.deg2rad(a)
    if frame == 'earth':               # clockwise from North
        back = np.hypot(x[0], x[1]) * (np.sin(r) + 1j * np.cos(r))
    else:                              # clockwise from the first axis
        back = np.hypot(x[0], x[1]) * (np.cos(r) - 1j * np.sin(r))
    close(back[m], (x[0] + 1j * x[1])[m], 1e-4, 1e-5, 'U_dir and U_mag do not give the velocity back')
    check(str(ang.attrs['units']) == 'degrees_CW_from_' + str(ds['dir'].values[1 if frame == 'earth' else 0]), 'U_dir units {}', ang.attrs['units'])
    for q in (U, mag, ang):
        check(q.dims == ds.vel.dims[1:], 'dims {}', q.dims)
        if 'time' in q.dims:
            check((q.time.values == ds.time.values).all(), 'time')
    gen.assert_unchanged(snap, ds, 'a velds shortcut')
    if part in ('all', 'one range'):
        with quiet():
            txt = repr(V)
        check('%s-frame' % frame in txt and ds.inst_model in txt and '%d pings' % c['nt'] in txt, 'summary: {}', txt)
    check(V.variables == sorted(ds.variables) and V.attrs == ds.attrs and set(V.coords) == set(ds.coords), 'variables/attrs/coords')
    check('vel' in V and 'nope' not in V and V['vel'].identical(ds['vel']), 'item access')


@PROP.sub(st.tuples(seeds, st.integers(1, 8), st.integers(0, 4), st.booleans(), st.sampled_from([0, 0, 0.2])), quick=200)
def turbulence(case, ctx):
    seed, nt, nr, extra, nan = case
    rng = rng_of(seed)
    shp = (nr, nt) if nr else (nt,)
    dims = ('range', 'time') if nr else ('time',)
    co = {'time': np.datetime64('2020-01-01', 'ns') + np.arange(nt) * np.timedelta64(300, 's'), 'dir': list('ENU')}
    if nr:
        co['range'] = np.arange(nr) + 1.
    names = dict(stress_vec=('tau', ['upvp_', 'upwp_', 'vpwp_']), tke_vec=('tke', ['upup_', 'vpvp_', 'wpwp_']))
    ds = xr.Dataset(coords=co, attrs=dict(coord_sys='earth', inst_make='Nortek', inst_model='Vector'))
    vel = rng.normal(0, 1, (3,) + shp)
    vel[:, rng.random(shp) < nan] = np.nan
    ds['vel'] = xr.DataArray(vel, dims=('dir',) + dims)
    perm = {}
    for k, (d, lab) in names.items():
        p = rng.permutation(3) if extra else np.arange(3)      # found by label, not position
        x = rng.normal(0, 1, (3,) + shp) if d == 'tau' else rng.uniform(0, 1, (3,) + shp)
        perm[k] = dict(zip(lab, x))
        ds[k] = xr.DataArray(x[p], dims=(d,) + dims, coords={d: [lab[i] for i in p]}, attrs={'units': 'm2 s-2'})
    std = rng.uniform(0, 1, shp)
    ds['U_std'] = xr.DataArray(std, dims=dims)
    snap = gen.snapshot(ds)
    V = ds.velds
    ctx.nontrivial(nt > 1)
    with quiet():
        for k in names:
            for nm, x in perm[k].items():
                g = getattr(V, nm)
                close(g.values, x, 0, 0, nm)
                check(names[k][0] not in g.coords, nm)
        t = sum(perm['tke_vec'].values()) / 2
        mag = np.hypot(vel[0], vel[1])
        close(V.tke.values, t, 1e-6, 1e-9, 'tke')
        close(V.E_coh.values, np.sqrt(sum(x ** 2 for x in perm['stress_vec'].values())), 1e-6, 1e-9, 'coherent turbulence energy')
        close(V.I.values, std / mag, 1e-5, 1e-7, 'turbulence intensity')
        close(V.I_tke.values, np.sqrt(2 * t) / mag, 1e-5, 1e-7, 'TKE intensity')
        for nm in ('tke', 'E_coh', 'I', 'I_tke'):
            g = getattr(V, nm)
            check(g.dims == dims and (g.time.values == ds.time.values).all(), nm + ' coordinates')
    gen.assert_unchanged(snap, ds, 'a velds shortcut')


@PROP.sub(st.tuples(gen.ds_case(), st.sampled_from(['beam', 'inst', 'earth', 'principal']), st.floats(-90, 90), st.booleans()), quick=150)
def delegates(case, ctx):
    """ds.velds.f(...) is dolfyn.f(ds, ...)."""
    c, frame, dec, inplace = case
    ds = gen.build(dict(c, head='none') if 'head' in c else c)
    ctx.nontrivial(c['nt'] > 1)
    ctx.label(c['kind'])
    vec = c['kind'].startswith('vector')

    def both(name, fn, *a):
        d1, d2 = ds.copy(deep=True), ds.copy(deep=True)
        with quiet():
            r1 = getattr(d1.velds, name)(*a, inplace=inplace)
            r2 = fn(d2, *a, inplace=inplace)
        check((r1 is None) == (r2 is None), name)
        check((d1 if inplace else r1).identical(d2 if inplace else r2), 'velds.%s differs from %s' % (name, name))
    both('rotate2', dolfyn.rotate2, frame)
    both('set_declination', dolfyn.set_declination, round(dec, 2))
    if vec:
        both('set_inst2head_rotmat', dolfyn.set_inst2head_rotmat, np.array([[0, 0, -1.], [0, -1, 0], [-1, 0, 0]]))
    with scratch() as d, quiet():
        ds.velds.save(os.path.join(d, 'a.nc'))
        dolfyn.save(ds, os.path.join(d, 'b.nc'))
        check(dolfyn.load(os.path.join(d, 'a.nc')).identical(dolfyn.load(os.path.join(d, 'b.nc'))), 'velds.save differs from save')


SHOWN = ('time', 'vel', 'range', 'orientmat', 'heading', 'pitch', 'roll', 'temp', 'press', 'amp', 'corr', 'accel', 'angrt', 'mag', 'echo')


@PROP.sub(st.tuples(gen.ds_case(), st.floats(.1, 60) | st.floats(60, 3600) | st.floats(3600, 86400) | st.floats(86400, 3e7), st.floats(0, 4.1e9)), quick=200)
def summary(case, ctx):
    """print(ds.velds) tells the instrument, the time covered, the frame, the number of pings and the variables."""
    c, span, start = case
    ds = gen.build(c)
    n = ds.time.size
    t = (start + 86400 + (np.arange(n) * span / max(n - 1, 1)))
    t = np.datetime64(0, 'ns') + np.round(t * 1e3).astype('i8').astype('m8[ms]')
    ds = ds.assign_coords(time=('time', t))
    ctx.nontrivial(n > 1)
    snap = gen.snapshot(ds)
    out = repr(ds.velds)
    gen.assert_unchanged(snap, ds, 'repr')
    lines = out.splitlines()
    check(ds.attrs['inst_type'] in lines[0] and ds.attrs['inst_make'] in lines[0] and ds.attrs['inst_model'] in lines[0], 'instrument: {}', lines[0])
    secs = float((t[-1] - t[0]) / np.timedelta64(1, 'ms')) / 1e3
    d0 = str(t[0].astype('M8[m]'))
    words = lines[1].split()
    num, unit = float(words[1]), words[2]
    size = dict(days=86400., hours=3600., minutes=60., seconds=1.)
    check(unit in size, 'duration: {}', lines[1])
    ctx.label(unit)
    close(num * size[unit], secs, 0, .00501 * size[unit] + 1e-6 * secs, 'duration "%s"' % lines[1])
    if secs:
        big = [u for u in size if secs > size[u] * (1 + 1e-6)]
        check(num > .99 or unit == 'seconds', 'duration {} s is given as {}', secs, lines[1])
        check(not big or size[unit] >= size[big[0]], 'duration {} s is given as {}', secs, lines[1])
    mon = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[int(d0[5:7]) - 1]
    check('(started: %s %s, %s %s)' % (mon, d0[8:10], d0[:4], d0[11:]) in lines[1], 'start {}: {}', d0, lines[1])
    check(lines[2].split() == ['.', ds.coord_sys + '-frame'], 'frame: {}', lines[2])
    check(lines[3].strip(' .') == '(%d pings @ %sHz)' % (n, ds.attrs['fs']), 'pings: {}', lines[3])
    shown = [ln.split()[1] for ln in lines if ln.startswith('  - ')]
    check(len(set(shown)) == len(shown), 'a variable is shown twice: {}', shown)
    for ln in lines:
        if ln.startswith('  - '):
            nm, dims = ln[4:].split(' ', 1)
            check(nm in ds.variables and dims == str(ds[nm].dims) and nm.startswith(SHOWN), '{}', ln)
    check('time' in shown and 'vel' in shown, 'shown: {}', shown)
    for k in ('orientmat', 'heading', 'pitch', 'roll'):
        check((k in shown) == (k in ds), '{}: {}', k, shown)
    # one ping cut out of it, and a dataset without times
    one = ds.isel(time=int(n // 2))
    txt = repr(one.velds).splitlines()
    check(txt[0] == lines[0] and txt[2] == lines[2] and txt[3].strip(' .') == '(1 pings @ %sHz)' % ds.attrs['fs'], 'one ping: {}', txt)
    txt = repr(ds.drop_vars([k for k in ds.variables if 'time' in ds[k].dims]).velds).splitlines()
    check(txt[0] == lines[0] and 'No Time' in txt[1], 'no time: {}', txt)
    check(any('others' in ln for ln in lines) or set(shown) >= set(ds.variables), 'not all variables are shown, but no others are mentioned')


READ = ['u', 'v', 'w', 'U', 'U_mag', 'U_dir', 'repr', 'variables', 'attrs', 'coords', 'U_mag']
DO = ['edit', 'edit', 'gap', 'edit one', 'frame', 'decl', 'replace', 'attr', 'nothing', 'new variable']


@PROP.sub(st.tuples(gen.ds_case(min_t=2), st.lists(st.tuples(st.integers(0, 10), st.integers(0, 9), st.integers(0, 99)), min_size=2, max_size=8)),
          quick=200, thorough=4000)
def history(case, ctx):
    """A shortcut gives what the dataset holds now, whatever was asked before."""
    c, steps = case
    ds = gen.build(dict(c, head='none') if 'head' in c else c)
    ctx.nontrivial()
    ctx.label(c['kind'])
    V = ds.velds
    for i, k, salt in steps:
        nm, what = READ[i], DO[k]
        with quiet(), np.errstate(all='ignore'):
            if what == 'edit':
                ds['vel'].values[:] *= -1.5
            elif what == 'edit one':
                ds['vel'].values[salt % 3, ..., salt % c['nt']] = salt
            elif what == 'gap':
                ds['vel'].values[..., salt % c['nt']] = np.nan
            elif what == 'frame':
                dolfyn.rotate2(ds, ['inst', 'earth', 'beam'][salt % 3])
            elif what == 'decl':
                dolfyn.set_declination(ds, float(salt))
            elif what == 'replace':
                ds['vel'] = ds['vel'] * 2 + salt
            elif what == 'attr':
                ds.attrs['fs'] = salt + 1
            elif what == 'new variable':
                ds['new%d' % salt] = ds['vel'][0]
            ref = ds.copy(deep=True).velds
            if nm == 'repr':
                got, want = repr(V), repr(ref)
                check(got == want, 'summary after %s: {}, expected {}' % what, got, want)
                continue
            got, want = getattr(V, nm), getattr(ref, nm)
        if nm in ('variables', 'attrs'):
            check(got == want, '%s after %s' % (nm, what))
        elif nm == 'coords':
            check(set(got) == set(want), 'coords after %s' % what)
        else:
            check(got.identical(want), '%s after %s: {}, expected {}' % (nm, what), got.values.ravel()[:4], want.values.ravel()[:4])


@PROP.sub(st.tuples(seeds, st.integers(2, 6), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 4)), min_size=2, max_size=8)), quick=100, thorough=2000)
def turbulence_history(case, ctx):
    seed, nt, steps = case
    rng = rng_of(seed)
    tm = np.datetime64('2020-01-01', 'ns') + np.arange(nt) * np.timedelta64(300, 's')
    lab = dict(stress_vec=('tau', ['upvp_', 'upwp_', 'vpwp_']), tke_vec=('tke', ['upup_', 'vpvp_', 'wpwp_']))
    ds = xr.Dataset(coords={'time': tm, 'dir': list('ENU')}, attrs=dict(coord_sys='earth', inst_make='Nortek', inst_model='Vector'))
    ds['vel'] = (('dir', 'time'), rng.normal(size=(3, nt)))
    for k, (d, l) in lab.items():
        ds[k] = xr.DataArray(rng.uniform(.1, 1, (3, nt)), dims=(d, 'time'), coords={d: l}, attrs={'units': 'm2 s-2'})
    ds['U_std'] = (('time',), rng.uniform(0, 1, nt))
    names = ['upvp_', 'upwp_', 'vpwp_', 'upup_', 'vpvp_', 'wpwp_', 'tke', 'I', 'I_tke', 'E_coh']
    ctx.nontrivial()
    V = ds.velds
    for i, k in steps:
        var = ['vel', 'stress_vec', 'tke_vec', 'U_std', 'tke_vec'][k]
        if k == 4:
            ds[var] = ds[var].copy(data=ds[var].values * 3)
        else:
            ds[var].values[..., :1 + i % nt] *= 1.25
        with quiet(), np.errstate(all='ignore'):
            got, want = getattr(V, names[i]), getattr(ds.copy(deep=True).velds, names[i])
        check(got.identical(want), '%s after a change of %s: {}, expected {}' % (names[i], var), got.values, want.values)
