"""Synthetic datasets in the layout DOLfYN's readers produce.

Everything is built from public xarray only, so no private DOLfYN helper is
needed to set a case up.  A case is a small dict of plain values (drawn by
Hypothesis, so it shrinks); bulk samples are expanded from an integer seed.
"""
from . import core  # noqa: F401
import numpy as np
import xarray as xr
from hypothesis import strategies as st

XYZ = ['X', 'Y', 'Z']
ENU = ['E', 'N', 'U']
PRINC = ['streamwise', 'x-stream', 'vert']

LABELS = {
    'rdi': dict(inst=['X', 'Y', 'Z', 'err'], earth=['E', 'N', 'U', 'err'],
                principal=PRINC + ['err']),
    'sig': dict(inst=['X', 'Y', 'Z1', 'Z2'], earth=['E', 'N', 'U1', 'U2'],
                principal=['streamwise', 'x-stream', 'vert1', 'vert2']),
    'nortek': dict(inst=XYZ, earth=ENU, principal=PRINC),
}


def labels_for(ds):
    mk = (ds.attrs['inst_make'] + ' ' + ds.attrs['inst_model']).lower()
    if 'rdi' in mk:
        return LABELS['rdi']
    if 'signature' in mk or 'ad2cp' in mk:
        return LABELS['sig']
    return LABELS['nortek']


def rng_of(*seed):
    return np.random.default_rng([int(abs(s)) for s in seed])


seeds = st.integers(0, 2 ** 31 - 1)


def spread(seed, n):
    """A number below n, every one as likely (a choice of Hypothesis from a long list leaves many out)."""
    return int(rng_of(seed, 77).integers(0, n))


# --------------------------------------------------------- reference rotations
def Rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def Ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def Rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def nortek_omat(h, p, r):
    """earth->inst direction-cosine matrix of a Nortek instrument from its
    own heading/pitch/roll (deg).  Instrument->earth, per Nortek's Transform.m:
    first roll about x, then pitch about y, then heading about z."""
    h, p, r = np.deg2rad([90.0 - h, p, r])
    R_ie = Rz(h) @ Ry(-p) @ Rx(r)
    return R_ie.T


def rdi_omat(h, p, r, up):
    """earth->inst matrix from the TRDI coordinate-transformation manual."""
    h, p, r = np.deg2rad([h, p, r])
    p = np.arctan(np.tan(p) * np.cos(r))      # eq. 18 (gimballed pitch)
    if up:
        r = r + np.pi
    # heading clockwise about z, pitch about x (starboard), roll about y (fwd)
    R_ie = Rz(-h) @ Rx(p) @ Ry(r)
    return R_ie.T


def smooth_angles(rng, n, lo, hi, rough):
    a = rng.uniform(lo, hi)
    if rough:
        return rng.uniform(lo, hi, n)
    return np.clip(a + np.cumsum(rng.normal(0, 1.0, n)), lo, hi)


KINDS = ['vector', 'vector_imu', 'awac', 'sig', 'sig_ahrs', 'rdi']

AWAC_B2I = np.array([[1.5774, -0.7891, -0.7891],
                     [0.0, -1.3662, 1.3662],
                     [0.3677, 0.3677, 0.3677]])
VECTOR_B2I = np.array([[2.709, -1.3542, -1.3547],
                       [0.0, 2.3445, -2.3451],
                       [0.3443, 0.3447, 0.3462]])


def sig_b2i(theta=25.):
    t = np.deg2rad(theta)
    a, b = 1 / (2 * np.sin(t)), 1 / (2 * np.cos(t))
    return np.array([[a, 0, -a, 0], [0, -a, 0, a], [b, 0, b, 0], [0, b, 0, b]])


def rdi_b2i(theta=20., convex=True):
    t = np.deg2rad(theta)
    c = 1 if convex else -1
    a, b = 1 / (2 * np.sin(t)), 1 / (4 * np.cos(t))
    d = a / np.sqrt(2)
    return np.array([[c * a, -c * a, 0, 0], [0, 0, -c * a, c * a],
                     [b, b, b, b], [d, d, -d, -d]])


@st.composite
def now_and_then(draw, usual, rare, every=12):
    """mostly `usual`, now and then one of `rare` (realistic sizes)"""
    if draw(st.integers(1, every)) == every:
        return draw(st.sampled_from(rare))
    return draw(usual)


def over(strategy, **kw):
    """the cases of a strategy with some of their items drawn otherwise"""
    return st.builds(lambda c, k: {**c, **k}, strategy, st.fixed_dictionaries(kw))


@st.composite
def ds_case(draw, kinds=KINDS, frames=('inst',), min_t=1, max_t=9, max_r=4,
            decl=True):
    kind = draw(st.sampled_from(list(kinds)))
    c = dict(kind=kind, seed=draw(seeds),
             nt=draw(now_and_then(st.integers(min_t, max_t), [40, 130, 300, 1100])),
             nr=draw(now_and_then(st.integers(1, max_r), [9, 27])),
             frame=draw(st.sampled_from(list(frames))),
             rough=draw(st.booleans()),
             nan=draw(st.sampled_from([0, 0, 0.2])),
             tilt=draw(st.sampled_from([0, 3, 15, 35])),
             scale=draw(st.sampled_from([0.1, 1.0, 3.0])),
             phead=draw(st.floats(-180, 360).map(lambda x: round(x, 2))),
             extra=draw(st.booleans()))
    if kind in ('vector', 'vector_imu'):
        c['down'] = draw(st.sampled_from(['all', 'none', 'mixed']))
        c['head'] = draw(st.sampled_from(['none', 'none', 'eye', 'perm', 'rot']))
    elif kind in ('sig', 'rdi'):
        c['down'] = draw(st.booleans())
    if kind == 'rdi':
        c['theta'] = draw(st.sampled_from([15, 20, 30]))
        c['convex'] = draw(st.booleans())
        c['bt'] = draw(st.booleans())
    if kind in ('sig', 'sig_ahrs'):
        c['bt'] = draw(st.booleans())
        c['b5'] = draw(st.booleans())
    if decl:
        c['decl'] = draw(st.none() | st.floats(-90, 90).map(lambda x: round(x, 2)))
    return c


def head_matrix(c):
    h = c.get('head', 'none')
    if h == 'none':
        return None
    if h == 'eye':
        return np.eye(3)
    if h == 'perm':
        return np.array([[0, 0, -1.], [0, -1, 0], [-1, 0, 0]])
    r = rng_of(c['seed'], 77)
    return Rz(r.uniform(-3, 3)) @ Ry(r.uniform(-1.5, 1.5)) @ Rx(r.uniform(-3, 3))


def _times(n, fs, t0='2019-03-04T05:06:07'):
    return (np.datetime64(t0).astype('datetime64[ns]') +
            (np.arange(n) * (1e9 / fs)).astype('timedelta64[ns]'))


def build(c, fs=None):
    """Dataset in the 'inst' frame unless c['frame'] says otherwise (then only
    the labels/coord_sys are those of that frame: the samples are arbitrary)."""
    kind, nt, nr = c['kind'], c['nt'], c['nr']
    rng, var = rng_of(c['seed']), rng_of(c['seed'], 77)
    fs = fs or int(var.choice([8, 1, 2, 4, 16, 32]))
    fl = float(c['scale'])
    tl = c['tilt']
    time = _times(nt, fs)
    h = smooth_angles(rng, nt, 0, 359.9, c['rough'])
    p = smooth_angles(rng, nt, -tl, tl, c['rough'])
    r = smooth_angles(rng, nt, -tl, tl, c['rough'])
    v = {}
    co = {'time': time}
    at = dict(fs=fs, coord_sys=c['frame'], has_imu=0, rotate_vars=['vel'],
              principal_heading=c['phead'], duty_cycle_n_burst=1000)

    def sig(*shp):
        x = rng.normal(0, fl, shp)
        if c['nan']:
            x[rng.random(shp) < c['nan']] = np.nan
        return x

    if kind in ('vector', 'vector_imu'):
        at.update(inst_make='Nortek', inst_model='Vector', inst_type='ADV',
                  n_beams=3, inst2head_rotmat_was_set=0)
        v['vel'] = (('dir', 'time'), sig(3, nt))
        nd = 3
        b2i = VECTOR_B2I + rng.normal(0, 0.01, (3, 3))
        down = {'all': np.ones(nt, bool), 'none': np.zeros(nt, bool),
                'mixed': rng.random(nt) < 0.5}[c['down']]
        v['orientation_down'] = (('time',), down)
        rr = r + 180 * down
        om = np.stack([nortek_omat(*x) for x in zip(h, p, rr)], -1)
        v['heading'], v['pitch'], v['roll'] = [(('time',), x.astype('f4'))
                                               for x in (h, p, r)]
        v['orientmat'] = (('earth', 'inst', 'time'), om)
        if kind == 'vector_imu':
            at.update(has_imu=1, rotate_vars=['vel', 'accel', 'angrt', 'mag'])
            for nm in ('accel', 'angrt', 'mag'):
                v[nm] = (('dir', 'time'), rng.normal(0, 1, (3, nt)))
            for nm in ('heading', 'pitch', 'roll', 'orientation_down'):
                v.pop(nm)
    elif kind == 'awac':
        at.update(inst_make='Nortek', inst_model='AWAC', inst_type='ADCP',
                  n_beams=3)
        nd = 3
        b2i = AWAC_B2I.copy()
        v['vel'] = (('dir', 'range', 'time'), sig(3, nr, nt))
        v['amp'] = (('beam', 'range', 'time'), rng.integers(0, 255, (3, nr, nt)).astype('u1'))
        om = np.stack([nortek_omat(*x) for x in zip(h, p, r)], -1)
        v['heading'], v['pitch'], v['roll'] = [(('time',), x.astype('f4'))
                                               for x in (h, p, r)]
        v['orientmat'] = (('earth', 'inst', 'time'), om)
    elif kind in ('sig', 'sig_ahrs'):
        at.update(inst_make='Nortek', inst_model='Signature1000',
                  inst_type='ADCP', n_beams=4, beam_angle=25,
                  orientation='AHRS' if kind == 'sig_ahrs' else
                  ('down' if c['down'] else 'up'))
        nd = 4
        b2i = sig_b2i()
        v['vel'] = (('dir', 'range', 'time'), sig(4, nr, nt))
        om = np.stack([nortek_omat(*x) for x in zip(h, p, r)], -1)
        v['heading'], v['pitch'], v['roll'] = [(('time',), x.astype('f4'))
                                               for x in (h, p, r)]
        v['orientmat'] = (('earth', 'inst', 'time'), om)
        if c.get('b5'):
            v['vel_b5'] = (('range_b5', 'time_b5'), rng.normal(0, fl, (nr, nt)))
            co['range_b5'] = 0.6 + 0.5 * np.arange(nr)
            co['time_b5'] = time
        at['rotate_vars'] = ['vel']
        if c.get('bt'):
            v['vel_bt'] = (('dir', 'time'), sig(4, nt))
            at['rotate_vars'].append('vel_bt')
        if c['extra']:
            at['has_imu'] = 1
            for nm in ('accel', 'angrt', 'mag'):
                v[nm] = (('dirIMU', 'time'), rng.normal(0, 1, (3, nt)))
                at['rotate_vars'].append(nm)
    elif kind == 'rdi':
        at.update(inst_make='TRDI', inst_model='Workhorse', inst_type='ADCP',
                  n_beams=4, beam_angle=c['theta'], orientation='down' if c['down'] else 'up',
                  beam_pattern='convex' if c['convex'] else 'concave',
                  use_pitchroll='yes')
        nd = 4
        b2i = rdi_b2i(c['theta'], c['convex'])
        v['vel'] = (('dir', 'range', 'time'), sig(4, nr, nt))
        if c.get('bt'):
            v['vel_bt'] = (('dir', 'time'), sig(4, nt))
            at['rotate_vars'] = ['vel', 'vel_bt']
        om = np.stack([rdi_omat(a, b, g, not c['down']) for a, b, g in zip(h, p, r)], -1)
        v['heading'], v['pitch'], v['roll'] = [(('time',), x.astype('f4'))
                                               for x in (h, p, r)]
        v['orientmat'] = (('earth', 'inst', 'time'), om)
    else:
        raise core.HarnessError(kind)

    # the (earth, inst) axes: DOLfYN stores omat[i_inst, j_earth] on dims
    # ('earth', 'inst'); the numbers, not the dim names, carry the meaning.
    v['beam2inst_orientmat'] = (('x1', 'x2'), b2i)
    hm = head_matrix(c)
    if hm is not None:
        v['inst2head_rotmat'] = (('x1', 'x2'), hm)
        at['inst2head_rotmat_was_set'] = 1
    if 'range' in [d for x in v.values() for d in x[0]]:
        co['range'] = 0.7 + 0.5 * np.arange(nr)
    co['earth'], co['inst'] = ENU, XYZ
    if var.random() < 0.35:         # single precision, as read from a file
        for nm in v:
            if nm.startswith('vel') or nm in ('accel', 'angrt', 'mag', 'orientmat'):
                v[nm] = (v[nm][0], v[nm][1].astype('f4'))
    bm = np.arange(1, nd + 1, dtype='i4')
    co.update(beam=bm, x1=bm, x2=bm)
    ds = xr.Dataset({k: xr.DataArray(d, dims=dm) for k, (dm, d) in v.items()},
                    coords={k: (k, np.asarray(x)) for k, x in co.items()},
                    attrs=at)
    lab = labels_for(ds)
    fr = 'inst' if c['frame'] == 'ship' else c['frame']
    ds = ds.assign_coords(dir=('dir', bm if fr == 'beam' else lab[fr]))
    if any('dirIMU' in x[0] for x in v.values()):
        ds = ds.assign_coords(dirIMU=('dirIMU', {'earth': ENU, 'principal': PRINC}.get(fr, XYZ)))
    for nm in ds.variables:
        ds[nm].attrs.setdefault('long_name', nm)
    for nm in ds.data_vars:
        ds[nm].attrs['units'] = 'm s-1' if nm.startswith('vel') else '1'
    ds['dir'].attrs['ref_frame'] = c['frame']
    ds.attrs['n_beams'] = nd
    return ds


def ref_to_earth(ds, name, om):
    """inst-frame samples -> earth frame, by the instrument maker's algebra."""
    x = np.asarray(ds[name].values, 'f8')
    mk = (ds.attrs['inst_make'] + ds.attrs['inst_model']).lower()
    R = np.swapaxes(np.asarray(om, 'f8'), 0, 1)      # inst -> earth, per ping
    n = x.shape[0]
    out = x.copy()
    down = 'signature' in mk and ds.attrs['orientation'] == 'down'
    if down:
        x = x.copy()
        x[1:] *= -1
    if n == 4 and 'signature' in mk:
        zm = (x[2] + x[3]) / 2
        out[0] = R[0, 0] * x[0] + R[0, 1] * x[1] + R[0, 2] * zm
        out[1] = R[1, 0] * x[0] + R[1, 1] * x[1] + R[1, 2] * zm
        for k in (2, 3):
            out[k] = R[2, 0] * x[0] + R[2, 1] * x[1] + R[2, 2] * x[k]
    else:
        for i in range(3):
            out[i] = R[i, 0] * x[0] + R[i, 1] * x[1] + R[i, 2] * x[2]
    return out


def ref_to_principal(x, heading):
    """earth -> principal: streamwise points along `heading` (deg CW from N)."""
    a = np.deg2rad(heading)
    out = np.array(x, 'f8')
    out[0] = np.sin(a) * x[0] + np.cos(a) * x[1]
    out[1] = -np.cos(a) * x[0] + np.sin(a) * x[1]
    return out


def finite_cols(*arrs):
    """Mask (broadcast over axis 0) of samples whose components are all finite."""
    m = np.ones(arrs[0].shape[1:], bool)
    for a in arrs:
        m &= np.isfinite(a).all(0)
    return m


def snapshot(ds):
    """Deep, bit-exact picture of a dataset for purity checks."""
    out = {}
    for k in ds.variables:
        a = ds[k]
        out[k] = (a.dims, str(a.dtype), a.shape,
                  a.values.tobytes() if a.dtype.kind not in 'OU' else repr(a.values.tolist()),
                  repr(sorted(a.attrs.items(), key=str)))
    out['//attrs'] = repr(sorted(ds.attrs.items(), key=str))
    return out


def assert_unchanged(before, ds, what):
    after = snapshot(ds)
    if before != after:
        bad = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
        raise core.Violation('%s modified its input: %s' % (what, sorted(bad)))
