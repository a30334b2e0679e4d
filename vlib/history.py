"""One binner, many calls: every call must give what a new binner gives, the
binner keeps its settings, and data changed between calls count as they are."""
import copy
import warnings
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from dolfyn import VelBinner
from dolfyn.adv.api import ADVBinner
from dolfyn.adp.api import ADPBinner
from vlib import gen
from vlib.core import check, Violation
from vlib.gen import rng_of, seeds

CLS = dict(vel=VelBinner, adv=ADVBinner, adp=ADPBinner)


def pick(r, *opts):
    return opts[int(r.integers(len(opts)))]


def opt(r, name, *vals):
    """keyword argument, given or not"""
    k = int(r.integers(len(vals) + 1))
    return {} if k == len(vals) else {name: vals[k]}


def nb(r, D):
    return opt(r, 'n_bin', D.n - 4, D.n + 3, D.n)


def fs(r, D):
    return opt(r, 'fs', D.fs, 2 * D.fs, 3)


def units(r):
    return opt(r, 'freq_units', 'Hz', 'rad/s')


def win(r):
    return opt(r, 'window', 'hann', None, 'hamm')


OPS = dict(
    P11=[
        lambda b, D, r: b.reshape(D.x, **opt(r, 'n_pad', 4, 0), **nb(r, D)),
        lambda b, D, r: b.detrend(D.x, **nb(r, D)),
        lambda b, D, r: b.demean(D.x, **nb(r, D)),
        lambda b, D, r: b.mean(D.x, **nb(r, D)),
        lambda b, D, r: b.var(D.x, **nb(r, D)),
        lambda b, D, r: b.std(D.x, **nb(r, D)),
        lambda b, D, r: b.do_avg(D.ds),
        lambda b, D, r: b.do_var(D.ds),
        lambda b, D, r: b.do_var(D.ds, out_ds=b.do_avg(D.ds)),
        lambda b, D, r: b.do_avg(D.ds, names=['vel']),
    ],
    P12=[
        lambda b, D, r: b.calc_psd(pick(r, D.vel, D.vel[0]), **units(r), **fs(r, D), **win(r), **nb(r, D),
                                   **opt(r, 'n_fft', D.n - 5, 8), **opt(r, 'step', 3)),
        lambda b, D, r: b.calc_psd(D.vel, noise=np.array([.1, .2, .05]), **units(r)),
        lambda b, D, r: b.calc_psd(D.vel, **units(r)),
        lambda b, D, r: b.calc_freq(**fs(r, D), **opt(r, 'units', 'Hz', 'rad/s'), **opt(r, 'n_fft', 8), **opt(r, 'coh', True)),
        lambda b, D, r: b.calc_psd_base(D.x, **fs(r, D), **win(r), **nb(r, D), **opt(r, 'n_fft', 8)),
    ],
    P13=[
        lambda b, D, r: b.calc_coh(D.vel[0], D.vel[1], **win(r), **opt(r, 'debias', False), **opt(r, 'noise', (.1, .02), (0, .3)),
                                   **opt(r, 'n_fft_coh', 6, 8), **nb(r, D)),
        lambda b, D, r: b.calc_phase_angle(D.vel[0], D.vel[1], **win(r), **opt(r, 'n_fft_coh', 6, 8), **nb(r, D)),
        lambda b, D, r: b.calc_csd(D.vel, **units(r), **fs(r, D), **win(r), **opt(r, 'n_fft_coh', 6, 8), **nb(r, D)),
        lambda b, D, r: b.calc_csd_base(D.x[0], D.x[1], **fs(r, D), **win(r), **opt(r, 'n_fft', 6), **nb(r, D)),
    ],
    P14=[
        lambda b, D, r: b.calc_acov(pick(r, D.vel, D.vel[1]), **nb(r, D)),
        lambda b, D, r: b.calc_xcov(D.vel[0], D.vel[1], **opt(r, 'npt', 3, 5), **opt(r, 'normed', True), **nb(r, D)),
    ],
    P15=[
        lambda b, D, r: b.calc_tke(pick(r, D.vel, D.vel[2]), **opt(r, 'detrend', True, False)),
        lambda b, D, r: b.calc_tke(D.vel, noise=np.array([.1, .2, .05])),
        lambda b, D, r: b.calc_stress(D.vel, **opt(r, 'detrend', True, False)),
        lambda b, D, r: b.calc_ti(D.ds.velds.U_mag, **opt(r, 'noise', .1, .05), **opt(r, 'thresh', .5, 1.), **opt(r, 'detrend', True)),
        lambda b, D, r: b(D.ds, **units(r), **opt(r, 'window', 'hann', 'hamm')),
    ],
    P16=[
        lambda b, D, r: b.calc_epsilon_LT83(D.avg.psd, D.avg.velds.U_mag, **band(r, D), **opt(r, 'noise', .01)),
        lambda b, D, r: b.calc_epsilon_SF(D.vel[0], D.avg.velds.U_mag, **fs(r, D), **opt(r, 'freq_range', [.5, D.fs / 3.])),
        lambda b, D, r: b.calc_epsilon_TE01(D.ds, D.avg, **band(r, D)),
        lambda b, D, r: b.calc_L_int(D.acov, D.avg.velds.U_mag, **fs(r, D)),
        lambda b, D, r: b.calc_doppler_noise(D.avg.psd, **opt(r, 'pct_fN', .6, .7)),
        lambda b, D, r: b.check_turbulence_cascade_slope(D.avg.psd[0], **band(r, D)),
        lambda b, D, r: b.calc_psd(D.vel, **units(r)),
    ],
    P19=[
        lambda b, D, r: b.calc_dudz(D.pvel, **opt(r, 'orientation', 'up', 'down')),
        lambda b, D, r: b.calc_dvdz(D.pvel),
        lambda b, D, r: b.calc_dwdz(D.pvel),
        lambda b, D, r: b.calc_shear2(D.pvel),
        lambda b, D, r: b.calc_stress_4beam(D.pbeam.copy(deep=True), **opt(r, 'orientation', 'up', 'down'), **opt(r, 'beam_angle', 20, 30), **opt(r, 'noise', .05)),
        lambda b, D, r: b.calc_stress_5beam(D.pbeam.copy(deep=True), **opt(r, 'orientation', 'up', 'down'), **opt(r, 'beam_angle', 20, 30), **opt(r, 'noise', .05),
                                            **opt(r, 'tke_only', True)),
        lambda b, D, r: b.calc_tke(D.pbeam.vel_b5, **opt(r, 'noise', .05)),
        lambda b, D, r: b.calc_dissipation_SF(D.pbeam.vel_b5, **opt(r, 'r_range', [1, 2])),
        lambda b, D, r: b.calc_dissipation_LT83(D.bpsd, D.bspeed, **band(r, D), **opt(r, 'noise', .01)),
        lambda b, D, r: b.calc_doppler_noise(D.bpsd, **opt(r, 'pct_fN', .6, .7)),
        lambda b, D, r: b.check_turbulence_cascade_slope(D.bpsd, **band(r, D)),
        lambda b, D, r: b.calc_psd(D.pbeam.vel_b5[0], **units(r)),
    ],
)


def band(r, D):
    f = D.fs / 2.
    return opt(r, 'freq_range', [.1 * f, .8 * f], [.2 * f, 2.])


@st.composite
def case_(draw, kind):
    return dict(kind=kind, seed=draw(seeds), n=draw(st.integers(12, 24)), bins=draw(st.integers(2, 3)), fs=draw(st.sampled_from([4, 8])),
                cfg=draw(st.integers(0, 3)),
                steps=draw(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 999)), min_size=2, max_size=7)))


class Data:
    def __init__(self, c, first):
        self.n, self.fs = c['n'], c['fs']
        L = c['n'] * c['bins'] + 5
        g = dict(kind='vector', seed=c['seed'], nt=L, nr=1, frame='earth', rough=True, nan=0, tilt=5, scale=1.0, phead=30., extra=False,
                 down='all', head='none')
        if c['kind'] == 'adp':
            g = dict(g, kind='sig', down=False, nr=13, b5=True, bt=False)
            self.pbeam = gen.build(dict(g, frame='beam'), fs=c['fs'])
            self.pbeam['pitch'].values[:] = self.pbeam['roll'].values[:] = 1
            p = gen.build(g, fs=c['fs'])
            self.pvel = first.do_avg(p).vel
            b5 = self.pbeam.vel_b5
            self.bpsd = first.calc_psd(b5[0], freq_units='Hz')
            self.bspeed = xr.DataArray(np.linspace(.5, 1., self.bpsd.shape[0]), dims=['time'], coords={'time': self.bpsd[self.bpsd.dims[0]].values})
            self.arrays = [self.pbeam.vel, self.pbeam.vel_b5, self.pvel]
        else:
            self.ds = gen.build(g, fs=c['fs'])
            self.ds.vel.values[0] += 1.5
            self.x = self.ds.vel.values
            self.arrays = [self.ds.vel]
            if c['kind'] == 'adv':
                self.avg = first(self.ds, freq_units='Hz')
                self.acov = first.calc_acov(self.ds.vel)

    @property
    def vel(self):
        return self.ds.vel


def equal(a, b, what):
    if isinstance(a, (tuple, list)):
        check(isinstance(b, (tuple, list)) and len(a) == len(b), '{}: {} results, expected {}', what, len(a), len(b))
        for x, y in zip(a, b):
            equal(x, y, what)
    elif isinstance(a, (xr.DataArray, xr.Dataset)):
        check(type(a) is type(b) and a.identical(b), '{}: not what a new binner gives', what)
    else:
        check(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True), '{}: not what a new binner gives', what)


def run(pid, c, ctx):
    ops = OPS[pid]
    cls = CLS[c['kind']]
    kw = dict(n_bin=c['n'], fs=c['fs'])
    if c['cfg'] & 1 and pid != 'P16':
        kw['n_fft'] = c['n'] - 3
    if c['cfg'] & 2 or pid == 'P13':
        kw['n_fft_coh'] = 6
    if c['kind'] == 'adp':
        kw['orientation'] = ['up', 'down'][c['cfg'] & 1]
        kw['diff_style'] = ['first', 'centered', 'centered_extended'][c['seed'] % 3]
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        shared = cls(**kw)
        D = Data(c, cls(**kw))
        was = copy.deepcopy(vars(cls(**kw)))
        done = 0
        for i, salt in c['steps']:
            op = ops[i % len(ops)]
            if salt % 5 == 0:           # other samples in the same arrays
                for a in D.arrays:
                    a.values[..., salt % a.shape[-1]] *= -1.5
            out = []
            for b in (cls(**kw), shared):
                try:
                    out.append(op(b, D, rng_of(c['seed'], salt)))
                except Violation:
                    raise
                except Exception as e:
                    out.append(e)
            what = '%s of step %d' % (op.__code__.co_names[0], done)
            names = [n for n in op.__code__.co_names if n.startswith(('calc', 'do_', 'check'))]
            what = '%s, call %d of the same binner' % (names[0] if names else op.__code__.co_names[0], done + 1)
            if any(isinstance(o, Exception) for o in out):
                check(type(out[0]) is type(out[1]), '{}: {!r}, a new binner gives {!r}', what, out[1], out[0])
                continue
            done += 1
            equal(out[0], out[1], what)
        now = vars(shared)
        for k, v in was.items():
            check(k in now and np.array_equal(now[k], v), 'setting {} of the binner became {!r}, it was {!r}', k, now.get(k), v)
    ctx.nontrivial(done > 1)
    ctx.label('%d calls' % done)


def add(PROP, pid, kind, quick=100):
    def history(c, ctx):
        run(pid, c, ctx)
    history.__doc__ = __doc__
    PROP.sub(case_(kind), quick=quick)(history)
