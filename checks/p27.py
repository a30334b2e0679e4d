"""P27 calls without options are calls with the documented defaults."""
from vlib.core import Prop, check, quiet, scratch, Violation
from vlib import gen, files
from vlib.gen import seeds, rng_of
import copy
import logging
import os
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import dolfyn
from dolfyn import VelBinner, time as dtime
from dolfyn.adv.api import ADVBinner, calc_turbulence
from dolfyn.adp.api import ADPBinner
from dolfyn.adv import clean as vclean
from dolfyn.adv.motion import correct_motion
from dolfyn.adp import clean as pclean
from dolfyn.tools import misc, psd

logging.disable(logging.CRITICAL)
PROP = Prop('P27', 'the call returned (or changed) something, and a changed default would have shown: '
            'the result with another value of the option differs')

CALLS = {}


def call(name, **other):
    """Register: fn(rng, seed) -> (function, args, documented defaults).

    `other`: values different from the defaults, to tell the trivial cases."""
    def dec(fn):
        CALLS[name] = (fn, other)
        return fn
    return dec


def dataset(kind, seed, fs=4, **k):
    c = dict(kind=kind, seed=seed, nt=24, nr=5, frame='inst', tilt=20, nan=0, scale=1., decl=None,
             down='mixed' if kind.startswith('vector') else bool(seed % 2),
             extra=False, theta=20, convex=True, b5=False, bt=False, head='none', omat=True, rough=False,
             phead=33.)
    c.update(k)
    return gen.build(c, fs=fs)


def series(rng, n, nd=1):
    t = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(250, 'ms')
    a = np.cumsum(rng.normal(0, .3, (3, n)), -1) + rng.normal(0, .2, (3, n)) + np.array([[1.5], [-.7], [.1]])
    if nd == 1:
        return xr.DataArray(a[0], dims=['time'], coords=dict(time=t), name='u')
    return xr.DataArray(a, dims=['dir', 'time'], coords=dict(time=t, dir=['X', 'Y', 'Z']), name='vel')


# ------------------------------------------------------------------- tools
@call('fillgaps', maxgap=1, dim=1, extrapFlg=True)
def _(rng, seed):
    a = rng.normal(size=(12, 7))
    a[rng.random(a.shape) < .4] = np.nan
    return misc.fillgaps, (a,), dict(maxgap=np.inf, dim=0, extrapFlg=False)


@call('interpgaps', maxgap=1, dim=1, extrapFlg=True)
def _(rng, seed):
    a = rng.normal(size=(9, 9))
    a[rng.random(a.shape) < .4] = np.nan
    return misc.interpgaps, (a, np.cumsum(rng.random(9))), dict(maxgap=np.inf, dim=0, extrapFlg=False)


@call('misc.detrend', axis=0, in_place=True)
def _(rng, seed):
    return misc.detrend, (rng.normal(size=(6, 8)),), dict(axis=-1, in_place=False)


@call('group', min_length=3)
def _(rng, seed):
    b = rng.random(40) < .6
    b[:3] = True, False, True
    return misc.group, (b,), dict(min_length=0)


@call('slice1d_along_axis', axis=-1)
def _(rng, seed):
    return (lambda *a, **k: list(map(repr, misc.slice1d_along_axis(*a, **k)))), ((3, 4, 2),), dict(axis=0)


@call('medfiltnan', thresh=.5)
def _(rng, seed):
    a = rng.normal(size=40)
    a[rng.random(40) < .2] = np.nan
    return misc.medfiltnan, (a, 5), dict(thresh=0)


@call('convert_degrees', tidal_mode=False)
def _(rng, seed):
    return misc.convert_degrees, (rng.uniform(0, 360, 20),), dict(tidal_mode=True)


@call('psd_freq', full=True)
def _(rng, seed):
    return psd.psd_freq, (int(rng.integers(8, 40)), 4.), dict(full=False)


@call('psd', window='hamm', step=5)
def _(rng, seed):
    return psd.psd, (rng.normal(size=200), 32, 4.), dict(window='hann', step=None)


@call('cpsd', window='hamm', step=5)
def _(rng, seed):
    return psd.cpsd, (rng.normal(size=200), rng.normal(size=200), 32, 4.), dict(window='hann', step=None)


@call('cpsd_quasisync', window='hamm')
def _(rng, seed):
    return psd.cpsd_quasisync, (rng.normal(size=200), rng.normal(size=160), 32, 4.), dict(window='hann')


@call('coherence', window='hamm', debias=False, noise=(.2, .3))
def _(rng, seed):
    a = rng.normal(size=200)
    return psd.coherence, (a, a + rng.normal(size=200), 32), dict(window='hann', debias=True, noise=(0, 0))


@call('phase_angle', window='hamm', step=5)
def _(rng, seed):
    a = rng.normal(size=200)
    return psd.phase_angle, (a, a + rng.normal(size=200), 32), dict(window='hann', step=None)


# -------------------------------------------------------------------- time
@call('epoch2date', offset_hr=5, to_str=True)
def _(rng, seed):
    return dtime.epoch2date, (rng.uniform(1e9, 2e9, 4),), dict(offset_hr=0, to_str=False)


@call('date2str', format_str='%H:%M')
def _(rng, seed):
    return dtime.date2str, (dtime.epoch2date(rng.uniform(1e9, 2e9, 4)),), dict(format_str='%Y-%m-%d %H:%M:%S.%f')


# ------------------------------------------------------------------ binner
def binner(cls=VelBinner):
    return cls(n_bin=64, fs=4, n_fft=32)


for _nm, _o in (('mean', dict(axis=0)), ('variance', dict(axis=0)), ('standard_deviation', dict(axis=0))):
    for _real in {'mean': ['mean'], 'variance': ['var', 'variance'], 'standard_deviation': ['std', 'standard_deviation']}[_nm]:
        if hasattr(VelBinner, _real):
            @call('VelBinner.' + _real, n_bin=16)
            def _(rng, seed, real=_real):
                return getattr(binner(), real), (rng.normal(size=(3, 256)),), dict(axis=-1, n_bin=64)
for _real in ('detrend', 'demean'):
    @call('VelBinner.' + _real, n_bin=16, n_pad=8)
    def _(rng, seed, real=_real):
        return getattr(binner(), real), (rng.normal(size=(3, 256)),), dict(axis=-1, n_pad=0, n_bin=64)


@call('VelBinner.reshape', n_bin=16, n_pad=8)
def _(rng, seed):
    return binner().reshape, (rng.normal(size=(3, 256)),), dict(n_pad=0, n_bin=64)


@call('calc_freq', fs=8, units='Hz', n_fft=16, coh=True)
def _(rng, seed):
    b = VelBinner(n_bin=64, fs=4, n_fft=32, n_fft_coh=16)
    return b.calc_freq, (), dict(fs=4, units='rad/s', n_fft=32, coh=False)


@call('calc_freq of the coherence')
def _(rng, seed):
    b = VelBinner(n_bin=64, fs=4, n_fft=32, n_fft_coh=16)
    return (lambda **k: b.calc_freq(coh=True, **k)), (), dict(n_fft=16)


@call('calc_psd', freq_units='Hz', fs=8, window='hamm', noise=.1, n_bin=32, n_fft=16, step=3)
def _(rng, seed):
    return binner().calc_psd, (series(rng, 256),), dict(freq_units='rad/s', fs=4, window='hann', noise=0, n_bin=64, n_fft=32)


@call('calc_psd of a vector', freq_units='Hz', window='hamm', noise=[.1, .1, .1], n_bin=32)
def _(rng, seed):
    return binner(ADVBinner).calc_psd, (series(rng, 256, 3),), dict(freq_units='rad/s', fs=4, window='hann', n_bin=64, n_fft=32)


@call('calc_csd', freq_units='Hz', window='hamm', n_bin=32, n_fft_coh=16)
def _(rng, seed):
    return binner(ADVBinner).calc_csd, (series(rng, 256, 3),), dict(freq_units='rad/s', fs=4, window='hann', n_bin=64, n_fft_coh=32)


@call('calc_coh', window='hamm', debias=False, noise=(.05, .1), n_fft_coh=16, n_bin=32)
def _(rng, seed):
    a = series(rng, 256)
    return binner().calc_coh, (a, a + rng.normal(size=256)), dict(window='hann', debias=True, noise=(0, 0), n_fft_coh=32, n_bin=64)


@call('calc_phase_angle', window='hamm', n_fft_coh=16, n_bin=32)
def _(rng, seed):
    a = series(rng, 256)
    return binner().calc_phase_angle, (a, a + rng.normal(size=256)), dict(window='hann', n_fft_coh=32, n_bin=64)


@call('calc_acov', n_bin=32)
def _(rng, seed):
    return binner().calc_acov, (series(rng, 256),), dict(n_bin=64)


@call('calc_xcov', npt=3, n_bin=32, normed=True)
def _(rng, seed):
    a = series(rng, 256)
    return binner().calc_xcov, (a, a + rng.normal(size=256)), dict(npt=1, n_bin=64, normed=False)


@call('calc_ti', noise=.1, thresh=1.5, detrend=True)
def _(rng, seed):
    return binner().calc_ti, (abs(series(rng, 256)),), dict(noise=0, thresh=0, detrend=False)


@call('calc_tke', noise=[.1, .1, .1], detrend=False)
def _(rng, seed):
    return binner().calc_tke, (series(rng, 256, 3),), dict(noise=[0, 0, 0], detrend=True)


@call('calc_stress', detrend=False)
def _(rng, seed):
    return binner(ADVBinner).calc_stress, (series(rng, 256, 3),), dict(detrend=True)


@call('do_var', suffix='_v')
def _(rng, seed):
    ds = dataset('vector', seed, nt=256)
    return binner().do_var, (ds,), dict(out_ds=None, names=list(ds.data_vars), suffix='_var')


@call('do_avg', names=['vel'])
def _(rng, seed):
    ds = dataset('vector', seed, nt=256)
    return binner().do_avg, (ds,), dict(out_ds=None, names=list(ds.data_vars))


@call('calc_turbulence', freq_units='Hz', window='hamm', n_fft=16)
def _(rng, seed):
    ds = dataset('vector', seed, nt=256)
    return calc_turbulence, (ds, 64, 4), dict(n_fft=64, freq_units='rad/s', window='hann')


@call('ADVBinner()', freq_units='Hz', window='hamm')
def _(rng, seed):
    return binner(ADVBinner), (dataset('vector', seed, nt=256),), dict(freq_units='rad/s', window='hann')


@call('noise level of the binner')
def _(rng, seed):
    v = series(rng, 256, 3)
    return (lambda **k: ADVBinner(n_bin=64, fs=4, **k).calc_tke(v)), (), dict(n_fft=64, noise=[0, 0, 0])


@call('fft length of the binner')
def _(rng, seed):
    v = series(rng, 256)
    return (lambda **k: VelBinner(n_bin=64, fs=4, **k).calc_psd(v)), (), dict(n_fft=64)


@call('coherence fft length of the binner')
def _(rng, seed):
    v = series(rng, 256)
    return (lambda **k: VelBinner(n_bin=64, fs=4, n_fft=16, **k).calc_coh(v, v + 1)), (), dict(n_fft_coh=16)


# ---------------------------------------------------------- ADV turbulence
def spectra(rng, fs=16, dims=('S', 'time', 'freq'), units='rad s-1'):
    fs = fs * ([.2, .5, 1, 2] if units != 'Hz' else [.35, 1, 2, 4])[int(rng.integers(0, 4))]
    f = np.linspace(0, fs / 2, 400)[1:] * (2 * np.pi if units != 'Hz' else 1)
    a = rng.uniform(.5, 2, (3, 4, f.size)) * f ** (-5 / 3)
    t = np.datetime64('2020-01-01', 'ns') + np.arange(4) * np.timedelta64(300, 's')
    p = xr.DataArray(a, dims=['S', 'time', 'freq'], coords=dict(S=['Sxx', 'Syy', 'Szz'], time=t, freq=f))
    p['freq'].attrs['units'] = units
    U = xr.DataArray(rng.uniform(.5, 2, 4), dims=['time'], coords=dict(time=t))
    return (p if 'S' in dims else p[0].drop_vars('S')), U


@call('ADV calc_doppler_noise', pct_fN=.6)
def _(rng, seed):
    return ADVBinner(n_bin=64, fs=16).calc_doppler_noise, (spectra(rng)[0],), dict(pct_fN=.8)


@call('ADV check_turbulence_cascade_slope', freq_range=[6, 13])
def _(rng, seed):
    return ADVBinner(n_bin=64, fs=16).check_turbulence_cascade_slope, (spectra(rng)[0],), dict(freq_range=[6.28, 12.57])


@call('calc_epsilon_LT83', freq_range=[6, 13], noise=[.01, .02, .03])
def _(rng, seed):
    return ADVBinner(n_bin=64, fs=16).calc_epsilon_LT83, spectra(rng), dict(freq_range=[6.28, 12.57], noise=[0, 0, 0])


@call('calc_epsilon_SF', freq_range=[1., 4.], fs=8)
def _(rng, seed):
    v = series(rng, 256)
    b = ADVBinner(n_bin=64, fs=16)
    U = xr.DataArray(rng.uniform(.5, 2, 4), dims=['time'], coords=dict(time=v.time.values[::64]))
    return b.calc_epsilon_SF, (v, U), dict(fs=16, freq_range=[2., 4.])


@call('calc_epsilon_TE01', freq_range=[4, 15])
def _(rng, seed):
    ds = dataset('vector', seed, nt=256, fs=16)
    ds.attrs['fs'] = 16
    avg = calc_turbulence(ds, 64, 16)
    return ADVBinner(n_bin=64, fs=16).calc_epsilon_TE01, (ds, avg), dict(freq_range=[6.28, 12.57])


@call('calc_L_int', fs=8)
def _(rng, seed):
    v = series(rng, 512, 3)
    b = ADVBinner(n_bin=64, fs=4)
    a = b.calc_acov(v)
    U = xr.DataArray(rng.uniform(.5, 2, 8), dims=['time'], coords=dict(time=a.time.values))
    return b.calc_L_int, (a, U), dict(fs=4)


# --------------------------------------------------------------- ADV clean
@call('clean_fill', npt=3, method='linear', maxgap=2)
def _(rng, seed):
    v = series(rng, 120)
    m = np.zeros(120, bool)
    for i in rng.integers(15, 100, 5):
        m[i:i + rng.integers(1, 10)] = True
    return vclean.clean_fill, (v, m), dict(npt=12, method='cubic', maxgap=6)


@call('spike_thresh', thresh=2)
def _(rng, seed):
    return vclean.spike_thresh, (series(rng, 200) * 20,), dict(thresh=10)


@call('range_limit', range=[-4, 4])
def _(rng, seed):
    return vclean.range_limit, (series(rng, 200) * 2,), dict(range=[-5, 5])


@call('GN2002', npt=2000)
def _(rng, seed):
    u = rng.normal(0, 1, 5600)
    u[rng.integers(0, 5600, 40)] *= 6
    u[5000:] *= 3
    return vclean.GN2002, (xr.DataArray(u, dims=['time']),), dict(npt=5000)


@call('correct_motion', accel_filtfreq=.05, vel_filtfreq=.05, to_earth=False)
def _(rng, seed):
    ds = dataset('vector_imu', seed, nt=400)
    ds.attrs['inst2head_vec'] = [.1, -.2, .3]
    ds.attrs['has_imu'] = 1
    ds.attrs.pop('duty_cycle_n_burst')
    return correct_motion, (ds,), dict(accel_filtfreq=.03, vel_filtfreq=.01, to_earth=True, separate_probes=False)


# ---------------------------------------------------------------- ADP clean
def echo(seed):
    ds = dataset('sig', seed, nt=30, nr=12)
    r = rng_of(seed, 7)
    a = 150 - 8 * np.arange(12)[None, :, None] + r.integers(-3, 4, (4, 12, 30))
    k = r.integers(5, 10, 30)
    for t in range(30):
        a[:, k[t], t] += int(r.integers(60, 90))
        a[:, k[t] + 1, t] += 30
    ds['amp'] = (('beam', 'range', 'time'), a.astype('u1'))
    ds['corr'] = (('beam', 'range', 'time'), r.integers(45, 56, (4, 12, 30)).astype('u1'))
    ds.corr.attrs['units'] = '%'
    ds['pressure'] = (('time',), r.uniform(5, 20, 30))
    ds['temp'] = (('time',), r.uniform(0, 20, 30))
    return ds


@call('find_surface', nfilt=5)
def _(rng, seed):
    return pclean.find_surface, (echo(seed),), dict(thresh=10, nfilt=None)


@call('find_surface of a weak echo', thresh=20)
def _(rng, seed):
    ds = echo(seed)
    a = 150 - 10 * np.arange(12)[None, :, None] + np.zeros((4, 12, 30), int)
    for t in range(30):
        a[:, int(rng.integers(4, 11)):, t] += int(rng.integers(14, 27))   # a step of 4 to 16 counts
    ds['amp'] = (('beam', 'range', 'time'), a.astype('u1'))
    return pclean.find_surface, (ds,), dict(thresh=10, nfilt=None)


@call('find_surface_from_P', salinity=20)
def _(rng, seed):
    return pclean.find_surface_from_P, (echo(seed),), dict(salinity=35)


@call('nan_beyond_surface', val=-1, inplace=True)
def _(rng, seed):
    ds = echo(seed)
    ds.attrs.update(cell_size=.5)
    pclean.find_surface_from_P(ds)
    return pclean.nan_beyond_surface, (ds,), dict(val=np.nan, beam_angle=None, inplace=False)


@call('correlation_filter', thresh=52, inplace=True)
def _(rng, seed):
    return pclean.correlation_filter, (echo(seed),), dict(thresh=50, inplace=False)


@call('medfilt_orient', nfilt=3)
def _(rng, seed):
    return pclean.medfilt_orient, (dataset('sig', seed, nt=30, extra=False),), dict(nfilt=7)


@call('val_exceeds_thresh', thresh=4, val=0)
def _(rng, seed):
    return pclean.val_exceeds_thresh, (series(rng, 200) * 3,), dict(thresh=5, val=np.nan)


@call('fillgaps_time', method='linear', maxgap=1)
def _(rng, seed):
    v = series(rng, 60)
    v.values[rng.random(60) < .3] = np.nan
    return pclean.fillgaps_time, (v,), dict(method='cubic', maxgap=None)


@call('fillgaps_depth', method='linear', maxgap=1)
def _(rng, seed):
    v = xr.DataArray(rng.normal(size=(24, 3)), dims=['range', 'time'], coords=dict(range=.5 + .5 * np.arange(24)))
    v.values[rng.random(v.shape) < .3] = np.nan
    return pclean.fillgaps_depth, (v,), dict(method='cubic', maxgap=None)


# ----------------------------------------------------------- ADP turbulence
def profile(rng):
    t = np.datetime64('2020-01-01', 'ns') + np.arange(60) * np.timedelta64(500, 'ms')
    return xr.DataArray(np.cumsum(rng.normal(0, .2, (3, 14, 60)), 1), dims=['dir', 'range', 'time'],
                        coords=dict(dir=['X', 'Y', 'Z'], range=.7 + .5 * np.arange(14), time=t))


@call('calc_dudz', orientation='down')
def _(rng, seed):
    return ADPBinner(n_bin=20, fs=2).calc_dudz, (profile(rng),), dict(orientation='up')


@call('difference of ADPBinner')
def _(rng, seed):
    v = profile(rng)
    return (lambda **k: ADPBinner(n_bin=20, fs=2, **k).calc_dudz(v)), (), dict(diff_style='centered_extended', orientation='up')


@call('ADP calc_doppler_noise', pct_fN=.6)
def _(rng, seed):
    return ADPBinner(n_bin=64, fs=16).calc_doppler_noise, (spectra(rng, dims=('time', 'freq'))[0],), dict(pct_fN=.8)


@call('ADP check_turbulence_cascade_slope', freq_range=[.1, .45])
def _(rng, seed):
    return ADPBinner(n_bin=64, fs=2).check_turbulence_cascade_slope, (spectra(rng, 2, ('time', 'freq'), 'Hz')[0],), dict(freq_range=[.2, .4])


@call('calc_dissipation_LT83', freq_range=[.1, .45], noise=.01)
def _(rng, seed):
    return ADPBinner(n_bin=64, fs=2).calc_dissipation_LT83, spectra(rng, 2, ('time', 'freq'), 'Hz'), dict(freq_range=[.2, .4])


@call('calc_dissipation_SF', r_range=[1, 4])
def _(rng, seed):
    return ADPBinner(n_bin=20, fs=2).calc_dissipation_SF, (profile(rng)[0].drop_vars('dir'),), dict(r_range=[1, 5])


@call('calc_ustar_fit', z_inds=slice(1, 6), H=40.)
def _(rng, seed):
    v = profile(rng)[0, :, :6]
    avg = xr.Dataset(dict(depth=('time', rng.uniform(10, 20, 6))), coords=dict(range=v.range, time=v.time))
    return ADPBinner(n_bin=20, fs=2).calc_ustar_fit, (avg, abs(v)), dict(z_inds=slice(1, 5))


def beams(seed, kind):
    ds = dataset(kind, seed, nt=60, nr=4, tilt=1, b5=kind == 'sig')
    ds = dolfyn.rotate2(ds, 'beam', inplace=False)
    return ds


@call('calc_stress_4beam', orientation='other')
def _(rng, seed):
    ds = beams(seed, 'rdi')
    return ADPBinner(n_bin=20, fs=4).calc_stress_4beam, (ds,), dict(orientation=ds.orientation, beam_angle=20)


@call('calc_stress_5beam', noise=.1, tke_only=True)
def _(rng, seed):
    ds = beams(seed, 'sig')
    return ADPBinner(n_bin=20, fs=4).calc_stress_5beam, (ds,), dict(orientation=ds.orientation, beam_angle=25, tke_only=False)


# ------------------------------------------------------------------ rotate
KINDS = ['vector', 'vector_imu', 'awac', 'sig', 'rdi']


@call('rotate2', out_frame='beam', inplace=False)
def _(rng, seed):
    return dolfyn.rotate2, (dataset(KINDS[seed % 5], seed),), dict(out_frame='earth', inplace=True)


@call('velds.rotate2', out_frame='beam', inplace=False)
def _(rng, seed):
    return (lambda ds, **k: ds.velds.rotate2(**k)), (dataset(KINDS[seed % 5], seed),), dict(out_frame='earth', inplace=True)


@call('set_declination', inplace=False)
def _(rng, seed):
    return dolfyn.set_declination, (dataset(KINDS[seed % 5], seed, frame='earth'), 12.5), dict(inplace=True)


@call('velds.set_declination', inplace=False)
def _(rng, seed):
    return (lambda ds, **k: ds.velds.set_declination(12.5, **k)), (dataset(KINDS[seed % 5], seed, frame='earth'),), dict(inplace=True)


HEAD = np.array([[0, 0, -1.], [0, -1, 0], [-1, 0, 0]])


@call('set_inst2head_rotmat', inplace=False)
def _(rng, seed):
    return dolfyn.set_inst2head_rotmat, (dataset('vector', seed), HEAD), dict(inplace=True)


@call('velds.set_inst2head_rotmat', inplace=False)
def _(rng, seed):
    return (lambda ds, **k: ds.velds.set_inst2head_rotmat(HEAD, **k)), (dataset('vector', seed),), dict(inplace=True)


@call('calc_principal_heading', tidal_mode=False)
def _(rng, seed):
    return dolfyn.calc_principal_heading, (rng.normal(size=(3, 40)) + 1,), dict(tidal_mode=True)


@call('orient2euler / euler2orient', units='radians')
def _(rng, seed):
    from dolfyn.rotate.base import euler2orient
    return euler2orient, tuple(rng.uniform(-3, 3, (3, 6))), dict(units='degrees')


# ---------------------------------------------------------------------- io
def through(writer, reader):
    def run(ds, wk={}, rk={}):
        with scratch() as d:
            p = os.path.join(d, 'a' + ('.mat' if writer is dolfyn.save_mat else '.nc'))
            writer(ds, p, **wk)
            return reader(p, **rk), os.path.getsize(p)
    return run


@call('save', compression=True)
def _(rng, seed):
    ds = dataset('sig', seed, nt=300)
    ds['amp'] = (('beam', 'range', 'time'), np.zeros((4, 5, 300)))
    f = through(dolfyn.save, dolfyn.load)
    return (lambda **k: f(ds, k)), (), dict(compression=False)


@call('save_mat / load_mat', datenum=False)
def _(rng, seed):
    f = files.build(files.KINDS[seed % 5], rng, 4, 'inst')
    with scratch() as d:
        p = os.path.join(d, 'a.bin')
        open(p, 'wb').write(f.data)
        with np.errstate(all='ignore'):
            ds = dolfyn.read(p)

    def run(**k):
        with scratch() as d:
            import scipy.io as sio
            p = os.path.join(d, 'a.mat')
            dolfyn.save_mat(ds, p, **k)
            raw = sio.loadmat(p, struct_as_record=False, squeeze_me=True)
            return dolfyn.load_mat(p, **k), np.asarray(raw['coords'].time)
    return run, (), dict(datenum=True)


@call('read', nens=2)
def _(rng, seed):
    kinds = ['vector', 'awac', 'trdi', 'signature']
    f = files.build(kinds[seed % 4], rng, 5, 'inst')

    def run(**k):
        with scratch() as d:
            p = os.path.join(d, 'a.bin')
            open(p, 'wb').write(f.data)
            return dolfyn.read(p, **k)
    return run, (), dict(userdata=True, nens=None)


def result(f, args, kw):
    """What the call returns, and what it makes of its arguments (or the exception)."""
    args = copy.deepcopy(args)
    with quiet(), np.errstate(all='ignore'):
        try:
            r = f(*args, **kw)
        except Exception as e:
            return 'raises', type(e).__name__, str(e)
    return 'ok', r, args


def same(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (xr.Dataset, xr.DataArray)):
        return type(a) is type(b) and a.identical(b) and repr(sorted(a.attrs.items(), key=str)) == repr(sorted(b.attrs.items(), key=str))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    return type(a) is type(b) and (a == b or a != a and b != b)


@PROP.sub(st.tuples(seeds.map(lambda k: sorted(CALLS)[gen.spread(k, len(CALLS))]), st.integers(0, 10**6)), quick=1200, thorough=20000, shards=4)
def defaults(case, ctx):
    name, seed = case
    fn, other = CALLS[name]
    with quiet(), np.errstate(all='ignore'):
        f, args, dflt = fn(rng_of(seed, 27), seed)
    ctx.label(name)
    plain = result(f, args, {})
    check(plain[0] == 'ok', '{}: {}', name, plain)
    full = result(f, args, dflt)
    check(full[0] == 'ok', '{} with {}: {}', name, dflt, full)
    if not same(plain, full):
        bad = [k for k in dflt if not same(plain, result(f, args, {k: dflt[k]}))]
        raise Violation('%s() is not %s(%s)' % (name, name, ', '.join('%s=%r' % (k, dflt[k]) for k in bad or dflt)))
    ctx.nontrivial(bool(other) and all(not same(plain, result(f, args, {k: v})) for k, v in list(other.items())[:2]))
