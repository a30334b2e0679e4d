"""P33 calls are independent of each other and of the session they are made in."""
from vlib.core import Prop, check, scratch, Violation, HarnessError
from vlib import gen, files, rich
from vlib.gen import seeds, rng_of
import copy
import gc
import io
import locale
import logging
import os
import pickle
import random
import resource
import signal
import sys
import threading
import warnings
import numpy as np
import xarray as xr
from hypothesis import strategies as st
import netCDF4  # noqa: F401  (sets environment variables)
import scipy.io  # noqa: F401
import dolfyn
from dolfyn import time as dtime
from dolfyn.rotate import base as rbase
from dolfyn.adp import clean as pclean
from dolfyn.adp.turbulence import ADPBinner
from dolfyn.adv import clean as vclean
from dolfyn.adv.motion import CalcMotion
from dolfyn.adv.turbulence import ADVBinner
from dolfyn.tools import psd
from checks import p27
from checks.p27 import same

logging.disable(logging.CRITICAL)
PROP = Prop('P33', 'at least two different calls, of which one was made (with other arguments or options) before', boost=1)

# ------------------------------------------------------------------- the calls
TIMES = dict(epoch2dt64=dtime.epoch2dt64, dt642epoch=dtime.dt642epoch, date2dt64=dtime.date2dt64, dt642date=dtime.dt642date, epoch2date=dtime.epoch2date,
             date2epoch=dtime.date2epoch, date2matlab=dtime.date2matlab, matlab2date=dtime.matlab2date, date2str=dtime.date2str)
SHORT = ['u', 'v', 'w', 'U', 'U_mag', 'U_dir', 'repr', 'tilt', 'euler', 'quaternion', 'principal', 'item']


def timecall(nm, seed):
    rng = rng_of(seed, 1)
    ep = rng.uniform(1e9, 2e9, 1 + seed)
    if nm.startswith('epoch'):
        a = ep
    elif nm.startswith('dt64'):
        a = dtime.epoch2dt64(ep)
    elif nm.startswith('date'):
        a = dtime.epoch2date(ep)
    else:
        a = ep / 86400 + 719529
    return TIMES[nm], (a,), {}


def shortcut(nm, seed):
    ds = gen.build(dict(kind=p27.KINDS[seed % 5], seed=seed, nt=6, nr=2, frame='earth' if seed % 2 else 'inst', tilt=10, nan=0, scale=1., decl=None,
                        down=False if seed % 5 > 1 else 'mixed', extra=False, theta=20, convex=True, b5=False, bt=False, head='none', omat=True, rough=False, phead=33.))
    if nm == 'repr':
        return (lambda d: repr(d.velds)), (ds,), {}
    if nm == 'tilt':
        return rbase.calc_tilt, (ds['pitch'], ds['roll']) if 'pitch' in ds else (np.arange(3.), np.arange(3.)), {}
    if nm == 'euler':
        return dolfyn.orient2euler, (ds,), {}
    if nm == 'quaternion':
        q = rng_of(seed, 2).normal(size=(4, 5))
        return dolfyn.quaternion2orient, (xr.DataArray(q / np.linalg.norm(q, axis=0), dims=['q', 'time'], coords=dict(time=np.arange(5))),), {}
    if nm == 'principal':
        v = ds.vel
        return dolfyn.calc_principal_heading, ((v.isel(range=0) if 'range' in v.dims else v).values, bool(seed % 3)), {}
    if nm == 'item':
        return (lambda d: (d.velds['vel'], sorted(d.velds.variables), dict(d.velds.attrs))), (ds,), {}
    return (lambda d: getattr(d.velds, nm)), (ds,), {}


def filecall(kind, seed, how):
    rng = rng_of(seed, 3)
    f = files.build(kind, rng, 4, files.FRAMES[seed % 3], magvar=[0, 830][seed % 2], ncells=2 + seed % 7)

    def run(**k):
        with scratch() as d:
            p = os.path.join(d, 'x.' + files.EXT[kind])
            with open(p, 'wb') as fh:
                fh.write(f.data)
            if how == 'userdata' and kind != 'vectrino':
                with open(os.path.join(d, 'x.userdata.json'), 'w') as fh:
                    fh.write('{"declination": %d, "note": [%d]}' % (seed + 5, seed))
            if how == 'cut':
                with open(p, 'wb') as fh:
                    fh.write(f.data[:-7 - seed])
            return dolfyn.read(p, **k)
    kw = {}
    if how == 'nens':
        kw = dict(nens=2)
    elif how == 'options':
        kw = dict(nortek=dict(do_checksum=True, bufsize=10), rdi=dict(vmdas_search=True), signature=dict(rebuild_index=True))[files.READER[kind]]
    return run, (), kw


def richcall(c):
    return (lambda: rich.read(c)), (), {}


MORE = {}


def more(name, *opts):
    def dec(fn):
        MORE[name] = (fn, opts)
        return fn
    return dec


@more('set_range_offset')
def _(rng, seed):
    return pclean.set_range_offset, (p27.dataset('sig', seed), [.5, 1, 2.25][seed % 3]), {}


for _nm in ('calc_dvdz', 'calc_dwdz', 'calc_shear2'):
    @more(_nm)
    def _(rng, seed, nm=_nm):
        return getattr(ADPBinner(n_bin=20, fs=2, diff_style=['first', 'centered', 'centered_extended'][seed % 3]), nm), (p27.profile(rng),), {}


@more('fill_nan_ensemble_mean')
def _(rng, seed):
    m = rng.random(160) < .2
    return vclean.fill_nan_ensemble_mean, (p27.series(rng, 160), m, 4, 5 + 5 * seed), {}


@more('stepsize', dict(nens=5), dict(step=3))
def _(rng, seed):
    return psd.stepsize, (100 + seed, 16), {}


@more('calc_psd_base', dict(window='hamm'), dict(n_fft=16), dict(fs=8), dict(noise=.1), dict(step=5))
def _(rng, seed):
    return p27.binner().calc_psd_base, (rng.normal(size=(2, 256)),), {}


@more('calc_csd_base', dict(window='hamm'), dict(n_fft=16), dict(fs=8))
def _(rng, seed):
    return p27.binner().calc_csd_base, (rng.normal(size=256), rng.normal(size=256)), {}


@more('CalcMotion', dict(accel_filtfreq=.1), dict(vel_filtfreq=.05), dict(to_earth=False))
def _(rng, seed):
    ds = p27.dataset('vector_imu', seed, nt=100)
    ds.attrs.pop('duty_cycle_n_burst', None)

    def run(ds, **k):
        c = CalcMotion(ds, **k)
        return c.calc_velacc(), c.calc_velrot(np.array([.1, .2, .3])), c.calc_velrot(np.eye(3)), c.calc_velrot(np.array([.1, .2, .3]), to_earth=True)
    return run, (ds,), {}


@more('turbulence shortcuts')
def _(rng, seed):
    ds = p27.dataset('vector', seed, nt=256)
    avg = p27.binner(ADVBinner)(ds)
    avg['U_std'] = abs(avg.velds.U_mag) * .1

    def run(d):
        return [getattr(d.velds, k) for k in ('tke', 'upvp_', 'upwp_', 'vpwp_', 'upup_', 'vpvp_', 'wpwp_', 'I', 'I_tke', 'E_coh', 'U_mag')]
    return run, (avg,), {}


ALL = dict(p27.CALLS, **MORE)


def make(step):
    what = step[0]
    if what == 'call':
        _, name, seed, k = step
        fn, other = ALL[name]
        f, args, dflt = fn(rng_of(seed, 27), seed)
        if name in MORE:
            return f, args, ([{}] + list(other))[k % (1 + len(other))]
        opts = [{}, dflt] + [{a: b} for a, b in sorted(other.items())]
        return f, args, opts[k % len(opts)]
    return dict(time=timecall, short=shortcut, file=filecall, rich=richcall)[what](*step[1:])


names = sorted(ALL)
small = st.integers(0, 30)
STEP = (st.tuples(st.just('call'), st.sampled_from(names), small, st.integers(0, 5)) | st.tuples(st.just('call'), st.sampled_from(names), small, st.integers(0, 5))
        | st.tuples(st.just('time'), st.sampled_from(sorted(TIMES)), small) | st.tuples(st.just('short'), st.sampled_from(SHORT), st.integers(0, 9))
        | st.tuples(st.just('file'), st.sampled_from(files.KINDS), small, st.sampled_from(['plain', 'plain', 'userdata', 'nens', 'cut', 'options']))
        | st.tuples(st.just('rich'), rich.case_st))


def neighbours(step, k):
    """The same function, called differently."""
    step = list(step)
    if step[0] == 'call':
        step[2 + k % 2] = (step[2 + k % 2] + 1 + k // 2) % (31 if k % 2 == 0 else 6)
    elif step[0] in ('time', 'short'):
        step[2] = (step[2] + 1 + k) % 31
    elif step[0] == 'file':
        step[2 + k % 2] = (step[2] + 1) % 31 if k % 2 == 0 else ['plain', 'userdata', 'nens', 'cut', 'options'][k % 5]
    else:
        step[1] = dict(step[1], seed=step[1]['seed'] ^ (k + 1))
    return tuple(step)


@st.composite
def session(draw):
    base = draw(st.lists(STEP, min_size=1, max_size=4))
    out = []
    for s in base:
        out.append(s)
        for _ in range(draw(st.integers(0, 2))):
            out.append(neighbours(s, draw(st.integers(0, 7))))
    out += [out[i % len(out)] for i in draw(st.lists(st.integers(0, 20), max_size=3))]
    return draw(st.permutations(out))


# ---------------------------------------------------------------- the sessions
def forked(fn):
    """fn() in a process of its own, which has made no call before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (80, 90))
            sys.stdout = io.StringIO()
            warnings.filterwarnings('ignore', message='.*')
            np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
            try:
                out = pickle.dumps(fn(), protocol=4)
            except BaseException as e:      # noqa
                out = pickle.dumps(('harness', repr(e)), protocol=4)
            with os.fdopen(w, 'wb') as fh:
                fh.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        out = fh.read()
    _, status = os.waitpid(pid, 0)
    if not out:
        raise Violation('the session ended with status %d' % status)
    out = pickle.loads(out)
    if isinstance(out, tuple) and out[0] == 'harness':
        raise HarnessError(out[1])
    return out


def state():
    """Settings of the process that a call must leave alone."""
    fds = {}
    for k in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + k)
        except OSError:
            continue
        if not t.startswith(('/proc', 'anon_inode')):
            fds[k] = t
    rs = np.random.get_state()
    return dict(
        warning_filters=[repr(f) for f in warnings.filters], numpy_errors=np.geterr(), numpy_printing=repr(np.get_printoptions()),
        numpy_random=(rs[0], rs[1].tobytes(), rs[2:]), random=hash(random.getstate()), directory=os.getcwd(), environment=dict(os.environ),
        locale=locale.setlocale(locale.LC_ALL), xarray_options=repr(sorted(xr.get_options().items())), log=(logging.root.level, list(map(repr, logging.root.handlers))),
        open_files=fds, threads=threading.active_count(), path=list(sys.path), umask=mask(), gc=gc.isenabled(),
        recursion=sys.getrecursionlimit())


def difference(a, b):
    if isinstance(a, dict):
        return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    if isinstance(a, list):
        return [x for x in a if x not in b], [x for x in b if x not in a]
    return str(a)[:200], str(b)[:200]


def mask():
    m = os.umask(0)
    os.umask(m)
    return m


def spoil(x, depth=0):
    """Overwrite everything that can be overwritten."""
    if isinstance(x, (xr.Dataset, xr.DataArray)):
        for v in (x.variables.values() if isinstance(x, xr.Dataset) else [x.variable] + list(x._coords.values())):
            spoil(getattr(v, '_data', None))
            spoil(v.attrs, depth + 1)
            v.attrs['spoiled'] = 1
        spoil(x.attrs, depth + 1)
        x.attrs['spoiled'] = 1
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fciub':
            x[...] = 0
        elif x.flags.writeable and x.dtype.kind == 'M':
            x[...] = np.datetime64(0, 's')
    elif isinstance(x, list):
        for y in x:
            spoil(y, depth + 1)
        x.append('spoiled')
    elif isinstance(x, tuple):
        for y in x:
            spoil(y, depth + 1)
    elif isinstance(x, dict) and depth:
        for y in x.values():
            spoil(y, depth + 1)


def one(step, destroy=False):
    """(pickled result, arguments were changed, arguments are changed with the result)"""
    f, args, kw = make(step)
    args, kw = copy.deepcopy(args), copy.deepcopy(kw)
    was = copy.deepcopy((args, kw))
    try:
        r = ('ok', f(*args, **kw))
    except Exception as e:
        r = ('raises', type(e).__name__, str(e))
    changed = not same(list(was[0]), list(args)) or not all(same(was[1][k], kw[k]) for k in kw) or set(kw) != set(was[1])
    out = pickle.dumps(r, protocol=4)
    shared = False
    if destroy:
        was = copy.deepcopy((args, kw))
        spoil(r)
        shared = not same(list(was[0]), list(args)) or not all(same(was[1][k], kw[k]) for k in kw)
        spoil(args)
        spoil(kw, 1)
    return out, changed, shared


def whole(steps):
    out = []
    before = state()
    for s in steps:
        r = one(s, True)
        gc.collect()
        after = state()
        diff = [k for k in before if before[k] != after[k]]
        out.append(r + ([(k, difference(before[k], after[k])) for k in diff],))
        before = after
    return out


_alone = {}


def alone(step):
    k = repr(step)
    if k not in _alone:
        if len(_alone) > 3000:
            _alone.clear()
        _alone[k] = forked(lambda: one(step))
    return _alone[k]


# calls that work on the dataset or the array they are given
INPLACE = {'fillgaps', 'interpgaps', 'clean_fill', 'find_surface', 'find_surface of a weak echo', 'find_surface_from_P', 'nan_beyond_surface', 'correlation_filter', 'correct_motion', 'rotate2', 'velds.rotate2',
           'set_declination', 'velds.set_declination', 'set_inst2head_rotmat',
           'velds.set_inst2head_rotmat', 'calc_stress_5beam', 'calc_stress_4beam', 'misc.detrend', 'set_range_offset'}


# results that are (as xarray does it) views of the dataset, or the arrays they were given
VIEWS = {'u', 'v', 'w', 'item', 'turbulence shortcuts'}


def title(step):
    return '%s %s' % (step[0], step[1] if step[0] != 'rich' else step[1]['kind'])


HEADS = [('call', n, 0, 0) for n in names] + [('time', n, 0) for n in sorted(TIMES)] + [('short', n, 0) for n in SHORT] + [('file', k, 0, 'plain') for k in files.KINDS]


def pairs(x):
    """One function with a few inputs, without options and with each option, in any order, and the first again."""
    which, order, sds = x
    rng = rng_of(which, order)
    h = HEADS[int(rng.integers(0, len(HEADS)))]
    if h[0] == 'call':
        n = 2 + len(ALL[h[1]][1])
        out = [h[:2] + (s, o) for s in sds for o in range(n)]
    elif h[0] == 'file':
        out = [h[:2] + (s, o) for s in sds for o in ('plain', 'userdata', 'nens', 'cut', 'options')]
    else:
        out = [h[:2] + (s,) for s in sds]
    out = [out[i] for i in rng.permutation(len(out))][:14]
    return out + [out[0]]


pair_st = st.tuples(seeds, seeds, st.lists(small, min_size=2, max_size=3, unique=True)).map(pairs)


@PROP.sub(pair_st, quick=700, thorough=8000, shards=6)
def repeated(steps, ctx):
    """One function, in a few ways, and the first way again."""
    run(steps, ctx)


@PROP.sub(session(), quick=240, thorough=3000, shards=4)
def sessions(steps, ctx):
    run(steps, ctx)


def run(steps, ctx):
    heads = [title(s) for s in steps]
    ctx.nontrivial(len(set(map(repr, steps))) > 1 and len(set(heads)) < len(heads))
    ctx.label(*['%s calls' % s[0] for s in steps])
    got = forked(lambda: whole(steps))
    for i, (s, (r, changed, shared, diff)) in enumerate(zip(steps, got)):
        name = '%s%s, call %d of the session' % (title(s), s[2:], i + 1)
        ref, changed0, _ = alone(s)
        a, b = pickle.loads(ref), pickle.loads(r)
        check(same(a, b), '{}: not what it gives in a session of its own', name)
        if s[0] != 'call' or s[1] not in INPLACE:
            check(not changed and not changed0, '{}: the arguments were changed', name)
            check(not shared or s[1] in VIEWS or s[0] in ('rich',), '{}: changing the result changes the arguments', name)
        check(not diff, '{}: this changed: {}', name, diff)
