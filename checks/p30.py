"""P30 the command-line scripts give what the library gives."""
from vlib.boot import REPO
from vlib.core import Prop, check, close, quiet, scratch
from vlib import files, gen
from vlib.gen import seeds, rng_of
import contextlib
import io
import json
import logging
import os
import runpy
import subprocess
import sys
import numpy as np
import scipy.io as sio
from hypothesis import strategies as st
import dolfyn
import dolfyn.adv.api as avm

logging.disable(logging.CRITICAL)
PROP = Prop('P30', 'the script wrote at least one file, which was compared')
SCRIPTS = os.path.join(REPO, 'scripts')


def run(script, args, cwd, sub=False):
    """Run a script as from the command line in folder cwd."""
    path = os.path.join(SCRIPTS, script)
    if sub:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-W', 'ignore', path] + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
        return r.returncode, r.stderr[-300:]
    argv, w = sys.argv, os.getcwd()
    sys.argv = [path] + args
    os.chdir(cwd)
    try:
        with quiet(), np.errstate(all='ignore'), contextlib.redirect_stderr(io.StringIO()) as err:
            try:
                runpy.run_path(path, run_name='__main__')
            except SystemExit as e:
                return e.code or 0, err.getvalue()[-300:]
            except Exception as e:
                return 1, '%s: %s' % (type(e).__name__, e)
        return 0, ''
    finally:
        sys.argv = argv
        os.chdir(w)


def mat(p):
    return sio.loadmat(p, struct_as_record=False, squeeze_me=False)


def tiny(x):
    x = np.abs(x[np.isfinite(x)]) if x.dtype.kind in 'fc' else np.abs(x)
    return 1e-9 + 3e-6 * x.max() if x.size else 1e-9


def same_mat(a, b, what):
    if isinstance(b, sio.matlab.mat_struct):
        check(set(a._fieldnames) == set(b._fieldnames), '{}: {} are not the same', what, set(a._fieldnames) ^ set(b._fieldnames))
        for k in b._fieldnames:
            same_mat(getattr(a, k), getattr(b, k), what + '.' + k)
    elif isinstance(b, np.ndarray) and b.dtype == object:
        check(a.shape == b.shape, '{}: shape {}, expected {}', what, a.shape, b.shape)
        for x, y in zip(a.ravel(), b.ravel()):
            same_mat(x, y, what)
    elif isinstance(b, np.ndarray):
        check(a.shape == b.shape, '{}: shape {}, expected {}', what, a.shape, b.shape)
        if b.dtype.kind in 'fc':
            check(a.dtype.kind in 'fc' and np.allclose(a, b, 1e-5, tiny(b), equal_nan=True), '{}: {}, expected {}', what, a.ravel()[:4], b.ravel()[:4])
        else:
            check(np.array_equal(a, b), '{}: {}, expected {}', what, a.ravel()[:4], b.ravel()[:4])
    else:
        check(a == b, '{}: {!r}, expected {!r}', what, a, b)


def compare_mat(got, want_ds, what, tmp):
    with quiet(), np.errstate(all='ignore'):
        dolfyn.save_mat(want_ds, tmp)
    a, b = mat(got), mat(tmp)
    os.remove(tmp)
    for k in ('vars', 'coords', 'config', 'units', 'long_name', 'standard_name'):
        check(k in a, '{}: no {}', what, k)
        same_mat(a[k], b[k], what + ': ' + k)


def compare_nc(got, w, what):
    with quiet(), np.errstate(all='ignore'):
        g = dolfyn.load(got)
    check(set(g.variables) == set(w.variables), '{}: variables differ: {}', what, set(g.variables) ^ set(w.variables))
    for v in w.variables:
        x, y = g[v].values, w[v].values
        check(g[v].dims == w[v].dims, '{}: dims of {}', what, v)
        if y.dtype.kind == 'M':
            check((np.abs(x - y) < np.timedelta64(2, 'us')).all(), '{}: {}: {}, expected {}', what, v, x[:4], y[:4])
        elif y.dtype.kind == 'f':
            check(np.allclose(x, y, 1e-5, tiny(y), equal_nan=True), '{}: {}: {}, expected {}', what, v, x.ravel()[:4], y.ravel()[:4])
        else:
            check(np.array_equal(x, y), '{}: {}: {}, expected {}', what, v, x.ravel()[:4], y.ravel()[:4])
    for k, x in w.attrs.items():
        y = g.attrs.get(k)
        check(y is not None and np.array_equal(np.asarray(x), np.asarray(y)), '{}: attribute {}: {!r}, expected {!r}', what, k, y, x)


STEM = st.text('vecVECmat.a1_- x', min_size=1, max_size=7).filter(lambda s: s[0] not in '.- ' and s[-1] not in '. ')


@st.composite
def case(draw, kinds, exts):
    n = draw(st.integers(1, 3))
    stems = draw(st.lists(STEM, min_size=n, max_size=n, unique_by=lambda s: s.lower()))
    return dict(seed=draw(seeds), stems=stems, kinds=[draw(st.sampled_from(kinds)) for _ in stems], exts=[draw(st.sampled_from(exts)) for _ in stems],
                folders=[draw(st.sampled_from(['', '', 'sub', 'a.vec', 'June 2020 v1.2'])) for _ in stems],
                style=draw(st.sampled_from(['rel', 'dot', 'abs'])))


def place(c, d, rng, build):
    """Write the files; gives (argument, path without extension, File)."""
    out = []
    for i, (stem, kind, ext, folder) in enumerate(zip(c['stems'], c['kinds'], c['exts'], c['folders'])):
        os.makedirs(os.path.join(d, folder), exist_ok=True)
        e = files.EXT[kind] if ext is None else ext
        rel = os.path.join(folder, stem + '.' + e)
        f = build(kind, rng, i)
        with open(os.path.join(d, rel), 'wb') as fh:
            fh.write(f.data)
        arg = dict(rel=rel, dot=os.path.join('.', rel), abs=os.path.join(d, rel))[c['style']]
        out.append((arg, os.path.join(d, folder, stem), os.path.join(d, rel), f))
    return out


def listing(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if not f.endswith('.index'))


conv_st = case(['vector', 'vector_imu', 'awac', 'vectrino', 'trdi', 'signature'], [None, None, None, 'dat', 'x'])


def convert_case(c, ctx, sub):
    rng = rng_of(c['seed'])
    with scratch() as d:
        fl = place(c, d, rng, lambda kind, rng, i: files.build(kind, rng, 3 + i, ['earth', 'inst', 'beam'][int(rng.integers(0, 3))]))
        before = listing(d)
        rc, err = run('binary2mat.py', [a for a, *_ in fl], d, sub)
        check(rc == 0, 'binary2mat.py {} failed: {}', [a for a, *_ in fl], err)
        want = sorted(set(before) | {root + '.mat' for _, root, *_ in fl})
        check(listing(d) == want, 'files {}, expected {}', [x[len(d):] for x in listing(d)], [x[len(d):] for x in want])
        with scratch() as e:
            for arg, root, p, f in fl:
                with open(p, 'rb') as fh:
                    check(fh.read() == f.data, '{} was changed', arg)
                with quiet(), np.errstate(all='ignore'):
                    ds = dolfyn.read(p)
                compare_mat(root + '.mat', ds, arg, os.path.join(e, 'want.mat'))
    ctx.nontrivial()
    ctx.label('%d files' % len(fl), *c['kinds'])


@PROP.sub(conv_st, quick=150, thorough=3000)
def binary2mat(c, ctx):
    convert_case(c, ctx, False)


@st.composite
def motion_case(draw):
    c = draw(case(['vector_imu'], ['vec', 'VEC', 'dat']))
    n = len(c['stems'])
    c.update(fixed=draw(st.booleans()), mat=draw(st.booleans()), nc=draw(st.booleans()),
             f=draw(st.sampled_from([None, None, '0.1', '.02', '0.05', '1e-1'])),
             frames=[draw(st.sampled_from(['earth', 'inst', 'beam'])) for _ in range(n)],
             filt=[draw(st.sampled_from([None, .03, .2])) for _ in range(n)], decl=[draw(st.sampled_from([None, 12.5, -8])) for _ in range(n)],
             order=draw(st.permutations(range(4))))
    return c


def motion_once(c, ctx, sub):
    rng = rng_of(c['seed'])
    with scratch() as d:
        fl = place(c, d, rng, lambda kind, rng, i: files.build(kind, rng, 40 + 5 * i, c['frames'][i]))
        meta = []
        for i, (arg, root, p, f) in enumerate(fl):
            m = {}
            if not c['fixed']:
                m['inst2head_rotmat'] = 'identity' if rng.random() < .3 else gen.Rz(rng.uniform(0, 6)).dot(gen.Ry(rng.uniform(-1, 1))).round(12).tolist()
                m['inst2head_vec'] = [float(x) for x in rng.normal(size=3).round(3)]
            if c['filt'][i]:
                m['motion accel_filtfreq Hz'] = c['filt'][i]
            if c['decl'][i] is not None:
                m['declination'] = c['decl'][i]
            if m:
                with open(root + '.userdata.json', 'w') as fh:
                    json.dump(m, fh)
            meta.append(m)
        before = listing(d)
        opts = [['--fixed-head'] if c['fixed'] else [], ['--mat'] if c['mat'] else [], ['--nc'] if c['nc'] else [], ['-f', c['f']] if c['f'] else []]
        args = sum([opts[i] for i in c['order']], [])
        args = args + [a for a, *_ in fl] if rng.random() < .7 else [a for a, *_ in fl] + args
        rc, err = run('motcorrect_vector.py', args, d, sub)
        check(rc == 0, 'motcorrect_vector.py {} failed: {}', args, err)
        out = (['.mat'] if c['mat'] or not c['nc'] else []) + (['.nc'] if c['nc'] else [])
        want = sorted(set(before) | {root + e for _, root, *_ in fl for e in out})
        check(listing(d) == want, 'files {}, expected {}', [x[len(d):] for x in listing(d)], [x[len(d):] for x in want])
        with scratch() as tmp:
            for i, (arg, root, p, f) in enumerate(fl):
                with open(p, 'rb') as fh:
                    check(fh.read() == f.data, '{} was changed', arg)
                with quiet(), np.errstate(all='ignore'):
                    ds = dolfyn.read(p)
                    if c['fixed']:
                        dolfyn.set_inst2head_rotmat(ds, np.eye(3), inplace=True)
                        ds.attrs['inst2head_vec'] = np.array([0, 0, -.21])
                    fq = float(c['f']) if c['f'] else c['filt'][i] or 0.03333
                    ds = avm.correct_motion(ds, accel_filtfreq=fq)
                check(ds.coord_sys == 'earth', 'model')
                R = ds.orientmat.values.astype(float)
                ang = dict(heading=np.rad2deg(np.arctan2(R[0, 0], R[0, 1])) % 360, pitch=np.rad2deg(np.arcsin(R[0, 2].clip(-1, 1))),
                           roll=np.rad2deg(np.arctan2(R[1, 2], R[2, 2])))
                for e in out:
                    w = arg + ' ' + ' '.join(args) + ' -> ' + e
                    if e == '.mat':
                        g = mat(root + e)['vars'][0, 0]
                        got = {k: getattr(g, k).ravel() for k in ang}
                    else:
                        with quiet():
                            g = dolfyn.load(root + e)
                        got = {k: g[k].values for k in ang}
                        g.close()
                    for k, x in ang.items():
                        q = (got[k] - x + 180) % 360 - 180
                        check(q.shape == x.shape and (np.abs(q) < .05).all(), '{}: {}: {}, expected {}', w, k, got[k][:4], x[:4])
                        ds[k].values = got[k]
                    if e == '.mat':
                        compare_mat(root + e, ds, w, os.path.join(tmp, 'want.mat'))
                    else:
                        compare_nc(root + e, ds, w)
    ctx.nontrivial()
    ctx.label('%d files' % len(fl), 'fixed head' if c['fixed'] else 'userdata', *out)


@PROP.sub(motion_case(), quick=160, thorough=3000, shards=2)
def motcorrect(c, ctx):
    motion_once(c, ctx, False)


@PROP.sub(st.tuples(motion_case(), conv_st), quick=3, thorough=15)
def process(c, ctx):
    """The scripts in processes of their own."""
    motion_once(c[0], ctx, True)
    convert_case(c[1], ctx, True)


@PROP.sub(st.fixed_dictionaries(dict(seed=seeds, missing=st.sampled_from(['rotmat', 'vec', 'both']), nc=st.booleans(), kind=st.sampled_from(['vector_imu', 'vector_imu', 'vector']))),
          quick=30, thorough=300)
def refused(c, ctx):
    """Without the geometry of the head nothing is corrected, and nothing written."""
    rng = rng_of(c['seed'])
    with scratch() as d:
        with open(os.path.join(d, 'v.VEC'), 'wb') as fh:
            fh.write(files.build(c['kind'], rng, 40, 'inst').data)
        m = {}
        if c['missing'] != 'rotmat':
            m['inst2head_rotmat'] = 'identity'
        if c['missing'] != 'vec':
            m['inst2head_vec'] = [1, 2, 3]
        if c['missing'] == 'both':
            m = {}
        with open(os.path.join(d, 'v.userdata.json'), 'w') as fh:
            json.dump(m, fh)
        before = listing(d)
        rc, err = run('motcorrect_vector.py', ['v.VEC'] + (['--nc'] if c['nc'] else []), d)
        check(rc != 0, 'motcorrect_vector.py accepted a file without the geometry of the head ({})', c['missing'])
        check(listing(d) == before, 'motcorrect_vector.py wrote {} without the geometry of the head', set(listing(d)) - set(before))
    ctx.nontrivial()
