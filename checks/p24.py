"""P24 which reader and which user metadata a file gets."""
from vlib.core import Prop, check, quiet, scratch, Violation
from vlib import files
from vlib.gen import seeds, rng_of
import contextlib
import json
import logging
import os
import numpy as np
from hypothesis import strategies as st
import dolfyn
from dolfyn.io import nortek, nortek2, rdi

logging.disable(logging.CRITICAL)
PROP = Prop('P24', 'a user metadata file is present, or the file is not one the reader can read')
READERS = dict(nortek=nortek.read_nortek, rdi=rdi.read_rdi, signature=nortek2.read_signature)
API = dict(nortek=dolfyn.io.api.read_nortek, rdi=dolfyn.io.api.read_rdi, signature=dolfyn.io.api.read_signature)


@contextlib.contextmanager
def place(home, cwd):
    h, w = os.environ.get('HOME'), os.getcwd()
    os.environ['HOME'] = home
    os.chdir(cwd)
    try:
        yield
    finally:
        os.chdir(w)
        if h is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = h


def dsets(x):
    return list(x) if isinstance(x, tuple) else [x]


def plain(v):
    return v.tolist() if isinstance(v, (np.ndarray, np.generic)) else list(v) if isinstance(v, tuple) else v


def same(got, want, what):
    got, want = dsets(got), dsets(want)
    check(len(got) == len(want), '{}: {} datasets, expected {}', what, len(got), len(want))
    for g, w in zip(got, want):
        check(set(g.variables) == set(w.variables), '{}: variables differ: {}', what, set(g.variables) ^ set(w.variables))
        for v in w.variables:
            check(g[v].dims == w[v].dims and np.array_equal(g[v].values, w[v].values, equal_nan=w[v].dtype.kind == 'f'),
                  '{}: {} differs: {} expected {}', what, v, g[v].values.ravel()[:4], w[v].values.ravel()[:4])
        for k in set(g.attrs) | set(w.attrs):
            check(k in g.attrs and k in w.attrs, '{}: attribute {} {}', what, k, 'is missing' if k in w.attrs else 'should not be there')
            a, b = g.attrs[k], w.attrs[k]
            check(plain(a) == plain(b) or (a != a and b != b), '{}: attribute {}: {!r}, expected {!r}', what, k, a, b)


def reference(f):
    """The file read without any user metadata."""
    with scratch() as d:
        p = os.path.join(d, 'clean.' + files.EXT[f.kind])
        with open(p, 'wb') as fh:
            fh.write(f.data)
        with quiet(), np.errstate(all='ignore'):
            return READERS[files.READER[f.kind]](p, userdata=False)


def apply(ds, meta):
    """What user metadata does to a dataset, with the documented functions."""
    for x in dsets(ds):
        for k, v in meta.items():
            if k == 'inst2head_rotmat':
                m = np.eye(3) if v in ('identity', 'eye', 1) else np.array(v)
                with quiet():
                    dolfyn.set_inst2head_rotmat(x, m, inplace=True)
        for k, v in meta.items():
            if k == 'declination':
                with quiet(), np.errstate(all='ignore'):
                    dolfyn.set_declination(x, v, inplace=True)
            elif k != 'inst2head_rotmat':
                x.attrs[k] = v
    return ds


KEYS = ['latlon', 'site', 'deck_height', 'decimation', 'deployment_config', 'motion accel_filtfreq Hz', 'avg_note', 'décor', 'inst2head_vec', 'time_zone']


def metadata(rng, kind, tag, decl):
    m = dict(source=tag)
    for k in KEYS:
        if rng.random() < .3:
            m[k] = [[39.9402, -105.2283], 'abc', 1.25, 7, True, [1, 2, 3]][int(rng.integers(0, 6))]
            if k == 'inst2head_vec':
                m[k] = [float(x) for x in rng.normal(size=3).round(3)]
    if decl and kind != 'vectrino':
        m['declination'] = [8.28, -15, 0, 0.0, 90.5][int(rng.integers(0, 5))]
    it = list(m.items())
    rng.shuffle(it)
    return dict(it)


case_st = st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(files.KINDS), frame=st.sampled_from(files.FRAMES), magvar=st.sampled_from([0, 0, 830]), decl=st.booleans(),
    folder=st.sampled_from(['', 'a', 'a.b', 'June 2020 v1.2', 'a.userdata', '.hidden', 'ü']),
    name=st.sampled_from(['x.{}', 'x.y.{}', 'x', 'my data.{}', 'x.{}.', '.x', 'x.userdata.{}', 'ENX.{}', 'x.ENX', 'X.{}.bak', 'é.{}']),
    style=st.sampled_from(['abs', 'rel', 'dot', 'up', 'home']), base=st.booleans(), full=st.booleans(), decoys=st.booleans(),
    param=st.sampled_from(['omit', 'omit', True, False, 'path', 'pathhome']), api=st.sampled_from(['read', 'reader', 'api'])))


@PROP.sub(case_st, quick=500, thorough=9000, shards=2)
def userdata(c, ctx):
    rng = rng_of(c['seed'])
    kind = c['kind']
    f = files.build(kind, rng, 4, c['frame'], magvar=c['magvar'])
    want = reference(f)
    rd = files.READER[kind]
    with scratch() as d:
        work = os.path.join(d, c['folder'])
        os.makedirs(work, exist_ok=True)
        name = c['name'].format(files.EXT[kind])
        if not os.path.splitext(name)[1].strip('.') and c['api'] == 'x':
            return
        p = os.path.join(work, name)
        with open(p, 'wb') as fh:
            fh.write(f.data)
        root = os.path.splitext(p)[0]

        def put(q, tag):
            m = metadata(rng, kind, tag, c['decl'])
            with open(q, 'w') as fh:
                json.dump(m, fh)
            return m
        meta = {}
        if c['decoys']:
            # files that belong to other data
            put(os.path.join(work, 'other.userdata.json'), 'decoy')
            put(os.path.join(d, 'userdata.json'), 'decoy')
            put(p + 'z.userdata.json', 'decoy')
            if '.' in os.path.basename(root)[1:]:
                put(root.rsplit('.', 1)[0] + '.userdata.json', 'decoy')
            if c['folder'] == 'a.b':
                put(os.path.join(d, 'a.userdata.json'), 'decoy')
        if c['full'] and root != p:
            meta = put(p + '.userdata.json', 'full')
        if c['base']:
            meta = put(root + '.userdata.json', 'base')
        kw = {}
        param = c['param']
        if param is True or param is False:
            kw['userdata'] = param
            if param is False:
                meta = {}
        elif param != 'omit':
            q = os.path.join(d, 'elsewhere.json')
            meta = put(q, 'explicit')
            kw['userdata'] = q if param == 'path' else '~/elsewhere.json'
        arg, cwd = p, d
        if c['style'] == 'rel':
            arg, cwd = name, work
        elif c['style'] == 'dot':
            arg, cwd = './' + name, work
        elif c['style'] == 'up':
            cwd = os.path.join(d, 'sub')
            os.makedirs(cwd)
            arg = os.path.join('..', c['folder'], name)
        elif c['style'] == 'home':
            arg = os.path.join('~', c['folder'], name)
        ctx.nontrivial(bool(c['base'] or c['full'] or param in ('path', 'pathhome')))
        ctx.label(kind, 'userdata %s' % param, 'path ' + c['style'], 'from ' + str(meta.get('source')))
        fn = dict(read=dolfyn.read, reader=READERS[rd], api=API[rd])[c['api']]
        with place(d, cwd), quiet(), np.errstate(all='ignore'):
            got = fn(arg, **kw)
    if rd == 'rdi':
        # corrected by VMDAS in .ENX files
        want.attrs['vel_gps_corrected'] = int(name.endswith('.ENX'))
    want = apply(want, meta)
    same(got, want, '%s read with %s, userdata=%s, userdata of %s' % (name, c['style'], param, meta.get('source')))


rot_st = st.fixed_dictionaries(dict(
    seed=seeds, imu=st.booleans(), form=st.sampled_from(['identity', 'eye', 1, 1.0, 'matrix', 'matrix', 'ints']), old=st.booleans(), vec=st.sampled_from(['no', 'new', 'old']),
    decl=st.booleans(), frame=st.sampled_from(['inst', 'earth', 'beam']), first=st.booleans()))


@PROP.sub(rot_st, quick=200, thorough=4000)
def rotmat(c, ctx):
    """The orientation and position of the head of a Vector."""
    rng = rng_of(c['seed'])
    f = files.build('vector_imu' if c['imu'] else 'vector', rng, 4, c['frame'])
    form = c['form']
    if form == 'matrix':
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        form = (q * np.sign(np.linalg.det(q))).tolist()
    elif form == 'ints':
        form = [[0, 0, -1], [0, 1, 0], [1, 0, 0]]
    meta = dict(inst2head_rotmat=form)
    if c['vec'] != 'no':
        meta['inst2head_vec'] = [float(x) for x in rng.normal(size=3)]
    if c['decl']:
        meta['declination'] = float(rng.uniform(-90, 90))
    if c['first']:
        meta = dict(reversed(meta.items()))
    disk = {('body' + k[4:] if (k == 'inst2head_rotmat' and c['old']) or (k == 'inst2head_vec' and c['vec'] == 'old') else k): v for k, v in meta.items()}
    ctx.nontrivial()
    ctx.label('form %s' % (c['form'],), 'frame ' + c['frame'], 'old names' if c['old'] else 'new names')
    want = reference(f)
    try:
        want, bad = apply(want, meta), None
    except Exception as e:
        bad = type(e)
    with scratch() as d:
        p = os.path.join(d, 'a.vec')
        with open(p, 'wb') as fh:
            fh.write(f.data)
        with open(os.path.join(d, 'a.userdata.json'), 'w') as fh:
            json.dump(disk, fh)
        try:
            with quiet(), np.errstate(all='ignore'):
                got = dolfyn.read(p)
        except Exception as e:
            if bad is None:
                raise
            check(isinstance(e, bad), 'raised {!r}', e)
            return
    check(bad is None, 'expected {}', bad)
    same(got, want, 'userdata %s' % disk)
    m = np.eye(3) if c['form'] in ('identity', 'eye', 1) else np.array(form, float)
    check(np.array_equal(got['inst2head_rotmat'].values, m), 'inst2head_rotmat {}', got['inst2head_rotmat'].values)


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(files.KINDS), name=st.sampled_from(['x.VEC', 'x.000', 'x.ad2cp', 'x', 'x.txt', 'a.nc', 'x.wpr.000']),
    frame=st.sampled_from(files.FRAMES), nens=st.sampled_from([None, 2, (1, 3)]))), quick=150, thorough=3000)
def dispatch(c, ctx):
    """The contents decide, not the name."""
    f = files.build(c['kind'], rng_of(c['seed']), 4, c['frame'])
    rd = files.READER[c['kind']]
    nens = c['nens']
    if c['kind'] == 'signature_dual' or rd == 'rdi' and isinstance(nens, tuple):
        nens = None
    ctx.nontrivial()
    ctx.label(c['kind'])
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        p = os.path.join(d, c['name'])
        with open(p, 'wb') as fh:
            fh.write(f.data)
        got = dolfyn.read(p, nens=nens)
        same(got, READERS[rd](p, nens=nens), 'read %s' % c['name'])
        make = [x.attrs['inst_make'] + ' ' + x.attrs['inst_type'] for x in dsets(got)]
        check(set(make) == {dict(vector='Nortek ADV', vector_imu='Nortek ADV', vectrino='Nortek ADV', trdi='TRDI ADCP').get(c['kind'], 'Nortek ADCP')},
              '{} read as {}', c['kind'], make)
        kw = dict(signature=dict(debug=False), nortek=dict(do_checksum=True), rdi=dict(vmdas_search=False))[rd]
        same(dolfyn.read(p, nens=nens, **kw), got, 'read %s' % kw)
        for r in READERS:
            if r != rd:
                try:
                    READERS[r](p)
                except Exception:
                    continue
                raise Violation('a %s file was read by the %s reader' % (c['kind'], r))


PTR = b'version https://git-lfs.github.com/spec/v1\noid sha256:8087c4a92f795a7613a87ce09fd4c0d00245ef248b79fcfc5855b6609abe839c\nsize 3000000\n'


@PROP.sub(st.fixed_dictionaries(dict(
    head=st.one_of(st.just(PTR), st.binary(max_size=3), st.binary(max_size=80), st.sampled_from([b'', b'\xa5', b'\x7f', b'CDF\x01', b'\x89HDF\r\n\x1a\n', b'\x00' * 50])),
    name=st.sampled_from(['x.VEC', 'x.000', 'x.ad2cp', 'x', 'x.nc']), userdata=st.booleans(), missing=st.sampled_from([False] * 5 + [True]))),
    quick=150, thorough=3000)
def unreadable(c, ctx):
    """Other files are refused with an IOError, and not changed."""
    if c['head'][:2] in (b'\x7f\x79', b'\x7f\x7f', b'\xa5\x0a', b'\xa5\x05'):
        return
    ctx.nontrivial()
    ctx.label('pointer' if c['head'] == PTR else 'other', 'missing' if c['missing'] else 'there')
    with scratch() as d, quiet():
        p = os.path.join(d, c['name'])
        if not c['missing']:
            with open(p, 'wb') as fh:
                fh.write(c['head'])
        try:
            dolfyn.read(p, userdata=c['userdata'])
        except IOError as e:
            if c['head'] == PTR and not c['missing']:
                check('lfs' in str(e), 'the message does not say that the file is a git-lfs pointer: {}', e)
        else:
            raise Violation('read without an error')
        check(os.listdir(d) == ([] if c['missing'] else [c['name']]), 'files left: {}', os.listdir(d))


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(files.KINDS), frame=st.sampled_from(files.FRAMES), nens=st.sampled_from([None, None, 2]), level=st.integers(0, 3),
    junk=st.lists(st.tuples(st.integers(0, 3), st.binary(min_size=1, max_size=30)), max_size=2), cut=st.sampled_from([0, 0, 0, 1, 30]))),
    quick=120, thorough=2500)
def logged(c, ctx):
    """A debug log changes nothing but writes <name>.dolfyn.log, and leaves no log file open."""
    f = files.build(c['kind'], rng_of(c['seed']), 4, c['frame'])
    b = f.data
    for k, j in sorted(c['junk'], key=lambda q: -q[0]):
        b = b[:f.ends[k]] + j + b[f.ends[k]:]
    b = b[:len(b) - c['cut']]
    rd = files.READER[c['kind']]
    kw = dict(debug_level=c['level']) if rd == 'rdi' else dict(debug=True)
    ctx.nontrivial()
    ctx.label(c['kind'], 'sound' if b == f.data else 'damaged')
    root = logging.getLogger()
    state = root.handlers[:], root.level
    logging.disable(logging.NOTSET)
    try:
        with scratch() as d, quiet(), np.errstate(all='ignore'):
            p = os.path.join(d, 'x.bin')
            with open(p, 'wb') as fh:
                fh.write(b)
            try:
                want = dolfyn.read(p, nens=c['nens'])
            except Exception as e:
                want = e
            before = set(os.listdir(d))
            try:
                got = dolfyn.read(p, nens=c['nens'], **kw)
            except Exception as e:
                got = e
            if isinstance(want, Exception) or isinstance(got, Exception):
                check(type(want) is type(got) and str(want) == str(got), 'with a log: {!r}, without: {!r}', got, want)
            else:
                same(got, want, 'with a log')
                check(not any(isinstance(h, logging.FileHandler) for h in root.handlers), 'the log file is left open')
            check(set(os.listdir(d)) - before == {'x.dolfyn.log'}, 'files written: {}', set(os.listdir(d)) - before)
            with open(p, 'rb') as fh:
                check(fh.read() == b, 'the data file was changed')
    finally:
        for h in root.handlers[:]:
            if h not in state[0]:
                root.removeHandler(h)
                h.close()
        for h in state[0]:
            if h not in root.handlers:
                root.addHandler(h)
        root.setLevel(state[1])
        logging.disable(logging.CRITICAL)


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, frame=st.sampled_from(files.FRAMES), full=st.booleans(), declare=st.booleans(), name=st.sampled_from(['x.{}', 'x', 'x.y.{}']),
    steps=st.lists(st.tuples(st.sampled_from(['put', 'put', 'edit', 'remove', 'other file', 'same', 'off', 'explicit', 'elsewhere']),
                             st.sampled_from(files.KINDS[:-1])), min_size=2, max_size=5))), quick=80, thorough=1500)
def history(c, ctx):
    """Reading again after the metadata, or the file itself, have changed."""
    rng = rng_of(c['seed'])
    name = c['name'].format('dat')
    used = False
    with scratch() as d:
        os.makedirs(os.path.join(d, 'b'))
        p = os.path.join(d, name)
        root = os.path.splitext(p)[0]
        js = (p if c['full'] else root) + '.userdata.json'
        ex = os.path.join(d, 'explicit.json')
        meta, kind, f = {}, None, None
        for i, (what, new) in enumerate(c['steps']):
            if f is None or what == 'other file':
                kind = new
                f = files.build(kind, rng, 4, c['frame'])
                for q in (p, os.path.join(d, 'b', name)):
                    with open(q, 'wb') as fh:
                        fh.write(f.data)
                    if os.path.exists(q + '.index'):
                        os.remove(q + '.index')
                clean = reference(f)
            if what in ('put', 'edit') or what == 'explicit':
                new = metadata(rng, kind, 'step %d' % i, c['declare'])
                with open(ex if what == 'explicit' else js, 'w') as fh:
                    json.dump(new, fh)
                if what != 'explicit':
                    meta = new
            elif what == 'remove' and meta:
                os.remove(js)
                meta = {}
            if kind == 'vectrino' and 'declination' in meta:
                with open(js, 'w') as fh:
                    meta.pop('declination')
                    json.dump(meta, fh)
            used |= bool(meta)
            kw = dict(off=dict(userdata=False), explicit=dict(userdata=ex)).get(what, {})
            m = dict(off={}, explicit=new, elsewhere={}).get(what, meta)
            with quiet(), np.errstate(all='ignore'):
                got = dolfyn.read(os.path.join(d, 'b', name) if what == 'elsewhere' else p, **kw)
            want = [x.copy(deep=True) for x in dsets(clean)]
            if files.READER[kind] == 'rdi':
                want[0].attrs['vel_gps_corrected'] = 0
            want = apply(tuple(want) if isinstance(clean, tuple) else want[0], m)
            same(got, want, '%s file, read %d, "%s"' % (kind, i + 1, what))
            # what is done with the result says nothing about the next one
            for x in dsets(got):
                x.attrs['mine'] = 1
                for k, v in x.attrs.items():
                    if isinstance(v, list):
                        v.append(99)
                for k in x.data_vars:
                    if x[k].values.flags.writeable and x[k].dtype.kind == 'f':
                        x[k].values[...] = -1
            if isinstance(new, dict):
                for v in new.values():
                    if isinstance(v, list):
                        check(99 not in v, 'harness')
    ctx.nontrivial(used)
    ctx.label(*['step ' + s for s, _ in c['steps']])
