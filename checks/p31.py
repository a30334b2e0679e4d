"""P31 damaged instrument files."""
from vlib.core import Prop, check, quiet, scratch, Violation
from vlib import files
from vlib.gen import seeds, rng_of
import logging
import os
import signal
import time
import numpy as np
from hypothesis import strategies as st
import dolfyn

logging.disable(logging.CRITICAL)
PROP = Prop('P31', 'the damaged file differs from the sound one and has at least two steps')
LIMIT = 20          # CPU seconds; a sound file of this size takes 0.05 s


def load(kind, data, **k):
    """Datasets, or the exception raised."""
    with scratch() as d, quiet(), np.errstate(all='ignore'):
        p = os.path.join(d, 'x.' + files.EXT[kind])
        with open(p, 'wb') as fh:
            fh.write(data)
        t = time.process_time()
        try:
            ds = dolfyn.read(p, **k)
        except Exception as e:
            if isinstance(e, (MemoryError, RecursionError, SystemError)):
                raise Violation('%r' % e)
            ds = e
        t = time.process_time() - t
        check(t < LIMIT, '{:.1f} s to read a file of {} bytes', t, len(data))
        with open(p, 'rb') as fh:
            check(fh.read() == data, 'the file was changed')
    return ds if isinstance(ds, Exception) else list(ds) if isinstance(ds, tuple) else [ds]


def equal(a, b, what, drop_a=(), drop_b=()):
    check(set(a.variables) == set(b.variables), '{}: variables {}', what, set(a.variables) ^ set(b.variables))
    for v in a.variables:
        x, y = a[v], b[v]
        check(x.dims == y.dims, '{}: dims of {}', what, v)
        x, y = x.values, y.values
        if a[v].dims and a[v].dims[-1].startswith('time'):
            x, y = np.delete(x, list(drop_a), -1), np.delete(y, list(drop_b), -1)
        check(x.shape == y.shape, '{}: {} has {} steps, expected {}', what, v, x.shape, y.shape)
        check(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f') or (x.dtype.kind == 'M' and (np.isnat(x) == np.isnat(y)).all() and
                                                                      (x == y)[~np.isnat(x)].all()), '{}: {} differs', what, v)


def consistent(ds, data):
    """A dataset as every reader makes them."""
    check(any(dim.startswith('time') for v in ds.data_vars for dim in ds[v].dims), 'no measurements in the result')
    for k in ('inst_make', 'inst_type', 'coord_sys', 'fs', 'rotate_vars'):
        check(k in ds.attrs, 'attribute {} is missing', k)
    for v in ds.variables:
        for dim in ds[v].dims:
            check(dim in ds.coords, 'dimension {} of {} has no coordinate', dim, v)
    for t in ds.coords:
        if t.startswith('time'):
            check(ds[t].dtype.kind == 'M', 'dtype of {}', t)
            check(ds[t].size <= max(len(data), 1), '{} steps from {} bytes', ds[t].size, len(data))


def mutate(b, rng, ops):
    b = bytearray(b)
    for op in ops:
        if len(b) < 4:
            break
        i = int(rng.integers(0, len(b)))
        j = min(len(b), i + int(2**rng.uniform(0, 9)))
        if op == 'byte':
            b[i] = int(rng.integers(0, 256))
        elif op == 'bit':
            b[i] ^= 1 << int(rng.integers(0, 8))
        elif op == 'special':
            b[i] = [0, 255, 0xa5, 0x7f, 1, 128][int(rng.integers(0, 6))]
        elif op == 'zeros':
            b[i:j] = bytes(j - i)
        elif op == 'ones':
            b[i:j] = b'\xff' * (j - i)
        elif op == 'drop':
            del b[i:j]
        elif op == 'double':
            b[i:i] = b[i:j]
        elif op == 'junk':
            b[i:i] = rng.integers(0, 256, j - i).astype('u1').tobytes()
        elif op == 'swap':
            q = int(rng.integers(0, len(b)))
            x = b[i:j]
            del b[i:j]
            b[q:q] = x
        elif op == 'cut':
            b = b[:i]
        elif op == 'head':
            b = b[:2] + b[i:]
    return bytes(b)


OPS = ['byte', 'byte', 'bit', 'special', 'zeros', 'ones', 'drop', 'double', 'junk', 'swap', 'cut', 'head']


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(files.KINDS), frame=st.sampled_from(files.FRAMES), n=st.integers(2, 8), ncells=st.integers(1, 5),
    ops=st.lists(st.sampled_from(OPS), min_size=1, max_size=5), nens=st.sampled_from([None, None, 3]), checksum=st.booleans())),
    quick=9000, thorough=120000, shards=8)
def anything(c, ctx):
    """Whatever the damage: reading ends, with an exception or with a sound dataset."""
    rng = rng_of(c['seed'])
    f = files.build(c['kind'], rng, c['n'], c['frame'], ncells=c['ncells'])
    b = mutate(f.data, rng, c['ops'])
    k = dict(nens=c['nens'])
    if c['checksum'] and files.READER[c['kind']] == 'nortek':
        k['do_checksum'] = True
    if c['kind'] == 'signature_dual':
        k = {}
    r = load(c['kind'], b, **k)
    ctx.nontrivial(b != f.data)
    ctx.label(c['kind'], type(r).__name__ if isinstance(r, Exception) else 'read', *c['ops'])
    if isinstance(r, Exception):
        return
    for ds in r:
        consistent(ds, b)
    again = load(c['kind'], b, **k)
    check(not isinstance(again, Exception), 'read only the first time')
    for x, y in zip(r, again):
        equal(x, y, 'read again')


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(['vector', 'vector_imu', 'awac', 'vectrino', 'trdi', 'signature']), frame=st.sampled_from(files.FRAMES),
    n=st.integers(3, 8), ncells=st.integers(1, 5), k=st.integers(0, 99), m=st.integers(1, 5), nens=st.booleans())), quick=600, thorough=15000, shards=2)
def values(c, ctx):
    """Damaged values of one step leave all others as they are."""
    rng = rng_of(c['seed'])
    kind, n = c['kind'], c['n']
    f = files.build(kind, rng, n, c['frame'], ncells=c['ncells'])
    k = c['k'] % n
    b = bytearray(f.data)
    for i in rng.choice(f.soft[k], min(c['m'], len(f.soft[k])), replace=False):
        b[int(i)] ^= int(rng.integers(1, 256))
    ctx.nontrivial()
    ctx.label(kind)
    kw = dict(nens=2) if c['nens'] and kind != 'vector_imu' else {}
    a, z = load(kind, f.data, **kw), load(kind, bytes(b), **kw)
    for x in (a, z):
        if isinstance(x, Exception):
            raise Violation('%s with a damaged value: %r' % (kind, x))
    m = a[0].time.size
    check(m >= (2 if kw else n - (kind == 'trdi')), '{} steps', m)
    d = [k] if k < m else []
    equal(z[0], a[0], 'step %d of a %s file damaged' % (k, kind), d, d)
    for key in a[0].attrs:
        check(np.array_equal(a[0].attrs[key], z[0].attrs.get(key)), 'attribute {}', key)


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(['vector', 'vector_imu', 'awac', 'vectrino']), frame=st.sampled_from(files.FRAMES),
    n=st.integers(2, 6), ncells=st.integers(1, 5), k=st.integers(0, 999), bit=st.integers(0, 7), tail=st.booleans())), quick=500, thorough=12000, shards=2)
def checksum(c, ctx):
    """do_checksum=True: a damaged record is not taken."""
    rng = rng_of(c['seed'])
    f = files.build(c['kind'], rng, c['n'], c['frame'], ncells=c['ncells'])
    r = load(c['kind'], f.data, do_checksum=True)
    check(not isinstance(r, Exception), 'a sound {} file is refused: {!r}', c['kind'], r)
    q = c['k'] % len(f.recs)
    lo, hi = f.recs[q][0] + 2, (f.recs[q + 1][0] if q + 1 < len(f.recs) else len(f.data))
    b = bytearray(f.data)
    i = hi - 1 - int(rng.integers(0, 2)) if c['tail'] else int(rng.integers(lo, hi))
    b[i] ^= 1 << c['bit']
    ctx.nontrivial()
    ctx.label(c['kind'], f.recs[q][1], 'checksum itself' if i >= hi - 2 else 'contents')
    r = load(c['kind'], bytes(b), do_checksum=True)
    check(isinstance(r, Exception), 'a {} file with a damaged {} record (byte {} of {}) was read with do_checksum=True', c['kind'], f.recs[q][1], i - lo + 2, hi - lo + 2)


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, kind=st.sampled_from(['vector_imu', 'vector', 'vector_imu', 'awac', 'vectrino']), n=st.integers(4, 9), ncells=st.integers(1, 4), k=st.integers(0, 99),
    how=st.sampled_from(['sync', 'sync', 'junk', 'imu', 'sys']), v=st.integers(0, 255), m=st.integers(1, 40), checksum=st.booleans())), quick=300, thorough=8000, shards=2)
def resync(c, ctx):
    """A record whose first byte is damaged is lost, alone; junk between two
    records costs nothing."""
    rng = rng_of(c['seed'])
    kind, n = c['kind'], c['n']
    f = files.build(kind, rng, n, 'inst', ncells=c['ncells'])
    recs = [o for o, nm in f.recs if nm == 'data'] + [len(f.data)]
    k = 1 + c['k'] % (n - 1)
    b = bytearray(f.data)
    a = load(kind, f.data)
    check(not isinstance(a, Exception) and a[0].time.size == n, 'sound file')
    a = a[0]
    drop, hole, clock = [], [], kind == 'awac' or kind.startswith('vector') and c['how'] == 'junk'
    how = c['how'] if c['how'] in ('sync', 'junk') or kind == 'vector_imu' or (kind, c['how']) == ('vector', 'sys') else 'sync'
    c = dict(c, how=how)
    if how == 'imu' and k == n - 1:
        return                  # (the last sample is incomplete, and left out)
    if how in ('imu', 'sys'):
        o = [x for x, nm in f.recs if nm == how][k]
        z = min([x for x, nm in f.recs if x > o] + [len(b)])
        if 0xa5 in b[o + 1:z] or c['v'] == 0xa5:
            return
        b[o] = c['v']
        hole = [k] if how == 'imu' else []
        clock = how == 'imu'
    elif c['how'] == 'sync':
        o = recs[k]
        body = b[o + 1:f.ends[k]]
        if 0xa5 in body or c['v'] == 0xa5:
            return              # looks like another record
        b[o] = c['v']
        drop = [k]
    else:
        j = rng.integers(0, 0xa5, 2 * c['m']).astype('u1').tobytes()
        o = recs[k] if not kind.startswith('vector') else recs[k] - 28
        b[o:o] = j
    ctx.nontrivial()
    ctx.label(kind, c['how'])
    z = load(kind, bytes(b), **(dict(do_checksum=True) if c['checksum'] else {}))
    check(not isinstance(z, Exception), '{} {} in a {} file: {!r}', c['how'], k, kind, z)
    z = z[0]
    w = [i for i in range(n) if i not in drop]
    check(z.time.size == len(w), '{} in record {}: {} of {} steps read', c['how'], k, z.time.size, n)
    for v in ('vel', 'amp', 'corr', 'pressure'):
        if v in a:
            check(np.array_equal(z[v].values, a[v].values[..., w]), '{} in record {}: {} differs', c['how'], k, v)
    for v in ('accel', 'angrt', 'mag', 'orientmat'):
        if v in a and (v != 'orientmat' or kind == 'vector_imu'):
            x = a[v].values[..., w].copy()
            x[..., hole] = np.nan
            check(np.array_equal(z[v].values, x, equal_nan=True), '{} in record {}: {} differs: {}, expected {}', c['how'], k, v, z[v].values.reshape(-1, len(w))[0], x.reshape(-1, len(w))[0])
    # (a Vectrino has no clock of its own, that of a Vector is fitted to the samples)
    if clock:
        check((z.time.values == a.time.values[w]).all(), '{} in record {}: time differs', c['how'], k)


@PROP.finding('nortek_bad_id')
def bad_id():
    f = files.build('vector', rng_of(3), 8)
    b = bytearray(f.data)
    b[f.recs[-8][0] + 1] = 0x93
    r = load('vector', bytes(b))
    check(not isinstance(r, Exception) and r[0].time.size >= 7, 'samples behind a record with a damaged ID')


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, frame=st.sampled_from(files.FRAMES), n=st.integers(5, 9), ncells=st.integers(1, 4), k=st.integers(0, 99),
    how=st.sampled_from(['sync', 'size', 'junk', 'junk']), bit=st.integers(0, 7), m=st.sampled_from([1, 1, 2, 3, 8, 40, 400]),
    zero=st.booleans())), quick=500, thorough=9000, shards=2)
def resync_trdi(c, ctx):
    """An ensemble whose header is damaged is lost, and so can be the one
    before it (which has to be followed by a header), but no others; junk
    between two ensembles costs no more than the one before it."""
    rng = rng_of(c['seed'])
    n = c['n']
    f = files.build('trdi', rng, n, c['frame'], ncells=c['ncells'])
    o = [x for x, nm in f.recs if nm == 'data']
    a = load('trdi', f.data)
    check(not isinstance(a, Exception) and a[0].time.size >= n - 1, 'sound file')
    a = a[0]
    b = bytearray(f.data)
    k = 1 + c['k'] % (n - 2)
    lost = {k - 1}
    if c['how'] == 'junk':
        j = rng.integers(0, 0x7f, c['m']).astype('u1')
        if c['zero']:
            j[:] = 0
        b[o[k]:o[k]] = j.tobytes()
    else:
        b[o[k] + (2 if c['how'] == 'size' else 0) + int(rng.integers(0, 2))] ^= 1 << c['bit']
        lost.add(k)
    ctx.nontrivial()
    ctx.label(c['how'], 'one byte' if c['m'] == 1 and c['how'] == 'junk' else '')
    z = load('trdi', bytes(b))
    check(not isinstance(z, Exception), '{} {}: {!r}', c['how'], k, z)
    z = z[0]
    num = [int(x) for x in z.number.values]
    all_ = [int(x) for x in a.number.values]
    check(len(set(num)) == len(num) and set(num) <= set(all_), 'ensembles {} of {}', num, all_)
    w = [all_.index(x) for x in num]
    check(w == sorted(w), 'order of ensembles {}', num)
    miss = set(range(len(all_))) - set(w)
    check(miss <= lost | {n - 1, len(all_) - 1} or miss <= lost, '{} at {} of {} ensembles: {} are missing', c['how'], k, n, sorted(miss))
    for v in ('vel', 'amp', 'corr', 'prcnt_gd', 'pitch', 'time'):
        if v in a:
            check(np.array_equal(z[v].values, a[v].values[..., w], equal_nan=a[v].dtype.kind == 'f'), '{} in ensemble {}: {} differs', c['how'], k, v)


@PROP.sub(st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(4, 8), ncells=st.integers(1, 4), k=st.integers(0, 99), how=st.sampled_from(['head', 'junk']),
    i=st.integers(0, 9), bit=st.integers(0, 7), m=st.integers(1, 40))), quick=300, thorough=6000, shards=2)
def prefix_signature(c, ctx):
    """What precedes a damaged header of a Signature record is read all the
    same, or the file is refused; what is read is right."""
    rng = rng_of(c['seed'])
    n = c['n']
    f = files.build('signature', rng, n, 'beam', ncells=c['ncells'])
    o = [x for x, nm in f.recs if nm == 'data']
    per = len(o) // n
    a = load('signature', f.data)
    check(not isinstance(a, Exception) and a[0].time.size == n, 'sound file')
    a = a[0]
    k = 2 + c['k'] % (n - 2)
    b = bytearray(f.data)
    if c['how'] == 'junk':
        b[o[k * per]:o[k * per]] = rng.integers(0, 256, c['m']).astype('u1').tobytes()
    else:
        b[o[k * per] + c['i']] ^= 1 << c['bit']
    ctx.nontrivial()
    z = load('signature', bytes(b))
    ctx.label(c['how'], type(z).__name__ if isinstance(z, Exception) else 'read')
    if isinstance(z, Exception):
        return
    z = z[0]
    m = min(k - 1, z.time.size)
    check(z.time.size >= k - 1, '{} at {} of {}: {} ensembles', c['how'], k, n, z.time.size)
    for v in ('vel', 'amp', 'corr', 'pressure', 'pitch', 'time'):
        check(np.array_equal(z[v].values[..., :m], a[v].values[..., :m], equal_nan=a[v].dtype.kind == 'f'), '{} before ensemble {} differs', v, k)


@PROP.finding('ad2cp_resync')
def ad2cp_resync():
    f = files.build('signature', rng_of(3), 8, 'beam', ncells=3)
    o = [x for x, nm in f.recs if nm == 'data']
    i = o[3 * len(o) // 8]
    r = load('signature', f.data[:i] + b'\1\2\3\4\5' + f.data[i:])
    check(not isinstance(r, Exception) and r[0].time.size >= 7, 'ensembles behind bytes between two Signature records')
