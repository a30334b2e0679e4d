"""Small instrument files of every kind, for the checks that do not look at the
contents of the records but at what is done around them."""
from datetime import datetime, timedelta
import numpy as np
from . import gen, nortek_w as N, trdi_w as T, ad2cp_w as A

KINDS = ['vector', 'vector_imu', 'awac', 'vectrino', 'trdi', 'signature', 'signature_dual']
EXT = dict(vector='VEC', vector_imu='vec', awac='wpr', vectrino='vno', trdi='000', signature='ad2cp', signature_dual='ad2cp')
READER = dict(vector='nortek', vector_imu='nortek', awac='nortek', vectrino='nortek', trdi='rdi', signature='signature', signature_dual='signature')
FRAMES = ['earth', 'inst', 'beam']
MAT = np.array([[2.709, -1.3542, -1.3547], [0.0, 2.3445, -2.3451], [0.3443, 0.3447, 0.3462]])


def ii(rng, lo, hi, *a):
    x = rng.integers(lo, hi, *a)
    return int(x) if not a else x


class File:
    """data; ends = offset behind each sample/profile/ensemble; head = length of
    what comes before the first one; recs = offset of each record and the step
    it belongs to (or None); soft = per step, offsets of measured values which
    say nothing about the structure of the file."""

    def __init__(self, kind, frame, n):
        self.kind, self.frame, self.n = kind, frame, n
        self.data, self.ends, self.head, self.soft, self.recs = b'', [], 0, [], []


def build(kind, rng, n=4, frame='inst', magvar=0, ncells=3):
    f = File(kind, frame, n)
    t = datetime(2012, 1, 1) + timedelta(seconds=ii(rng, 0, 10 * 365 * 86400))
    f.t0 = t
    hpr = [(ii(rng, 100, 3500), ii(rng, 0, 300), ii(rng, 0, 1799)) for _ in range(n)]
    coord = FRAMES.index(frame)
    if kind in ('vector', 'vector_imu'):
        f.recs = [(0, 'hw'), (48, 'head'), (272, 'user'), (784, 'checkdata')]
        b = N.hw_cfg() + N.head_cfg(MAT) + N.user_cfg(avg=512, coord=coord)
        b += N.checkdata(10)
        f.recs.append((len(b), 'hdr'))
        b += N.vec_hdr(t, 0)
        f.head = len(b)
        for k in range(n):
            h, p, r = hpr[k]
            f.recs.append((len(b), 'sys'))
            b += N.vec_sys(t + timedelta(seconds=k), 120, 15000, h, p, r, ii(rng, 0, 3000))
            f.recs.append((len(b), 'data'))
            f.soft.append(list(range(len(b) + 2, len(b) + 22)))
            b += N.vec_data(ii(rng, 0, 60000), ii(rng, -9999, 9999, 3), ii(rng, 0, 256, 3), ii(rng, 0, 100, 3), count=k)
            if kind == 'vector_imu':
                m = gen.Rz(rng.uniform(0, 6)) @ gen.Ry(rng.uniform(-1, 1))
                f.recs.append((len(b), 'imu'))
                b += N.imu(204, np.concatenate([rng.normal(0, 1, 9), m.ravel()]), count=k)
            f.ends.append(len(b))
    elif kind == 'awac':
        b = N.hw_cfg(serial='WPR 1234') + N.head_cfg(MAT, serial=b'WAV 5', freq=1000) + N.user_cfg(avg=60, nbins=2 * ncells, coord=coord)
        f.head = len(b)
        f.recs = [(0, 'hw'), (48, 'head'), (272, 'user')]
        for k in range(n):
            h, p, r = hpr[k]
            f.recs.append((len(b), 'data'))
            f.soft.append(list(range(len(b) + 10, len(b) + 118 + 18 * ncells)))
            b += N.awac_profile(t + timedelta(seconds=60 * k), h, p, r, ii(rng, 0, 60000), ii(rng, 0, 3000), ii(rng, -9999, 9999, (3, 2 * ncells)),
                                ii(rng, 0, 256, (3, 2 * ncells)))
            f.ends.append(len(b))
    elif kind == 'vectrino':
        b = N.hw_cfg(serial='VNO 1234') + N.head_cfg(rng.normal(0, 1, (4, 4)), nbeams=4, serial=b'VCN 5', freq=10000)
        b += N.user_cfg(avg=1000, coord=coord, nbeams=4)
        f.recs = [(0, 'hw'), (48, 'head'), (272, 'user')]
        for nm, q in (('event', N.vno_event(t)), ('checkdata', N.checkdata(10, vectrino=True)), ('hdr', N.vno_hdr())):
            f.recs.append((len(b), nm))
            b += q
        f.head = len(b)
        for k in range(n):
            f.recs.append((len(b), 'data'))
            f.soft.append(list(range(len(b) + 2, len(b) + 20)))
            b += N.vno_data(ii(rng, -9999, 9999, 4), ii(rng, 0, 256, 4), ii(rng, 0, 100, 4), 0, k)
            f.ends.append(len(b))
    elif kind == 'trdi':
        g = dict(ver=50, rev=40, cfg0=2 | 8 | 128 * ii(rng, 0, 2), cfg1=1, n_beams=4, n_cells=ncells, ppe=1, cell=100, blank=50, mode=1, mincorr=64,
                 ncode=5, minpg=0, maxerr=2000, tpp=[0, 1, 0], coord=dict(beam=0, inst=1, earth=3)[frame] << 3 | 7, misalign=0, magvar=magvar,
                 src=125, avail=61, bin1=150, xmit=120, wref=[1, 2], ftt=50, tlag=5, bandwidth=0, power=255, serial=77, theta=20)
        b = b''
        for k in range(n):
            h, p, r = hpr[k]
            e = dict(t=t + timedelta(seconds=k), num=k + 1, bit=0, c=1500, depth=10, h=h * 10, p=p * 10 % 2000, r=r * 10 % 2000, sal=35,
                     temp=ii(rng, 0, 3000), mpt=[0, 0, 5], std=[0, 0, 0], adc=[0] * 8, err=0, press=ii(rng, 0, 10**6), pstd=3)
            bl = [T.fixed(g), T.variable(g, e, 'Workhorse'), T.cells(256, ii(rng, -2000, 2000, (ncells, 4)))] + \
                 [T.cells(i, ii(rng, 0, 256, (ncells, 4))) for i in (512, 768, 1024)]
            f.recs.append((len(b), 'data'))
            o, soft = len(b) + 6 + 2 * len(bl), []
            for q in bl:
                lo = dict([(id(bl[0]), len(q)), (id(bl[1]), 14)]).get(id(q), 2)
                hi = 30 if q is bl[1] else len(q)
                soft += range(o + lo, o + hi)
                o += len(q)
            f.soft.append(soft)
            b += T.ensemble(bl)
            f.ends.append(len(b))
    else:
        dual = kind == 'signature_dual'
        cy = dict(earth=0, inst=1, beam=2)[frame]
        names = ['vel', 'amp', 'corr', 'ahrs']
        b = A.header(sr=1, mat=np.round(gen.sig_b2i(25), 4), avg=dict(MIAVG=60, AI=30, BW='BROAD') if dual else None)
        f.head = len(b)
        for k in range(n):
            h, p, r = hpr[k]
            for q in range(1 + (dual and k % 2)):
                nc = ncells + 2 * q
                g = dict(names=names, nb=4, nc=nc, cy=cy, config=A.bits(names), beams_cy=nc | cy << 10 | 4 << 12, serial=100432,
                         cell=1000, blank=10 + q, nomcorr=90, ambig=1000, vscale=-3, power=0)
                e = dict(t=t + timedelta(seconds=k, microseconds=500000 * q), ens=k + 1, c=15000, temp=ii(rng, 0, 3000), press=ii(rng, 0, 10**6),
                         h=h * 10, p=p * 10, r=r, tpress=20, batt=150, mag=ii(rng, -999, 999, 3), acc=ii(rng, -999, 999, 3), xmit=1,
                         tclock=200, error=0, status0=0, status=2 | 7 << 25 | 1 << 22, vel=ii(rng, -9999, 9999, (4, nc)),
                         amp=ii(rng, 0, 256, (4, nc)), corr=ii(rng, 0, 101, (4, nc)), quat=[1, 0, 0, 0], gyro=rng.normal(0, 9, 3),
                         rot=gen.Rz(rng.uniform(0, 6)) @ gen.Ry(rng.uniform(-1, 1)))
                f.recs.append((len(b), 'data'))
                o = len(b) + 10
                if not dual:
                    f.soft.append(list(range(o + 16, o + 30)) + list(range(o + 38, o + 52)) + list(range(o + 76, o + 76 + 16 * nc + 64)))
                b += A.data(21 + q, g, e, names)
            f.ends.append(len(b))
    f.data = b
    return f
