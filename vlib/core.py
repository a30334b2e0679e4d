"""Property registry, Hypothesis driver, evidence and replay handling."""
from . import boot  # noqa: F401  (first)

import base64
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, settings
import hypothesis.internal.conjecture.engine as _eng

_eng.MAX_SHRINKING_SECONDS = 40

VERIF = boot.VERIF
REPO = boot.REPO
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
CPU_LIMIT = 90          # CPU seconds for one generated case (normal: < 1 s)


class Violation(AssertionError):
    pass


class Hang(BaseException):
    pass


class HarnessError(Exception):
    pass


def check(cond, msg='property violated', *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def _short(x, n=8):
    x = np.asarray(x)
    f = x.ravel()
    if f.size <= n:
        return np.array2string(x, threshold=50)
    return '%s... shape=%s' % (np.array2string(f[:n]), x.shape)


def close(got, want, rtol=1e-6, atol=1e-9, what='value'):
    """got == want within tolerance; NaN patterns and shapes must agree."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape))
    if g.size == 0:
        return
    if g.dtype.kind not in 'biufc' or w.dtype.kind not in 'biufc':
        if not np.array_equal(g, w):
            raise Violation('%s: got %s expected %s' % (what, _short(g), _short(w)))
        return
    gc = g.astype(complex)
    wc = w.astype(complex)
    gn, wn = np.isnan(gc), np.isnan(wc)
    if not np.array_equal(gn, wn):
        i = np.argwhere(gn != wn)[0]
        raise Violation('%s: NaN pattern differs at %s: got %r expected %r (%d places)'
                        % (what, tuple(i), g[tuple(i)], w[tuple(i)], (gn != wn).sum()))
    with np.errstate(all='ignore'):
        ok = gn | (gc == wc) | (np.abs(gc - wc) <= atol + rtol * np.abs(wc))
    if not ok.all():
        i = np.argwhere(~ok)[0]
        raise Violation('%s: at index %s got %r expected %r (%d of %d differ)'
                        % (what, tuple(i), g[tuple(i)], w[tuple(i)], (~ok).sum(), ok.size))


def raises(exc, fn, *a, **k):
    """fn must raise one of exc (documented rejection)."""
    what = k.pop('_what', getattr(fn, '__name__', 'call'))
    try:
        with quiet():
            fn(*a, **k)
    except exc:
        return
    raise Violation('%s: expected it to be rejected with %s, but it returned'
                    % (what, exc))


@contextlib.contextmanager
def quiet():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='dlfn_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- registry
class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards


class Prop:
    """One listed property = several generated sub-checks + known findings."""

    def __init__(self, pid, rule, assumptions=(), boost=2):
        self.pid, self.rule, self.boost = pid, rule, boost
        self.assumptions = list(assumptions)
        self.subs = []
        self.finding_fns = {}

    def sub(self, strategy, quick=100, thorough=None, shards=1, name=None):
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, strategy, fn, quick * self.boost if quick >= 12 else quick,
                                 thorough or quick * 25, shards))
            return fn
        return deco

    def finding(self, key):
        """Register the demonstration of one known finding: the function raises
        (a Violation, or the code's own exception) while the defect is there."""
        def deco(fn):
            self.finding_fns[key] = fn
            return fn
        return deco


class Ctx:
    """Per-case recorder handed to each property function."""

    def __init__(self):
        self.n = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self._case = None
        self._nt = False

    def start(self, case):
        self.n += 1
        self._case = case
        self._nt = False

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def label(self, *labels):
        for s in labels:
            self.labels[str(s)] = self.labels.get(str(s), 0) + 1

    def finish(self):
        if self._nt:
            h = hashlib.blake2b(pickle.dumps(self._case, protocol=4),
                                digest_size=8).hexdigest()
            if h not in self.keys:
                self.keys.add(h)
                if len(self.samples) < 2:
                    self.samples.append(describe(self._case))


def describe(case, limit=700):
    def conv(o):
        if isinstance(o, np.ndarray):
            return {'ndarray': list(o.shape), 'dtype': str(o.dtype),
                    'head': [repr(v) for v in o.ravel()[:6].tolist()]}
        if isinstance(o, (np.integer, np.floating, np.bool_)):
            return o.item()
        if isinstance(o, dict):
            return {str(k): conv(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [conv(v) for v in o[:40]]
        if isinstance(o, (str, int, float, bool)) or o is None:
            return o
        return repr(o)[:200]
    s = json.dumps(conv(case), default=repr)
    return s if len(s) <= limit else s[:limit] + '...'


def _in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + os.sep):
            return True
    return False


def _alarm(*a):
    raise Hang('case exceeded %d CPU seconds' % CPU_LIMIT)


def run_case(sub, case, ctx):
    ctx.start(case)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with quiet():
            sub.fn(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    ctx.finish()


def classify_exc(e, strict=False):
    """-> 'violation' | 'harness'."""
    if isinstance(e, (Violation, Hang)):
        return 'violation'
    if isinstance(e, (HarnessError, MemoryError, ImportError)):
        return 'harness'
    if _in_repo(e.__traceback__):
        return 'violation'      # the code under test failed on a valid input
    # An oracle that runs through on every result of the right form failed on
    # this one (None, a missing variable or attribute, a shape that does not
    # fit): the result is not what the property says.
    return 'harness' if strict else 'violation'


def exec_sub(pid, idx, shard, nshards, tier):
    """Worker: run one shard of one sub-check; returns a result dict."""
    mod = load_check(pid)
    prop = mod.PROP
    sub = prop.subs[idx]
    total = sub.quick if tier == 'quick' else sub.thorough
    n = max(1, total // nshards)
    ctx = Ctx()
    last = {}
    t0 = time.time()

    def body(case):
        try:
            run_case(sub, case, ctx)
        except (Hang, Exception) as e:
            last['case'], last['exc'] = case, e
            raise

    test = given(case=sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    derandomize=False, print_blob=False,
                    verbosity=Verbosity.quiet, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(SEED * 10007 + shard * 101 + idx)(test)
    out = dict(sub=sub.name, idx=idx, shard=shard)
    try:
        with quiet():
            test()
        out['status'] = 'ok'
    except (Hang, Exception) as e:
        ex = last.get('exc', e)
        if isinstance(e, hypothesis.errors.HypothesisException) and 'exc' not in last:
            out['status'] = 'harness'
        else:
            out['status'] = classify_exc(ex)
        if isinstance(e, hypothesis.errors.Flaky) or 'Flaky' in type(e).__name__:
            out['flaky'] = True
        out['error'] = '%s: %s' % (type(ex).__name__, str(ex)[:1500])
        out['trace'] = ''.join(traceback.format_exception(ex))[-4000:]
        if 'case' in last:
            out['case'] = base64.b64encode(pickle.dumps(last['case'])).decode()
            out['desc'] = describe(last['case'], 4000)
    out.update(n=ctx.n, keys=sorted(ctx.keys), labels=ctx.labels,
               samples=ctx.samples, wall=time.time() - t0)
    return out


_cache = {}


def load_check(pid):
    if pid not in _cache:
        import importlib
        _cache[pid] = importlib.import_module('checks.' + pid.lower())
    return _cache[pid]


def _child(args, q):
    try:
        q.put(exec_sub(*args))
    except BaseException as e:   # noqa
        q.put(dict(sub=str(args[1]), idx=args[1], shard=args[2], status='harness',
                   error=repr(e), trace=traceback.format_exc()[-3000:],
                   n=0, keys=[], labels={}, samples=[], wall=0))


def _pool_run(tasks, nproc):
    """Run tasks in forked children, at most nproc at once (fork: no re-import)."""
    ctx = mp.get_context('fork')
    results = []
    pending = list(tasks)[::-1]
    running = {}
    while pending or running:
        while pending and len(running) < nproc:
            t = pending.pop()
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(t, q))
            p.start()
            running[p] = (t, q)
        time.sleep(0.01)
        for p in list(running):
            t, q = running[p]
            if not q.empty():
                results.append(q.get())
                p.join()
                del running[p]
            elif not p.is_alive():
                p.join()
                if not q.empty():
                    results.append(q.get())
                else:
                    results.append(dict(sub=str(t[1]), idx=t[1], shard=t[2],
                                        status='harness',
                                        error='worker died, exit %s' % p.exitcode,
                                        n=0, keys=[], labels={}, samples=[], wall=0))
                del running[p]
    return results


def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == pid]


def main(pid, tier=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = load_check(pid)
    prop = mod.PROP
    level = getattr(mod, 'LEVEL', 'exploration')

    # known findings: replay each demonstration
    for k in known_findings(pid):
        fn = prop.finding_fns.get(k['key'])
        if fn is None:
            print('ERROR: known finding %s has no demonstration' % k['key'])
            return 2
        try:
            with quiet():
                fn()
        except Exception as e:
            if classify_exc(e, strict=True) == 'violation':
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            else:       # the generated cases below judge what this is
                print('NOTE: demonstration %s ended with %r' % (k['key'], e))

    nproc = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    tasks = []
    for i, s in enumerate(prop.subs):
        if only and s.name != only:
            continue
        sh = s.shards if tier == 'quick' else max(s.shards, 4)
        for k in range(sh):
            tasks.append((pid, i, k, sh, tier))
    res = _pool_run(tasks, nproc)

    viol = [r for r in res if r['status'] == 'violation']
    bad = [r for r in res if r['status'] == 'harness']
    per = {}
    for r in res:
        p = per.setdefault(r['sub'], dict(evaluations=0, keys=set(), labels={}, wall_s=0))
        p['evaluations'] += r['n']
        p['keys'].update(r['keys'])
        p['wall_s'] += r['wall']
        for a, b in r['labels'].items():
            p['labels'][a] = p['labels'].get(a, 0) + b
    samples = []
    for r in res:
        for s in r['samples'][:1]:
            samples.append(r['sub'] + ': ' + s)
    cov = dict(
        evaluations=sum(p['evaluations'] for p in per.values()),
        distinct_nontrivial=sum(len(p['keys']) for p in per.values()),
        rule=prop.rule, samples=samples[:20],
        per_subcheck={k: dict(evaluations=v['evaluations'],
                              distinct_nontrivial=len(v['keys']),
                              labels=dict(sorted(v['labels'].items())),
                              cpu_wall_s=round(v['wall_s'], 2))
                      for k, v in sorted(per.items())})
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov,
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')

    seen = {}
    for r in viol:          # one report per sub-check: the smallest case
        k = seen.get(r['sub'])
        if k is None or len(r.get('desc', '')) < len(k.get('desc', '')):
            seen[r['sub']] = r
    for r in seen.values():
        rp = save_replay(pid, r)
        print('--- %s/%s: %s' % (pid, r['sub'], r['error']))
        if 'desc' in r:
            print('    case: ' + r['desc'][:1500])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if viol:
        return 1
    for r in bad:
        print('HARNESS ERROR in %s/%s: %s\n%s' % (pid, r['sub'], r.get('error'),
                                                  r.get('trace', '')))
        if 'desc' in r:
            print('    case: ' + r['desc'][:1500])
    if bad:
        return 2
    print('%s %s: ok, %d cases (%d distinct non-trivial) in %.1fs'
          % (pid, tier, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    if '-v' in sys.argv:
        for k, v in cov['per_subcheck'].items():
            print('   ', k, v)
    return 0


def save_replay(pid, r):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, r['sub']))
    with open(p, 'w') as f:
        json.dump(dict(property=pid, sub=r['sub'], error=r['error'],
                       trace=r.get('trace'), case_repr=r.get('desc'),
                       case_pickle_b64=r.get('case')), f, indent=1)
    return p


def replay(path):
    d = json.load(open(path))
    mod = load_check(d['property'])
    sub = [s for s in mod.PROP.subs if s.name == d['sub']][0]
    case = pickle.loads(base64.b64decode(d['case_pickle_b64']))
    print('case:', describe(case, 4000))
    try:
        run_case(sub, case, Ctx())
    except (Hang, Exception) as e:
        traceback.print_exc()
        if classify_exc(e) == 'violation':
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        return 2
    print('replay passes')
    return 0
