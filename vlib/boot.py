"""Process set-up shared by every check.

Must be imported before numpy / dolfyn.  It makes /repo's *current* sources the
ones that run (no stale byte code is read or written for them), and makes
Hypothesis importable from the pre-installed tooling environment.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ['TZ'] = os.environ.get('VERIF_TZ', 'UTC')
sys.dont_write_bytecode = True

import importlib._bootstrap_external as _be  # noqa: E402

_orig_cfs = _be.cache_from_source


def _cfs(path, *a, **k):
    # never use cached byte code of the code under test (or of this harness)
    p = os.fspath(path)
    if p.startswith(REPO + os.sep) or p.startswith(VERIF + os.sep):
        return '/nonexistent-bytecode' + p + 'c'
    return _orig_cfs(path, *a, **k)


_be.cache_from_source = _cfs

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)

try:
    import hypothesis  # noqa: F401
except ImportError:
    import glob
    _cands = ['/opt/veriftools/pyvenv/lib/python%d.%d/site-packages'
              % sys.version_info[:2]]
    sys.path.extend([c for c in _cands if os.path.isdir(c)])
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # wheels are plain zip archives
        sys.path.extend(glob.glob('/opt/veriftools/wheels/hypothesis-*.whl') +
                        glob.glob('/opt/veriftools/wheels/sortedcontainers-*.whl') +
                        glob.glob('/opt/veriftools/wheels/attrs-*.whl'))
        import hypothesis  # noqa: F401

import warnings  # noqa: E402
warnings.filterwarnings('ignore')
