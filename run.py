#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough] [--sub NAME] [-v] | run.py --replay FILE"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def _opt(name):
    if name in sys.argv:
        return sys.argv[sys.argv.index(name) + 1]


if __name__ == '__main__':
    try:
        if '--replay' in sys.argv:
            rc = core.replay(_opt('--replay'))
        else:
            rc = core.main(sys.argv[1].upper(), _opt('--tier'), _opt('--sub'))
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
