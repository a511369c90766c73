#!/opt/venv/bin/python
"""run.py <property id> [--case NAME ...]    exit 0 held, 1 violated, 3 inconclusive."""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, HERE)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['TZ'] = 'UTC'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.dont_write_bytecode = True

import boot


def load(prop):
    path = os.path.join(HERE, prop.lower() + '.py')
    spec = importlib.util.spec_from_file_location('check_' + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def main():
    prop = sys.argv[1].upper()
    only = None
    if '--case' in sys.argv:
        only = set(sys.argv[sys.argv.index('--case') + 1:])
    try:
        boot.install()
    except boot.BuildError as e:
        print('build failed:\n%s' % e)
        return 2
    import warnings
    warnings.simplefilter('ignore')
    import gemlog  # noqa: F401
    return load(prop).make().run(only)


if __name__ == '__main__':
    sys.exit(main())
