"""Build the native part of gemlog from /repo's current working tree into a scratch folder and make
`import gemlog` take every .py file straight from /repo and every extension module from that fresh build.

Nothing is written under /repo: setup.py is run in a scratch copy of (setup.py, gemlog/) and only the
resulting shared objects are used.  A stale .so lying in /repo/gemlog is never loaded, because our finder
sits in front of the normal path finder.
"""
import atexit
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    """One scratch root per check run; removed at exit of the process that created it."""
    global _scratch
    if _scratch is None:
        given = os.environ.get('VERIF_SCRATCH')
        if given and os.path.isdir(given):
            _scratch = given
        else:
            _scratch = tempfile.mkdtemp(prefix='gemverif_')
            os.environ['VERIF_SCRATCH'] = _scratch
            pid = os.getpid()
            path = _scratch

            def _clean():
                if os.getpid() == pid:
                    shutil.rmtree(path, ignore_errors=True)
            atexit.register(_clean)
    return _scratch


def copy_sources(dst):
    os.makedirs(dst)
    for name in ('setup.py', 'README.md', 'LICENSE', 'MANIFEST.in', 'pyproject.toml', 'setup.cfg'):
        p = os.path.join(REPO, name)
        if os.path.exists(p):
            shutil.copy(p, dst)
    shutil.copytree(os.path.join(REPO, 'gemlog'), os.path.join(dst, 'gemlog'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '*.cpp', '__pycache__', 'data'))
    return dst


def build():
    """-> folder holding gemlog/<ext>.so built from the current tree."""
    given = os.environ.get('VERIF_EXT')
    if given and os.path.isdir(given):
        return given
    dst = os.path.join(scratch(), 'ext')
    if not os.path.isdir(dst):
        copy_sources(dst)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env.pop('CFLAGS', None), env.pop('LDFLAGS', None)
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=dst, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise BuildError(r.stdout.decode(errors='replace')[-3000:])
    os.environ['VERIF_EXT'] = dst
    return dst


def build_variant(name, cc, cflags, ldflags):
    """Build the extensions of the current tree with another compiler/flags -> folder with gemlog/<ext>.so"""
    dst = os.path.join(scratch(), 'ext_' + name)
    if not os.path.isdir(dst):
        copy_sources(dst)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', CC=cc, CFLAGS=cflags, LDFLAGS=ldflags,
                   LDSHARED=cc + ' -shared')
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=dst, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise BuildError(r.stdout.decode(errors='replace')[-3000:])
    return dst


class ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.map = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith('.so'):
                    rel = os.path.relpath(os.path.join(d, f), root).split('.')[0].replace(os.sep, '.')
                    self.map[rel] = os.path.join(d, f)

    def find_spec(self, name, path=None, target=None):
        if name in self.map:
            return importlib.util.spec_from_file_location(
                name, self.map[name], loader=importlib.machinery.ExtensionFileLoader(name, self.map[name]))
        return None


def install(ext_root=None):
    """After this, `import gemlog` gives /repo's python with the fresh extension."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('TZ', 'UTC')
    sys.dont_write_bytecode = True
    root = ext_root or build()
    finder = ExtFinder(root)
    sys.meta_path.insert(0, finder)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
    sys.path.insert(0, REPO)
    return finder


def child_env(ext_root=None, extra=None):
    """Environment for a python subprocess that gets the same imports (through lib/site/sitecustomize.py)."""
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TZ='UTC', PYTHONHASHSEED='0',
               PYTHONPATH=os.path.join(VERIF, 'lib', 'site') + ':' + REPO, VERIF_EXT=ext_root or build(),
               VERIF_REPO=REPO)
    env.update(extra or {})
    return env
