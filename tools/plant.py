"""plant.py: make and confirm a planted bug in a scratch copy of /repo, keep it under /verif/seeded/<id>/.

    from plant import plant
    plant(id, property, needs, what_it_breaks, [(file, old, new), ...], demo_source)

Confirms: patch applies, touches lines of the original repository, builds, stable tests pass, demo exits 0 on
the unchanged tree and non-zero with the patch. Kept whether or not any check catches it.
"""
import json, os, re, shutil, subprocess, sys, tempfile
BASE = 'b14095a'
REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1
T=$(mktemp -d)
/opt/venv/bin/python -W ignore "$D/demo.py" "$T"
R=$?
case "$T" in /*/*) rm -rf "$T";; esac
exit $R
'''
PRE = '''import contextlib, glob, io, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import obspy, gemlog
W = sys.argv[1]
os.chdir(W)


def fail(msg):
    print('FAIL: %s' % msg)
    sys.exit(1)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), **k)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t if isinstance(t, str) else t['id'] for t in b]


def original_lines(repo, patch):
    """does the patch change at least one line of the original repository?"""
    f, old = None, 0
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        m = re.match(r'@@ -(\d+)', line)
        if m:
            old = int(m.group(1))
            continue
        if line.startswith(('---', '+++', 'diff', 'index')) or not old:
            continue
        if line.startswith('-'):
            r = sh(['git', 'blame', '-s', '-L', '%d,%d' % (old, old), 'HEAD', '--', f], repo).stdout
            if r.lstrip('^').startswith(BASE):
                return True
        if not line.startswith('+'):
            old += 1
    return False


def plant(id, prop, needs, breaks, edits, demo, sim=False, tests=True):
    T = tempfile.mkdtemp(prefix='plant_')
    try:
        R = os.path.join(T, 'repo')
        subprocess.check_call(['cp', '-a', REPO, R])
        for f, a, b in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(a) == 1, '%s: %d matches of %r' % (id, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        patch = sh(['git', 'diff', 'HEAD', '--'] + sorted({e[0] for e in edits}), R).stdout
        assert original_lines(R, patch), id + ': changes no original line'
        d = os.path.join(T, 'seed')
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(PRE + demo)
        os.chmod(d + '/demo.sh', 0o755)
        if sim:
            shutil.copy(VERIF + '/lib/gemsim.py', d + '/simlog.py')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(['bash', d + '/demo.sh'], REPO, timeout=300)
        if any(e[0].endswith('.pyx') for e in edits):
            b = sh('rm -f gemlog/parsers.c %s/gemlog/*.so; /opt/venv/bin/python setup.py build_ext --inplace --force' % R, R)
            assert b.returncode == 0, b.stdout[-2000:]
        r1 = sh(['bash', d + '/demo.sh'], R, timeout=300)
        ok = r0.returncode == 0 and r1.returncode != 0
        msg = 'clean %d patched %d (%s)' % (r0.returncode, r1.returncode, r1.stdout.strip().splitlines()[-1:] )
        if r0.returncode:
            msg += '\nCLEAN OUTPUT: ' + r0.stdout[-800:]
        if ok and tests:
            env = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TZ='UTC', PYTHONPATH=R)
            shutil.rmtree(R + '/tmp', ignore_errors=True)
            t = sh('/opt/venv/bin/python -m pytest tests -q --tb=short -p no:cacheprovider --timeout=300 '
                   '--continue-on-collection-errors -rA', R, env=env).stdout
            passed = set(re.findall(r'^PASSED (\S+)', t, re.M))
            short = {p.split('::')[-1] for p in passed}
            lost = [s for s in stable() if s.split('::')[-1] not in short]
            ok = not lost
            msg += ' tests lost %s' % lost[:3]
        print('%-28s %s %s' % (id, 'KEPT' if ok else 'REJECTED', msg))
        if ok:
            dst = os.path.join(VERIF, 'seeded', id)
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            shutil.copytree(d, dst)
        return ok
    finally:
        shutil.rmtree(T, ignore_errors=True)
