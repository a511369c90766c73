"""trybugs.py [id...]: run each planted bug's check against a scratch copy of /repo carrying the bug."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    prop = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    T = tempfile.mkdtemp(prefix='try_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', T + '/repo'])
        subprocess.check_call(['git', '-C', T + '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
        if not os.path.exists('%s/checks/%s.py' % (V, prop.lower())):
            print('%-34s %s no check' % (i, prop)); continue
        t = time.time()
        r = subprocess.run(['/opt/venv/bin/python', V + '/checks/run.py', prop], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_REPO=T + '/repo', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-34s %s exit %d %s %3.0fs %s' % (i, prop, r.returncode, 'CAUGHT' if r.returncode == 1 and v else '***MISSED***', time.time() - t,
              [l.strip()[:150] for l in r.stdout.splitlines() if 'VIOLATION' not in l][:2]), flush=True)
    finally:
        shutil.rmtree(T, ignore_errors=True)
