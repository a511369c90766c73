"""Run gemconvert's command-line entry point in a forked child: own cwd, own output files, exit status, event log."""
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

import gl


class Run:
    pass


def _hook(path, seed, maxdelay):
    """Audit hook of the child and all its workers: logs every change of the file system that Python asks for,
    after an injected delay, so that workers overtake one another at every such point."""
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    state = {'pid': None, 'in': False}

    def hook(ev, args):
        if ev == 'open':
            if not isinstance(args[0], (str, bytes)):
                return
            m = args[1] or ''
            fl = args[2] or 0
            if not (set(m) & set('wax+')) and not (isinstance(fl, int) and fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                return
            p = os.fsdecode(args[0])
        elif ev in ('os.mkdir', 'os.remove', 'os.rename', 'os.rmdir', 'os.truncate', 'shutil.rmtree'):
            p = os.fsdecode(args[0]) if isinstance(args[0], (str, bytes)) else str(args[0])
        else:
            return
        if p.startswith('/dev/') or state['in']:
            return
        state['in'] = True
        try:
            if state['pid'] != os.getpid():
                state['pid'] = os.getpid()
                state['rng'] = random.Random(seed * 1000003 + os.getpid())
            if maxdelay:
                r = state['rng'].random()
                time.sleep(maxdelay * (r if ev == 'os.mkdir' else r ** 4))
            os.write(fd, ('%d\t%d\t%s\t%s\n' % (time.monotonic_ns(), os.getpid(), ev, p)).encode())
        finally:
            state['in'] = False
    sys.addaudithook(hook)


def gemconvert(ctx, argv, cwd, seed=0, maxdelay=0.0, events=None, wall=240, main=None):
    """-> Run(code, out, events). code: exit status, or None if it was still running after `wall` seconds."""
    if main is None:
        from gemlog import gemconvert as g
        main = g.main
    out = os.path.join(ctx.dir, 'stdout_%d' % np.random.default_rng().integers(1 << 40))
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.setpgid(0, 0)
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(fd, 1), os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w', buffering=1, closefd=False)
            sys.stderr = os.fdopen(2, 'w', buffering=1, closefd=False)
            os.chdir(cwd)
            sys.argv = ['gemconvert'] + list(argv)
            if events:
                _hook(events, seed, maxdelay)
            code = 0
            try:
                main(list(argv))
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
                code = 96
        finally:
            sys.stdout.flush(), sys.stderr.flush()
            os._exit(code)
    t = time.time()
    r = Run()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            r.code = os.waitstatus_to_exitcode(st)
            break
        if time.time() - t > wall:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            r.code = None
            break
        time.sleep(0.01)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    r.out = open(out, errors='replace').read() if os.path.exists(out) else ''
    r.events = []
    if events and os.path.exists(events):
        for line in open(events, errors='replace'):
            q = line.rstrip('\n').split('\t', 3)
            if len(q) == 4:
                r.events.append((int(q[0]), int(q[1]), q[2], q[3]))
        os.remove(events)
    ctx.obs('gemconvert_runs')
    return r


def tree(folder):
    """relative name -> md5, folders as None"""
    out = dict(gl.md5_tree(folder))
    for d, ds, _ in os.walk(folder):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), folder) + '/'] = None
    return out


BAD = ['empty', 'tiny', 'garbage', 'noserial', 'nogps', 'wrongserial', 'headonly']


def bad_logger(rng, folder, SN, kind, lg, n=2):
    """Files of a logger that cannot be converted."""
    for k in range(n):
        p = os.path.join(folder, 'FILE%04d.%s' % (k + int(rng.integers(3)) * (k > 0), SN))
        if kind == 'empty':
            open(p, 'w').close()
        elif kind == 'tiny':
            open(p, 'w').write('#Gem\n')
        elif kind == 'garbage':
            open(p, 'wb').write(rng.integers(0, 256, int(rng.integers(100, 20000)), dtype=np.uint8).tobytes())
        elif kind == 'headonly':
            f = lg.record(k, 25.0)
            open(p, 'w').write('\n'.join(f.lines[:f.header_len]) + '\n')
        elif kind == 'noserial':
            f = lg.record(k, 25.0)
            open(p, 'w').write('\n'.join(l for l in f.lines if not l.startswith('S,')) + '\n')
        elif kind == 'nogps':
            f = lg.record(k, 25.0, gps='none')
            open(p, 'w').write(f.text())
        elif kind == 'wrongserial':
            f = lg.record(k, 25.0)
            open(p, 'w').write(f.text().replace('\nS,' + SN, '\nS,%03d' % ((int(SN) + 301) % 1000)))
