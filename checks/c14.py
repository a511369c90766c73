"""C14 raw data stay untouched; interrupted or failed conversions are reported and can be repeated.

The whole check runs with lib/fsshim.c preloaded: it sees every change of the file system at the C library
boundary, and ends the process (SIGKILL) or fails the call at the k-th one."""
import ctypes
import errno
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

import numpy as np
import gemlog

import boot
import gcli
import gl
import scen
from gemsim import VERSIONS
from mon import Check, CaseSkip, pick

SHIM = None


def stat_tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in fs + ds:
            q = os.path.join(p, x)
            s = os.lstat(q)
            out[os.path.relpath(q, d)] = (s.st_mode, s.st_size if x in fs else 0, s.st_mtime_ns, s.st_ino)
    return out


class Outcome:
    pass


def child(ctx, cwd, fn, kill_at=0, fail_at=0, err=0, sticky=0, half=0, wall=150):
    """Run fn() in a forked child in cwd with the shim armed -> Outcome(code, out, events [(k, op, n, path)], count)"""
    tag = '%d' % np.random.default_rng().integers(1 << 50)
    out, log = os.path.join(ctx.dir, 'o' + tag), os.path.join(ctx.dir, 'l' + tag)
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.setpgid(0, 0)
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            lfd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            # what a command prints goes through a pipe-like descriptor outside the injected area
            os.dup2(fd, 1), os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w', buffering=1, closefd=False)
            sys.stderr = os.fdopen(2, 'w', buffering=1, closefd=False)
            os.chdir(cwd)
            SHIM.fs_arm(lfd, cwd.encode() + b'/', kill_at, fail_at, err, sticky, half)
            code = 0
            try:
                r = fn()
                if r:
                    print('REPORTED', r)
            except SystemExit as e:
                code = 20 if e.code not in (0, None) else 0
            except BaseException:
                traceback.print_exc()
                code = 20
            SHIM.fs_disarm()
        finally:
            try:
                sys.stdout.flush(), sys.stderr.flush()
            finally:
                os._exit(code)
    t = time.time()
    o = Outcome()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            o.code = os.waitstatus_to_exitcode(st)
            break
        if time.time() - t > wall:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            o.code = None
            break
        time.sleep(0.004)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    o.out = open(out, errors='replace').read()
    o.events = []
    for line in open(log, errors='replace'):
        q = line.rstrip('\n').split('\t', 3)
        if len(q) == 4:
            o.events.append((int(q[0]), q[1], int(q[2]), os.path.normpath(q[3])))
    o.count = max([e[0] for e in o.events], default=0)
    os.remove(out), os.remove(log)
    ctx.obs('file_system_changes_observed', len(o.events))
    return o


def inside(p, d):
    return p == d or p.startswith(d + '/')


def watch(ctx, o, cwd, raw, named, what):
    """Every change went to a folder the user named, none to the raw folder."""
    for k, op, n, p in o.events:
        if inside(p, raw):
            ctx.bad('raw-written', '%s of %s in the raw folder %s' % (op, os.path.relpath(p, raw), what))
            return False
        if inside(p, cwd):
            if not any(inside(p, q) or (op == 'mkdir' and inside(q, p)) for q in named):
                ctx.bad('stray-write', '%s of %s, not in a named folder %s' % (op, os.path.relpath(p, cwd), what))
                return False
        elif os.path.exists(p) and not p.startswith((ctx.dir + '/o', ctx.dir + '/l')):
            ctx.bad('stray-write', '%s of %s, outside the working folder %s' % (op, p, what))
            return False
    return True


def setup_op(ctx, rng, op, raw, cwd_raw):
    """-> (callable, named folders relative to cwd, converted path, table paths, description)"""
    version = VERSIONS[int(rng.integers(len(VERSIONS)))]
    lg = scen.logger(rng, version)
    n = int(rng.integers(1, 4))
    if op == 'gem_cat':
        files = []
        for i in range(4):
            f = lg.record(i, float(rng.uniform(22, 30)), gps='normal' if i % 2 else 'none')
            f.write(raw)
            files.append(f)
        ext = files[0].name.split('.')[1]
        import importlib
        gc = importlib.import_module('gemlog.gem_cat')
        return (lambda: gc.gem_cat(cwd_raw, 'merged', ext)), ['merged'], 'merged', [], 'gem_cat ' + version
    files = scen.deploy(rng, raw, lg, n, p_missing=0.3, pauses=('short', 'tens', 'hours'))
    if op == 'single':
        from gemlog import gemconvert_single
        f = files[0].name
        o = 'one.mseed'
        return (lambda: gemconvert_single.main(['-i', os.path.join(cwd_raw, f), '-o', o])), [o], o, [], 'gemconvert_single ' + version
    fl = float(rng.choice([24, 0.005, 0.01, 0.02]))
    fmt = ['MSEED', 'MSEED', 'SAC', 'WAV', 'TSPAIR'][int(rng.integers(5))]
    bd = float(rng.choice([1, 1 / 12]))
    if op == 'gemconvert':
        from gemlog import gemconvert
        out = ['out', 'a/b'][int(rng.integers(2))]
        p = str(int(rng.integers(1, 3)))
        if version != '0.8':
            lg2 = scen.logger(rng, version)
            if lg2.SN != lg.SN:
                scen.deploy(rng, raw, lg2, 1)
        argv = ['-i', cwd_raw, '-o', out, '-f', fmt, '-l', str(fl), '-p', p]
        return ((lambda: gemconvert.main(argv)), [out, 'metadata', 'gps', 'gemconvert_logfile.txt'], out, ['metadata', 'gps'],
                'gemconvert %s, format %s' % (' '.join(argv[2:]), version))
    c, m, g = [('converted', 'metadata', 'gps'), ('x/c', 'x/m', 'x/g'), ('out', 'out', 'out/tab')][int(rng.integers(3))]
    kw = dict(SN=lg.SN, convertedpath=c, metadatapath=m, gpspath=g, file_length_hour=fl, output_format=fmt, blockdays=bd)
    return (lambda: gemlog.convert(cwd_raw, **kw)), [c, m, g], c, [m, g], 'convert %s, format %s' % (kw, version)


def newest(cwd, tabs, conv):
    """The newest metadata and GPS table of each logger, and the converted files."""
    conv_files, tables = {}, {}
    for k, v in gl.md5_tree(cwd).items():
        b = os.path.basename(k)
        if b.endswith('.txt') and ('metadata_' in b or 'gps_' in b) and any(inside(k, t) for t in tabs):
            stem, num = b[:-4].rsplit('_', 1)
            if stem not in tables or num > tables[stem][0]:
                tables[stem] = (num, v)
        elif inside(k, conv):
            conv_files[k] = v
    return conv_files, {k: v[1] for k, v in tables.items()}


def case_inject(ctx, op, mode):
    rng = ctx.rng
    for rep in range(pick(2, 6)):
        base = ctx.sub('b%d' % rep)
        raw = os.path.join(base, 'raw')
        os.makedirs(raw)
        up = rng.random() < .5              # raw folder beside, or inside, the working folder
        cwd_raw = os.path.join('..', 'raw') if up else raw
        fn, named, conv, tabs, desc = setup_op(ctx, rng, op, raw, cwd_raw)
        before, bytes0 = stat_tree(raw), gl.md5_tree(raw)

        def fresh(name):
            cwd = os.path.join(base, name)
            os.makedirs(cwd)
            return cwd, [os.path.join(cwd, n) for n in named]

        def raw_ok(what):
            ok = stat_tree(raw) == before
            if not ok and gl.md5_tree(raw) == bytes0 and {k: v[0] for k, v in stat_tree(raw).items()} == {
                    k: v[0] for k, v in before.items()}:
                ok = True                    # same names, bytes and modes
            return ctx.check(ok, 'raw-changed', 'the raw folder was changed ' + what)

        cwd, nm = fresh('ref')
        o = child(ctx, cwd, fn)
        what = '[%s]' % desc
        if o.code != 0 or o.count < 2:
            ctx.bad('undisturbed-failed', 'undisturbed run exits %r with %d file-system changes: %s %s' % (
                o.code, o.count, o.out[-600:], what))
            return
        if not watch(ctx, o, cwd, raw, nm, what) or not raw_ok(what):
            return
        want = newest(cwd, tabs, conv)
        total = o.count
        ctx.sig(op, mode, desc.split(',')[0], total)
        budget = pick(14, 45)
        pts = np.arange(1, total + 1)
        if len(pts) > budget:
            # first and last always; the others at random
            pts = np.unique(np.concatenate([[1, 2, total], rng.choice(pts, budget - 3, replace=False)]))
        for k in pts:
            k = int(k)
            cwd, nm = fresh('k%d' % k)
            half = int(rng.random() < .5)
            if mode == 'kill':
                o = child(ctx, cwd, fn, kill_at=k, half=half)
                inj = 'killed at change %d of %d%s (%s)' % (k, total, ' halfway' if half else '', o.events[-1][1:] if o.events else '')
                ctx.obs('runs_killed')
            else:
                err = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT][int(rng.integers(4))]
                sticky = int(rng.random() < .6)
                o = child(ctx, cwd, fn, fail_at=k, err=err, sticky=sticky, half=half)
                ev = [e for e in o.events if e[0] == k]
                inj = 'change %d of %d%s fails with %s%s (%s)' % (k, total, ' halfway' if half else '', errno.errorcode[err],
                                                               ' and all later ones' if sticky else '', ev[0][1:] if ev else '')
                ctx.obs('runs_with_failing_write')
                if not ctx.check(o.code is not None, 'hang', 'still running after 150 s; %s %s' % (inj, what)):
                    return
                got = newest(cwd, tabs, conv)
                if got != want:
                    low = o.out.lower()
                    lf = os.path.join(cwd, 'gemconvert_logfile.txt')
                    low += open(lf, errors='replace').read().lower() if os.path.exists(lf) else ''
                    said = o.code not in (0,) or 'reported' in low or any(q in low for q in ('error', 'errno', 'fail', 'exception', 'problem', 'denied', 'no space', 'could not', 'unable'))
                    if op == 'convert':       # the function is called by programs: it raises, exits or returns problems
                        said = o.code not in (0,) or 'REPORTED' in o.out
                    ctx.obs('failures_that_cost_output')
                    if not ctx.check(said, 'failure-silent', '%s, yet nothing is reported and the output lacks %s; printed: %s %s' % (
                            inj, sorted(x for x in want[0] if got[0].get(x) != want[0][x])[:3] +
                            sorted(x for x in want[1] if got[1].get(x) != want[1][x])[:3], o.out[-300:], what)):
                        return
                else:
                    ctx.obs('failures_without_loss')
            if not watch(ctx, o, cwd, raw, nm, inj + ' ' + what) or not raw_ok(inj + ' ' + what):
                return
            if rng.random() < .2:            # a second interruption
                o = child(ctx, cwd, fn, kill_at=int(rng.integers(1, total + 1)), half=half)
                inj += ', then killed again'
            o = child(ctx, cwd, fn)
            got = newest(cwd, tabs, conv)
            ctx.obs('repeated_runs')
            if not ctx.check(o.code == 0, 'rerun-failed', 'the run after it exits %r: %s; %s %s' % (o.code, o.out[-500:], inj, what)):
                return
            for i, name in ((0, 'converted'), (1, 'newest tables')):
                miss = sorted(x for x in want[i] if x not in got[i])
                extra = sorted(x for x in got[i] if x not in want[i])
                diff = sorted(x for x in want[i] if x in got[i] and got[i][x] != want[i][x])
                ctx.obs('files_compared', len(want[i]))
                if not ctx.check(not miss and not extra and not diff, 'rerun-differs',
                                 'after the repeated run %s differ from an undisturbed run: missing %s, extra %s, different %s; '
                                 '%s %s' % (name, miss[:3], extra[:3], diff[:3], inj, what)):
                    return
            if not raw_ok(inj + ' ' + what):
                return
            shutil.rmtree(cwd)
            ctx.sig(op, mode, k, total, o.code)
        shutil.rmtree(base)


def case_raw(ctx):
    """Operations on good and bad raw folders, none disturbed: nothing in the raw folder changes."""
    rng = ctx.rng
    import importlib
    gc = importlib.import_module('gemlog.gem_cat')
    from gemlog import gemconvert, gemconvert_single
    for rep in range(pick(6, 20)):
        base = ctx.sub('r%d' % rep)
        cwd = os.path.join(base, 'w')
        raw = os.path.join(cwd, 'raw')
        os.makedirs(raw)
        lg = scen.logger(rng, VERSIONS[1 + int(rng.integers(len(VERSIONS) - 1))])
        files = scen.deploy(rng, raw, lg, int(rng.integers(2, 5)))
        bad = ''
        if rng.random() < .6:
            bad = gcli.BAD[int(rng.integers(len(gcli.BAD)))]
            SN = lg.SN if rng.random() < .5 else '%03d' % ((int(lg.SN) + 7) % 300 + 3)
            sub = os.path.join(base, 'tmp')
            os.makedirs(sub)
            gcli.bad_logger(rng, sub, SN, bad, scen.logger(rng, '0.91', SN=SN), n=1)
            for x in os.listdir(sub):
                if not os.path.exists(os.path.join(raw, x)):
                    shutil.move(os.path.join(sub, x), raw)
        ops = {
            'read_gem': (lambda: gemlog.read_gem('raw', SN=lg.SN) and None, []),
            'read_gem_nums': (lambda: gemlog.read_gem('raw', nums=[files[0].num], SN=lg.SN) and None, []),
            'convert': (lambda: gemlog.convert('raw', SN=lg.SN), ['converted', 'metadata', 'gps']),
            'convert_absent': (lambda: gemlog.convert('raw', SN='999'), ['converted', 'metadata', 'gps']),
            'gemconvert': (lambda: gemconvert.main([]), ['mseed', 'metadata', 'gps', 'gemconvert_logfile.txt']),
            'gemconvert_test': (lambda: gemconvert.main(['-t']), ['gemconvert_logfile.txt']),
            'gem_cat': (lambda: gc.gem_cat('raw', 'merged', lg.SN), ['merged']),
            'gem_cat_all': (lambda: gc.gem_cat('raw', 'merged2', lg.SN, cat_all=True), ['merged2']),
            'gem_cat_main': (lambda: gc.main(['-i', 'raw', '-o', 'merged3']), ['merged3', 'gem_cat_logfile.txt']),
            'single': (lambda: gemconvert_single.main(['-i', os.path.join('raw', files[0].name), '-o', 'o.mseed']), ['o.mseed']),
            'single_forced': (lambda: gemconvert_single.main(['-f', '-i', os.path.join('raw', files[-1].name), '-o', 'p.mseed']),
                              ['p.mseed']),
        }
        before, bytes0 = stat_tree(raw), gl.md5_tree(raw)
        for name in rng.permutation(sorted(ops)):
            fn, named = ops[name]
            o = child(ctx, cwd, fn)
            what = '[%s; format %s, %s file among the raw files]' % (name, lg.version, bad or 'no bad')
            ctx.obs('undisturbed_operations')
            ctx.sig(str(name), bad, lg.version, o.code)
            ctx.check(o.code is not None, 'hang', 'still running after 150 s ' + what)
            watch(ctx, o, cwd, raw, [os.path.join(cwd, n) for n in named], what)
            ctx.check(gl.md5_tree(raw) == bytes0 and stat_tree(raw) == before, 'raw-changed', 'the raw folder was changed ' + what)
        shutil.rmtree(base)


def preload():
    """Run this very check in a process with the shim loaded."""
    so = os.path.join(boot.scratch(), 'fsshim.so')
    r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, os.path.join(boot.VERIF, 'lib', 'fsshim.c'), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('cannot build the shim:\n' + r.stdout)
        sys.exit(3)
    env = dict(os.environ, LD_PRELOAD=so, FSSHIM=so)
    sys.exit(subprocess.call([sys.executable] + sys.argv, env=env))


def make():
    global SHIM
    if 'FSSHIM' not in os.environ:
        preload()
    SHIM = ctypes.CDLL(os.environ['FSSHIM'])
    c = Check('C14', 'every file-system change of conversions of random recordings is observed at the C library boundary; the '
              'process is killed at, or halfway through, a change, or the change fails (disk full, I/O error, ...; once or from '
              'then on), at the first, last and random points in between; then the run is repeated and compared byte by byte '
              'with an undisturbed one; raw folders compared by bytes, mode, inode and time',
              need=['runs_killed', 'runs_with_failing_write', 'failures_that_cost_output', 'repeated_runs', 'undisturbed_operations'],
              assumptions=['the kernel keeps completed writes when a process is killed (no power loss)',
                           'changes made by direct system calls would not be seen; the raw folder comparison would show them'])
    for op in ('convert', 'gemconvert', 'single', 'gem_cat'):
        for mode in ('kill', 'fail'):
            for i in range(pick({'convert': 4, 'gemconvert': 3}.get(op, 1), {'convert': 12, 'gemconvert': 8}.get(op, 3))):
                c.add('%s_%s_%d' % (op, mode, i), case_inject, op=op, mode=mode)
    for i in range(pick(2, 6)):
        c.add('raw_%d' % i, case_raw)
    return c
