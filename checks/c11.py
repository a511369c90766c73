"""C11 gemconvert with several processes gives what it gives with one."""
import os
import shutil

import numpy as np
import gemlog

import gcli
import gl
import scen
from gemsim import VERSIONS
from mon import Check, CaseSkip, pick


def folder_of(ctx, rng, d, ngood, nbad, big=0.0):
    """-> {SN: files} of convertible loggers, {SN: kind} of the others, all in folder d"""
    sns = ['%03d' % s for s in rng.choice(np.arange(3, 300), ngood + nbad, replace=False)]
    good, bad = {}, {}
    for SN in sns[:ngood]:
        v = VERSIONS[int(rng.integers(len(VERSIONS)))]
        if v == '0.8':
            v = '0.85'
        lg = scen.logger(rng, v, SN=SN)
        n = int(rng.integers(1, 4)) + (8 if rng.random() < big else 0)
        good[SN] = (scen.deploy(rng, d, lg, n), lg)
    for SN in sns[ngood:]:
        k = gcli.BAD[int(rng.integers(len(gcli.BAD)))]
        gcli.bad_logger(rng, d, SN, k, scen.logger(rng, '0.91', SN=SN))
        bad[SN] = k
    return good, bad


def outputs(cwd):
    t = gcli.tree(cwd)
    return {k: v for k, v in t.items() if not k.startswith('gemconvert_logfile') and not k.startswith('raw')}


def order(events, cwd):
    """Which worker did what, in the order in which it happened, with processes numbered by first appearance."""
    ids, seq = {}, []
    for _, pid, ev, p in events:
        i = ids.setdefault(pid, len(ids))
        seq.append((i, ev, os.path.basename(os.path.dirname(p))))
    return ids, seq


def case_parallel(ctx, mode):
    rng = ctx.rng
    for rep in range(pick(2, 6)):
        base = ctx.sub('w%d' % rep)
        raw = os.path.join(base, 'raw')
        os.makedirs(raw)
        if mode == 'bad':
            good, bad = folder_of(ctx, rng, raw, int(rng.integers(2, 5)), int(rng.integers(1, 5)))
        elif mode == 'many':
            good, bad = folder_of(ctx, rng, raw, 8, int(rng.integers(0, 3)))
        else:
            good, bad = folder_of(ctx, rng, raw, int(rng.integers(2, 6)), 0, big=0.4)
        opts = []
        if rng.random() < .6:
            opts += ['-l', str(float(rng.choice([1, 0.01, 0.1])))]
        outdir = ['', 'out', 'a/b/c'][int(rng.integers(3))]
        if outdir:
            opts += ['-o', outdir]
        if rng.random() < .25:
            opts += ['-f', ['sac', 'wav'][int(rng.integers(2))]]
        first = None
        ps = [1, 2] + [int(x) for x in rng.choice([3, 4, 8, 16], 2, replace=False)]
        if mode == 'race':
            ps = [1] + [8] * 5
        for j, p in enumerate(ps):
            cwd = os.path.join(base, 'run%d' % j)
            os.makedirs(cwd)
            opt = opts + ['-i', raw, '-p', str(p)]
            delay = 0.0 if p == 1 else float(rng.choice([0.05, 0.3, 0.6] if mode == 'race' else [0, 0.05, 0.2]))
            r = gcli.gemconvert(ctx, opt, cwd, seed=int(rng.integers(1 << 30)), maxdelay=delay,
                                events=os.path.join(ctx.dir, 'ev'))
            what = '[%s; loggers %s, bad %s; delays up to %g s]' % (' '.join(opt[:-4] + opt[-2:]), sorted(good), bad, delay)
            if not ctx.check(r.code is not None, 'hang', 'gemconvert -p %d was still running after 240 s %s' % (p, what)):
                return
            if not ctx.check(r.code == 0, 'exit-status', 'gemconvert exits %r: %s %s' % (r.code, r.out[-600:], what)):
                return
            ids, seq = order(r.events, cwd)
            ctx.obs('file_events_observed', len(seq))
            if p > 1:
                ctx.sig('interleaving', tuple(s[0] for s in seq))
                ctx.obs('processes_seen', len(ids))
                mk = {}
                for _, pid, ev, q in r.events:
                    if ev == 'os.mkdir':
                        mk.setdefault(q, set()).add(pid)
                ctx.obs('folders_made_by_several_workers_at_once', sum(len(v) > 1 for v in mk.values()))
            out = outputs(cwd)
            if p == 1:
                first = out
                # complete: each convertible logger's own conversion is all there
                want = {}
                ref = os.path.join(base, 'ref')
                kw = {}
                if '-l' in opts:
                    kw['file_length_hour'] = float(opts[opts.index('-l') + 1])
                if '-f' in opts:
                    kw['output_format'] = opts[opts.index('-f') + 1]
                for SN in good:
                    ctx.must('convert-failed', gemlog.convert, raw, SN=SN, convertedpath=ref + '/c', metadatapath=ref + '/m',
                             gpspath=ref + '/g', **kw)
                od = outdir or kw.get('output_format', 'mseed')
                for a, b in (('c', od), ('m', 'metadata'), ('g', 'gps')):
                    want.update({'%s/%s' % (b, k): v for k, v in gl.md5_tree(ref + '/' + a).items()})
                got = {k: v for k, v in out.items() if v is not None}
                ctx.obs('files_compared', len(want))
                lost = sorted(k for k in want if got.get(k) != want[k])
                extra = sorted(k for k in got if k not in want)
                ctx.check(not lost, 'logger-lost', 'files of convertible loggers missing or different from their own '
                          'conversion: %s %s' % (lost[:4], what))
                ctx.check(not extra, 'logger-extra', 'unexpected files %s %s' % (extra[:4], what))
            else:
                ctx.obs('files_compared', len(out))
                miss = sorted(k for k in first if k not in out)
                extra = sorted(k for k in out if k not in first)
                diff = sorted(k for k in out if k in first and out[k] != first[k])
                ctx.check(not miss and not extra and not diff, 'parallel-differs',
                          'with %d processes: missing %s, extra %s, different %s %s; output %s' % (
                              p, miss[:4], extra[:4], diff[:4], what, r.out[-300:]))
            log = os.path.join(cwd, 'gemconvert_logfile.txt')
            text = open(log, errors='replace').read() if os.path.exists(log) else ''
            for SN in list(good) + list(bad):
                ctx.check(SN in text, 'log', 'the log file does not mention %s %s' % (SN, what))
            for SN in good:
                ctx.check(('Fatal error in ' + SN) not in text, 'log-fatal', 'log reports a fatal error in %s %s: %s' % (
                    SN, what, text[-800:]))
            ctx.sig(mode, p, len(good), sorted(bad.values()))
            shutil.rmtree(cwd)
        shutil.rmtree(base)


def make():
    try:
        from gemlog import gemconvert
        gemconvert.main
    except (ImportError, AttributeError) as e:
        raise CaseSkip(str(e))
    c = Check('C11', 'random loggers (convertible or broken), 1-16 workers, delays at every file-system call of every worker; '
              'output trees compared byte by byte with one process and with each logger\'s own conversion; see lib/gcli.py',
              need=['folders_made_by_several_workers_at_once', 'files_compared', 'processes_seen'],
              assumptions=['delays are injected at Python-level file-system calls (audit hook); workers are forked processes (Linux)'])
    for m in ('plain', 'bad', 'many', 'race'):
        for i in range(pick(3 if m != 'many' else 2, 8)):
            c.add('%s_%d' % (m, i), case_parallel, mode=m)
    return c
