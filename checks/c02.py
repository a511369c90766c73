"""C02 convert conserves the recording, whatever the window length and block size."""
import os

import numpy as np
import gemlog

import gl
import scen
from gemsim import VERSIONS
from mon import Check, pick

LENGTHS = [24, 12, 2, 1, 0.5, 0.25, 0.1, 0.05, 0.01, 0.005, 1 / 7, 0.013, 1.0 / 360, 3, 7, 48, '1', '0.02']
BLOCKS = [1, 1 / 12, 0.25, 0.5, 1 / 6, 3, 2, 0.1]


def run(ctx, raw, SN, tag, **kw):
    out = ctx.sub(tag)
    problems = ctx.must('convert-failed', gemlog.convert, raw, SN=SN, convertedpath=out + '/c', metadatapath=out + '/m',
                        gpspath=out + '/g', **kw)
    return [tr for _, tr in gl.read_folder(out + '/c')], problems


def case_conserve(ctx, version, mode):
    rng = ctx.rng
    for rep in range(pick(2, 6)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version)
        n = int(rng.integers(3, 9))
        if mode == 'continuous':
            files = scen.deploy(rng, d, lg, n, p_pause=0, p_gap=0, p_restart=0, p_missing=0)
        elif mode == 'lapses':
            files = scen.deploy(rng, d, lg, n, p_pause=0.2, p_gap=1.0, p_missing=0)
        elif mode == 'days':
            files = scen.deploy(rng, d, lg, n, p_pause=0.8, pauses=('hours', 'days', 'tens'), p_missing=0.3)
        elif mode == 'many':
            files = scen.deploy(rng, d, lg, int(rng.integers(14, 28)), dur=(22, 28), p_pause=0.3, p_gap=0.1,
                                pauses=('short', 'hours', 'tens'), num0=int(rng.integers(0, 3)))
        elif mode == 'joints':           # recording lapses exactly between files, all sizes around the bridging limit
            files = []
            for i in range(n):
                f = lg.record(i, float(rng.uniform(22, 30)))
                f.write(d)
                files.append(f)
                lg.skip(float(rng.choice([0.005, 0.012, 0.06, 0.09, 0.2, 0.6, 1.5])))
        else:
            files = scen.deploy(rng, d, lg, n)
        t_first = min(f.t[0] for f in files)
        lo = np.ceil(np.round(t_first, 2) - 1e-9)
        if abs(t_first - round(t_first)) < 0.006:
            lo = t_first              # either whole second may be the first
        ref = None
        bd0 = float(rng.choice(BLOCKS))
        for j in range(3):
            fl = LENGTHS[int(rng.integers(len(LENGTHS)))]
            span = max(f.t[-1] for f in files) - t_first
            if float(fl) < 0.02 and span > 86400 * 4:
                fl = 0.5
            bd = bd0 if j < 2 else float(rng.choice(BLOCKS))
            trs, problems = run(ctx, d, lg.SN, 'out%d_%d' % (rep, j), file_length_hour=fl, blockdays=bd)
            tag = 'convert'
            ctx.check(problems == [], 'spurious-problem', 'problems reported for good files: %s' % problems)
            nwin = int(span / (float(fl) * 3600)) + 1
            ok = gl.judge(ctx, tag, trs, files, lg.wave, lo=lo, edge=0.06, joints=10 ** 9)
            ctx.sig(version, mode, fl, round(bd, 3), len(gl.truth_segments(files)))
            if not ok:
                ctx.note('file_length_hour=%r blockdays=%r' % (fl, bd))
                ctx.viol[-1]['msg'] += ' [file_length_hour=%r, blockdays=%.4g, %d files]' % (fl, bd, len(files))
                return
            if ref is None:
                ref = (trs, fl, bd)
            else:
                com, diff, only, dup = gl.same_data(ref[0], trs, 0 if bd == ref[2] else 2)
                ctx.obs('samples_compared_between_configurations', com)
                lim = 8 * (len(files) + 2) if bd != ref[2] else 0
                ctx.check(diff <= (0 if bd == ref[2] else 25 * len(files)), 'length-changes-samples',
                          '%d of %d samples differ between file_length %r/blockdays %.3g and %r/%.3g' % (
                              diff, com, ref[1], ref[2], fl, bd))
                ctx.check(only <= lim, 'length-changes-coverage', '%d samples are only in one of file_length %r/blockdays '
                          '%.3g and %r/%.3g' % (only, ref[1], ref[2], fl, bd))
            ctx.obs('output_windows', nwin)


def case_collide(ctx, version):
    """Several short recorded pieces starting in the same UTC second."""
    rng = ctx.rng
    for rep in range(pick(3, 10)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version)
        gaps, a = [], float(rng.uniform(3, 6))
        for _ in range(int(rng.integers(4, 9))):
            w = float(rng.uniform(0.08, 0.25))
            gaps.append((a, a + w))
            a += w + float(rng.uniform(0.12, 0.5))
        files = [lg.record(0, 40.0, gaps=gaps), lg.record(1, 30.0)]
        for f in files:
            f.write(d)
        fl = [1, 0.005, 24, 1 / 7][rep % 4]
        trs, _ = run(ctx, d, lg.SN, 'out%d' % rep, file_length_hour=fl)
        lo = np.ceil(np.round(files[0].t[0], 2))
        gl.judge(ctx, 'convert', trs, files, lg.wave, lo=lo, joints=10 ** 9)
        ctx.sig(version, 'collide', rep, len(gaps))


def case_rerun(ctx, version):
    """Converting twice into the same folder gives the same data again, nothing doubled or lost."""
    rng = ctx.rng
    d = ctx.sub('raw')
    lg = scen.logger(rng, version)
    files = scen.deploy(rng, d, lg, 5, p_gap=0.6)
    fl = float(rng.choice([0.01, 1, 24]))
    out = ctx.sub('out')
    kw = dict(SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m', gpspath=out + '/g', file_length_hour=fl)
    ctx.must('convert-failed', gemlog.convert, d, **kw)
    a = gl.md5_tree(out + '/c')
    ctx.must('convert-failed', gemlog.convert, d, **kw)
    b = gl.md5_tree(out + '/c')
    ctx.check(a == b, 'rerun-differs', 'a second identical conversion changed the output files: %s' % sorted(
        set(a.items()) ^ set(b.items()))[:4])
    ctx.sig(version, fl, len(a))


def case_isolated(ctx, version):
    """Single samples next to lapses at the edges of a file must not be spread over the lapse."""
    rng = ctx.rng
    for rep in range(pick(4, 12)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version)
        n = int(rng.integers(1, 4))
        e = 0.0049 + 0.01 * (n - 1)
        dur = 30.0
        gaps = []
        if rep % 2 == 0:
            gaps.append((e, e + float(rng.uniform(0.3, 0.9))))
        if rep % 4 != 0:
            gaps.append((dur - 0.0151 - float(rng.uniform(0.3, 0.9)), dur - 0.0151 - 0.01 * (n - 1)))
        files = [lg.record(0, dur, gaps=gaps)]
        if rep % 3 == 0:
            files.append(lg.record(1, 25.0))
        for f in files:
            f.write(d)
        trs, _ = run(ctx, d, lg.SN, 'out%d' % rep, file_length_hour=1)
        lo = -np.inf
        gl.judge(ctx, 'convert', trs, files, lg.wave, lo=np.ceil(files[0].t[0] - 0.006) if False else lo, joints=10 ** 9,
                 edge=1.06)
        ctx.sig(version, 'isolated', rep, n)


def make():
    c = Check('C02', 'random file sequences (format x gap/pause/restart/day pattern) converted with random window lengths '
              'and block sizes; every output sample is attributed to a recorded interval, overlaps, inventions and losses '
              'are counted, and the results of different settings are compared sample by sample; distinct = (format, '
              'pattern, window length, block size, number of stretches)',
              assumptions=['recorded stretches end where the simulator stopped sampling for more than 0.05 s; gaps of '
                           '0.025-0.05 s may be bridged or kept'],
              need=['windows_compared_with_truth', 'recorded_stretches_checked',
                    'samples_compared_between_configurations'])
    for v in VERSIONS:
        for m in ('mixed', 'continuous', 'lapses', 'days', 'many', 'joints'):
            for k in range(pick(1, 4)):
                c.add('%s_%s%s' % (v, m, k or ''), case_conserve, version=v, mode=m)
    for v in pick(('0.91', '0.8', '1.10'), VERSIONS):
        c.add('%s_collide' % v, case_collide, version=v)
        c.add('%s_rerun' % v, case_rerun, version=v)
        c.add('%s_isolated' % v, case_isolated, version=v)
    return c
