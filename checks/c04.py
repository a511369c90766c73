"""C04 t1 and t2 of a conversion are honoured."""
import numpy as np
import obspy
import gemlog

import gl
import scen
from gemsim import VERSIONS, iso
from mon import Check, pick


def places(rng, files, fl):
    """Interesting instants relative to the recording."""
    segs = gl.truth_segments(files)
    a, b = segs[0][0], segs[-1][1]
    L = float(fl) * 3600
    f = files[int(rng.integers(len(files)))]
    s = segs[int(rng.integers(len(segs)))]
    out = {'long_before': a - float(rng.uniform(90000, 300000)), 'before': a - float(rng.uniform(0.1, 500)),
           'inside': float(rng.uniform(s[0], s[1])), 'inside_any': float(rng.uniform(a, b)),
           'file_start': f.t[0], 'file_end': f.t[-1], 'just_inside': a + 0.3, 'near_end': b - 0.3,
           'whole_second': float(np.round(rng.uniform(s[0], s[1]))),
           'half_sample': float(np.floor(rng.uniform(s[0], s[1]) * 100) / 100 + 0.005),
           'on_sample': float(np.floor(rng.uniform(s[0], s[1]) * 100) / 100),
           'window': float(np.round(rng.uniform(a, b) / L) * L), 'midnight': float(np.round(b / 86400) * 86400),
           'after': b + float(rng.uniform(0.1, 1000)), 'long_after': b + float(rng.uniform(90000, 300000))}
    if len(segs) > 1:
        i = int(rng.integers(len(segs) - 1))
        out['gap'] = float(rng.uniform(segs[i][1], segs[i + 1][0]))
        out['gap_start'] = segs[i][1]
        out['gap_end'] = segs[i + 1][0]
    return out


def as_type(rng, t):
    k = int(rng.integers(4))
    if k == 0:
        return obspy.UTCDateTime(t)
    if k == 1:
        return float(t)
    if k == 2:
        return np.float64(t)
    if abs(t - round(t)) < 1e-9:
        return int(round(t))
    return obspy.UTCDateTime(t)


def case_limits(ctx, version, mode):
    rng = ctx.rng
    for rep in range(pick(4, 10)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version, t0=scen.start_time(rng, near_midnight=rng.random() < 0.5))
        if mode == 'continuous':
            files = scen.deploy(rng, d, lg, int(rng.integers(2, 7)), p_pause=0, p_gap=0, p_restart=0, p_missing=0)
        elif mode == 'gaps':
            files = scen.deploy(rng, d, lg, int(rng.integers(2, 6)), p_pause=0.5, p_gap=0.5, pauses=('short', 'tens'))
        elif mode == 'days':
            files = scen.deploy(rng, d, lg, int(rng.integers(3, 8)), p_pause=0.8, pauses=('hours', 'days'), p_missing=0.3)
        else:
            files = scen.deploy(rng, d, lg, int(rng.integers(10, 22)), dur=(21, 26), p_pause=0.3,
                                pauses=('short', 'hours'))
        fl = [24, 1, 0.01, 0.25, 1 / 7, 2][int(rng.integers(6))]
        if mode == 'days' and fl < 0.1:
            fl = 1
        bd = [1, 1 / 12, 0.25, 0.5][int(rng.integers(4))]
        first = min(f.t[0] for f in files)
        for j in range(3):
            pl = places(rng, files, fl)
            names = sorted(pl)
            n1 = names[int(rng.integers(len(names)))] if rng.random() < 0.75 else None
            n2 = names[int(rng.integers(len(names)))] if (rng.random() < 0.75 or n1 is None) else None
            if n1 and n2 and pl[n1] > pl[n2] and rng.random() < 0.85:
                n1, n2 = n2, n1
            kw, lo, hi = {}, np.ceil(np.round(first, 2) - 1e-9), np.inf
            if n1:
                kw['t1'] = as_type(rng, pl[n1])
                lo = float(obspy.UTCDateTime(kw['t1']))
            elif abs(first - round(first)) < 0.006:
                lo = first
            if n2:
                kw['t2'] = as_type(rng, pl[n2])
                hi = float(obspy.UTCDateTime(kw['t2']))
            out = ctx.sub('o%d_%d' % (rep, j))
            what = '[t1 %s, t2 %s, file_length_hour %.3g, blockdays %.3g, recorded %s .. %s]' % (
                n1 and '%s %.4f' % (n1, lo), n2 and '%s %.4f' % (n2, hi), fl, bd, iso(first),
                iso(max(f.t[-1] for f in files)))
            res, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                                gpspath=out + '/g', file_length_hour=fl, blockdays=bd, **kw)
            if not ctx.check(exc is None, 'convert-failed', 'convert raised %r %s' % (exc, what)):
                return
            trs = [tr for _, tr in gl.read_folder(out + '/c')]
            ok = True
            for tr in trs:
                a, b = gl.span(tr)
                ok &= ctx.check(a >= lo - 2e-3 if n1 else True, 'before-t1', 'output starts at %s, t1 is %s %s' % (
                    iso(a), iso(lo), what))
                ok &= ctx.check(b <= hi + 2e-3, 'after-t2', 'output ends at %s, t2 is %.4f %s' % (iso(b), hi, what))
            if ok and hi - lo > 0.1:
                ok = gl.judge(ctx, 'limits', trs, files, lg.wave, lo=lo, hi=hi, edge=0.06, joints=10 ** 9)
                if not ok:
                    ctx.viol[-1]['msg'] += ' ' + what
            elif ok and lo > hi:
                ctx.check(not trs, 'limits:invented', 'output although t1 is after t2 %s' % what)
            ctx.obs('conversions')
            ctx.obs('conversions_with_no_data_in_range', not trs)
            ctx.sig(version, mode, n1, n2, round(fl, 3), round(bd, 2), len(trs))
            if not ok:
                return


def make():
    c = Check('C04', 'random recordings converted with t1 and/or t2 placed at recorded instants, gaps, file and window '
              'boundaries, midnights and outside the recording, given as UTCDateTime, float or int; coverage and samples '
              'are judged against the true recording clipped to [t1, t2]; distinct = (format, pattern, place of t1, place '
              'of t2, window length, block size, number of output files)',
              assumptions=['the stretch lost at a cut edge may be up to 0.06 s, as at any edge'],
              need=['windows_compared_with_truth', 'recorded_stretches_checked', 'conversions_with_no_data_in_range'])
    for v in VERSIONS:
        for m in ('continuous', 'gaps', 'days', 'many'):
            for k in range(pick(1, 3)):
                c.add('%s_%s%s' % (v, m, k or ''), case_limits, version=v, mode=m)
    return c
