"""Shared oracles: judge what gemlog returned or wrote against the simulator's ground truth."""
import glob
import hashlib
import os

import numpy as np
import obspy

import gemsim
from gemsim import tr_times

CS = 0.01


def md5_tree(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, folder)] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return out


def read_folder(folder, pattern='*'):
    """-> [(basename, Trace)] of every trace in every file, in name order."""
    out = []
    for fn in sorted(glob.glob(os.path.join(glob.escape(folder), pattern))):
        if os.path.isfile(fn):
            for tr in obspy.read(fn):
                out.append((os.path.basename(fn), tr))
    return out


def span(tr):
    t = tr.stats.starttime.ns / 1e9
    return t, t + (tr.stats.npts - 1) * CS


def joined(traces, tol=0.0145):
    """Continuous stretches [(t0, samples)] obtained by joining traces that follow each other sample by sample
    (next start within tol of last sample + 0.01). Overlaps are returned separately."""
    ts = sorted(traces, key=lambda tr: (tr.stats.starttime.ns, tr.stats.npts))
    out, overlaps = [], []
    end = None
    for tr in ts:
        a, b = span(tr)
        if end is not None and a <= end + 0.001:
            overlaps.append((a, min(b, end)))
        if end is not None and abs(a - end - CS) < 0.002:
            out[-1][1].append(np.asarray(tr.data))
        else:
            out.append([a, [np.asarray(tr.data)]])
        end = b if end is None else max(b, end)
    return [(a, np.concatenate(d)) for a, d in out], overlaps


def wave_ok(ctx, tag, t, data, wave, max_dt=1.5e-3, win=2000, truth_gaps=(), noise=0.75, rel=1.6e-3):
    """The samples `data` at UTC `t` are the wave, to max_dt of timing and the interpolation error."""
    w = wave(t)
    d = wave.deriv(t)
    r = np.asarray(data, float) - w
    ok = np.ones(len(t), bool)
    for a, b in truth_gaps:                      # bridged lapses: no claim on the bridge itself
        ok &= ~((t > a - 0.025) & (t < b + 0.025))
    good = True
    drms = float(np.sqrt((d * d).mean())) + 1e-9
    edges = np.linspace(0, len(t), max(1, len(t) // win) + 1).astype(int)
    for i, i2 in zip(edges[:-1], edges[1:]):
        s = slice(i, i2)
        k = ok[s]
        if k.sum() < 20:
            continue
        rr, dd = r[s][k], d[s][k]
        den = float((dd * dd).sum())
        # timing error of this window: d is aperiodic, so the projection is the lag
        delta = float((rr * dd).sum()) / den
        se = 0.35 / np.sqrt(den)
        res = rr - delta * dd
        rms = float(np.sqrt((res * res).mean()))
        ctx.obs('windows_compared_with_truth')
        # drift of the waveform: mean residual must vanish too
        if abs(delta) > max_dt + 6 * se + 0.15 / drms:      # rounding to counts of slow waves
            ctx.bad(tag + ':time', 'samples around %s are shifted by %.2f ms (n %d, se %.3g ms, res rms %.2f, signal %.0f)' % (
                gemsim.iso(t[i]), -1e3 * delta, len(rr), se * 1e3, rms, np.std(w)))
            good = False
            break
        if rms > noise + rel * drms or np.abs(res).max() > 4 * noise + 12 * rel * drms:
            j = int(np.argmax(np.abs(res)))
            ctx.bad(tag + ':value', 'samples around %s differ from what was recorded: rms %.1f counts, max %.1f '
                    '(signal rms %.0f)' % (gemsim.iso(t[s][k][j]), rms, np.abs(res).max(), np.std(w)))
            good = False
            break
        if abs(float(np.mean(res))) > 0.3 + 0.05 * noise + 4 * rms / np.sqrt(len(res)) + 0.02 * rel * drms:
            ctx.bad(tag + ':offset', 'samples around %s are offset by %.2f counts' % (gemsim.iso(t[i]), np.mean(res)))
            good = False
            break
    ctx.obs('samples_compared_with_truth', len(t))
    return good


def truth_segments(files, lo=-np.inf, hi=np.inf, gap=0.05, also_cut=()):
    """Recorded intervals clipped to [lo, hi]; gaps longer than `gap` cut."""
    t = np.sort(np.concatenate([f.t for f in files]))
    t = t[(t >= lo) & (t <= hi)]
    if len(t) == 0:
        return []
    cut = np.where(np.diff(t) > gap)[0]
    s = np.concatenate([[0], cut + 1])
    e = np.concatenate([cut, [len(t) - 1]])
    return [(float(t[a]), float(t[b])) for a, b in zip(s, e)]


def small_gaps(files, lo=0.0145, hi=0.06):
    t = np.sort(np.concatenate([f.t for f in files]))
    d = np.diff(t)
    w = np.where((d > lo) & (d <= hi))[0]
    return [(float(t[i]), float(t[i + 1])) for i in w]


def judge(ctx, tag, traces, files, wave, lo=-np.inf, hi=np.inf, edge=0.06, joints=0, max_dt=1.5e-3, invent=0.03,
          wave_kw=None):
    """traces (any order) together are exactly the recording `files` between lo and hi.
    edge: seconds a recorded stretch may lose at each end; joints: allowed extra number of lost joints."""
    traces = [tr for tr in traces]
    ok = True
    for tr in traces:
        if not ctx.check(tr.data.dtype.kind == 'i', tag + ':dtype', 'samples are %s, not integers' % tr.data.dtype):
            ok = False
        if not ctx.check(abs(tr.stats.sampling_rate - 100) < 1e-6, tag + ':rate',
                         'sampling rate %r' % tr.stats.sampling_rate):
            return False
        ns = tr.stats.starttime.ns
        ctx.check(abs(ns - round(ns / 1e7) * 10 ** 7) <= 1500, tag + ':grid',
                  'start time %s is not on the 10-ms grid' % tr.stats.starttime)
    segs = truth_segments(files, lo, hi)
    stretches, overlaps = joined(traces)
    ctx.obs('stretches', len(stretches))
    for a, b in overlaps:
        ctx.bad(tag + ':duplicate', 'output time %s .. %s is covered more than once' % (gemsim.iso(a), gemsim.iso(b)))
        ok = False
    if overlaps:
        return False
    # nothing invented (sample times are rounded to the output grid, so allow for that at lo and hi as well)
    wide = [(max(s[0], lo - 0.02), min(s[1], hi + 0.02)) for s in truth_segments(files)
            if s[1] >= lo - 0.02 and s[0] <= hi + 0.02]
    for a, d in stretches:
        b = a + (len(d) - 1) * CS
        cover = [s for s in wide if s[1] >= a - 0.012 and s[0] <= b + 0.012]
        if not cover or a < cover[0][0] - invent or b > cover[-1][1] + invent or len(cover) > 1:
            ctx.bad(tag + ':invented', 'output %s .. %s goes beyond what was recorded (%s)' % (
                gemsim.iso(a), gemsim.iso(b), [(gemsim.iso(s[0]), gemsim.iso(s[1])) for s in cover][:4]))
            ok = False
    # nothing missing
    for s in segs:
        if s[1] - s[0] < 0.1:
            continue
        inside = sorted((max(a, s[0]), min(a + (len(d) - 1) * CS, s[1])) for a, d in stretches
                        if a <= s[1] and a + (len(d) - 1) * CS >= s[0])
        pos, lost = s[0], []
        for a, b in inside:
            if a - pos > edge:
                lost.append((pos, a))
            pos = max(pos, b)
        if s[1] - pos > edge:
            lost.append((pos, s[1]))
        ctx.obs('recorded_stretches_checked')
        if lost:
            ctx.bad(tag + ':missing', 'recorded %s .. %s but output lacks %s' % (
                gemsim.iso(s[0]), gemsim.iso(s[1]), [(gemsim.iso(a), gemsim.iso(b)) for a, b in lost[:4]]))
            ok = False
        if len(inside) > 1 + joints:
            ctx.bad(tag + ':broken', 'recorded stretch %s .. %s is broken into %d pieces' % (
                gemsim.iso(s[0]), gemsim.iso(s[1]), len(inside)))
            ok = False
    if ok:
        gaps = small_gaps(files)
        for a, d in stretches:
            if len(d) >= 30:
                t = a + np.arange(len(d)) * CS
                g = [q for q in gaps if q[1] > t[0] and q[0] < t[-1]]
                ok &= wave_ok(ctx, tag, t, d, wave, max_dt, truth_gaps=g, **(wave_kw or {}))
    return ok


def same_data(a, b, tol=0):
    """Two lists of traces carry the same samples at the same times, except near stretch edges.
    -> (n compared, n different, unmatched seconds)"""
    def arr(trs):
        ks, vs = [], []
        for tr in trs:
            k0 = int(round(tr.stats.starttime.ns / 1e7))
            ks.append(k0 + np.arange(tr.stats.npts))
            vs.append(np.asarray(tr.data))
        if not ks:
            return np.zeros(0, int), np.zeros(0)
        k, v = np.concatenate(ks), np.concatenate(vs)
        o = np.argsort(k, kind='stable')
        return k[o], v[o]
    ka, va = arr(a)
    kb, vb = arr(b)
    com, ia, ib = np.intersect1d(ka, kb, return_indices=True)
    diff = int((np.abs(va[ia].astype(float) - vb[ib]) > tol).sum())
    only = len(np.setdiff1d(ka, kb)) + len(np.setdiff1d(kb, ka))
    return len(com), diff, only, (len(ka) != len(np.unique(ka))) or (len(kb) != len(np.unique(kb)))


def exclude(traces, spans):
    """Pieces of the traces outside the spans [(a, b)]."""
    out = []
    for tr in traces:
        t = tr_times(tr)
        keep = np.ones(len(t), bool)
        for a, b in spans:
            keep &= ~((t >= a) & (t <= b))
        k = np.flatnonzero(keep)
        if len(k) == 0:
            continue
        for q in np.split(k, np.flatnonzero(np.diff(k) > 1) + 1):
            c = tr.copy()
            c.data = tr.data[q[0]:q[-1] + 1]
            c.stats.starttime = tr.stats.starttime + int(q[0]) * 0.01
            out.append(c)
    return out
