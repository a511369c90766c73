"""C09 GPS outliers do not shift times; files with untrustworthy GPS are refused."""
import copy
import os

import numpy as np
import obspy
import gemlog
from gemlog.exceptions import CorruptRawFile

import gl
import scen
from gemsim import VERSIONS, iso, tr_times
from mon import Check, pick

WRONG = [-86400 * 7168.0, 86400 * 1024.0, -3600.0, 3600.0, 86400.0, -86400.0, 40 * 86400.0, -17.0, 60.0, 31.0, 7.0, -2.0, 1.0]


def spoil(rng, line, k=None):
    """An invalid fix: the line says something no valid fix says."""
    p = line.split(',')
    k = int(rng.integers(14)) if k is None else k
    if k == 0:
        p[9] = '0.00000'
    elif k == 1:
        p[10] = '0.00000'
    elif k == 2:
        p[9] = '95.10000'
    elif k == 3:
        p[10] = '-190.00000'
    elif k == 4:
        p[2] = '1500'
    elif k == 5:
        p[2] = '-3'
    elif k == 6:
        p[3] = str(rng.choice([1980, 2000, 2013, 2041, 2098]))
    elif k == 7:
        p[4] = str(rng.choice([0, 13]))
    elif k == 8:
        p[5] = str(rng.choice([0, 32]))
    elif k == 9:
        p[6] = '25'
    elif k == 10:
        p[7] = '61'
    elif k == 11:
        p[8] = '12.5'
    elif k == 12:
        p[4], p[5] = '2', '31'
    else:
        p[3:9] = ['2098', '1', '1', '0', '0', '0.0']
    return ','.join(p)


def strip_lines(f, idx):
    g = copy.copy(f)
    drop = set(idx)
    g.lines = [q for i, q in enumerate(f.lines) if i not in drop]
    return g


def case_outliers(ctx, version, mode):
    rng = ctx.rng
    for rep in range(pick(12, 60)):
        d, dc = ctx.sub('raw%d' % rep), ctx.sub('clean%d' % rep)
        lg = scen.logger(rng, version)
        files, bad = [], []
        num = scen.first_number(rng)
        for i in range(int(rng.integers(1, 4))):
            cyc = mode == 'cycles'
            dur = float(rng.uniform(240, 420) if cyc else rng.uniform(85, 240))
            nfix = int(dur * 0.2) if cyc else int(dur) - 2
            nbad = int(rng.integers(1, 1 + max(1, nfix // 35)))
            where = rng.integers(3)                 # anywhere, at the start, at the end
            lo, hi = [(0, nfix), (0, min(3, nfix)), (max(0, nfix - 4), nfix)][int(where)]
            idx = sorted({int(q) for q in rng.integers(lo, hi, nbad)})
            gb = {}
            if mode != 'invalid':
                gb = {k: float(WRONG[int(rng.integers(len(WRONG)))]) for k in idx}
            # a receiver warming up gives many fixes that say themselves that they are invalid
            warm = int(rng.uniform(0.05, 0.4) * nfix) if mode == 'invalid' and not cyc and rng.random() < 0.4 else 0
            idx = sorted(set(idx) | set(range(warm)))
            f = lg.record(num, round(dur, 2), gps='cycles' if cyc else 'normal', gps_bad=gb,
                          gaps=scen.gap_list(rng, dur, 2) if mode == 'gaps' else ())
            g = [k for k, q in enumerate(f.kinds) if q == 'G']
            spoiled = [g[k] for k in gb if k < len(g)]
            if mode == 'invalid':
                spoiled = [g[k] for k in idx if k < len(g)]
                kind = int(rng.integers(14))
                for j, k in enumerate(spoiled):
                    f.lines[k] = spoil(rng, f.lines[k], kind if warm and j < warm else None)
                ctx.obs('warm_up_fixes', warm)
            f.write(d)
            strip_lines(f, spoiled).write(dc)
            files.append(f)
            bad.append({g.index(k): gb.get(g.index(k), f.lines[k]) for k in spoiled})
            num += 1
            if rng.random() < 0.3:
                lg.skip(float(rng.uniform(2, 200)), restart=bool(rng.random() < 0.3))
        what = '[%s %s fixes %s wrong %s]' % (version, mode, [len(f.gps) for f in files], bad)
        L = ctx.must('outliers:refused', gemlog.read_gem, d, SN=lg.SN)
        C = ctx.must('clean:refused', gemlog.read_gem, dc, SN=lg.SN)
        if not gl.judge(ctx, 'outliers', list(L['data']), files, lg.wave):
            ctx.viol[-1]['msg'] += ' ' + what
            return
        n, diff, only, dup = gl.same_data(L['data'], C['data'], tol=1 + 0.02 * np.abs(np.diff(files[0].counts)).max())
        if not ctx.check(diff == 0 and only <= 6 * len(files) and not dup, 'outliers:differs',
                         '%d of %d samples differ from what is read without the wrong fixes, %d at other times %s' % (
                             diff, n, only, what)):
            return
        ctx.obs('wrong_fixes', sum(len(b) for b in bad))
        ctx.obs('files_with_wrong_fixes', sum(bool(b) for b in bad))
        ctx.sig(version, mode, [len(b) for b in bad], len(files))


def untrustworthy(rng, lg, kind, num):
    """A file that must be refused."""
    dur = float(rng.uniform(40, 200))
    if kind == 'none':
        return lg.record(num, round(dur, 2), gps='none')
    if kind == 'nine':
        a = [dur * k / 10.5 for k in range(10)]
        f = lg.record(num, round(dur, 2), gps=[(q, q + 1.0) for q in a])
        g = [k for k, q in enumerate(f.kinds) if q == 'G']
        keep = set(rng.choice(g, min(9, int(rng.integers(1, 10)), len(g)), replace=False).tolist())
        f = strip_lines(f, [k for k in g if k not in keep])
        return f
    if kind == 'half':
        c = float(rng.uniform(0.05, 0.47))
        a = float(rng.choice([0, rng.uniform(0, 1 - c), 1 - c]))
        dur = max(dur, 24 / c)
        return lg.record(num, round(dur, 2), gps=[(a * dur, (a + c) * dur)])
    if kind == 'half_outlier':           # as 'half', but a wrong fix far away pretends to cover the file
        dur = float(rng.uniform(200, 500))
        c = float(rng.uniform(0.25, 0.45))
        last = rng.random() < 0.5
        w = [(0, c * dur), (dur - 5, dur - 4)] if last else [(4, 5), ((1 - c) * dur, dur)]
        n = int(c * dur)
        f = lg.record(num, round(dur, 2), gps=w)
        g = [k for k, q in enumerate(f.kinds) if q == 'G']
        k = g[-1] if last else g[0]
        j = len(g) - 1 if last else 0
        # shift the far fix by an error that cannot be consistent with the others
        p = f.lines[k].split(',')
        t = obspy.UTCDateTime(f.gps[j][0] + float(rng.choice([3600, -3600, 977])))
        p[3:9] = [str(t.year), str(t.month), str(t.day), str(t.hour), str(t.minute), '%d.0' % t.second]
        f.lines[k] = ','.join(p)
        return f
    if kind == 'half_wrongend':          # as 'half', but the first or last fix has a date that pretends to cover it
        dur = float(rng.uniform(250, 500))
        c = float(rng.uniform(0.3, 0.45))
        n = len(np.arange(np.ceil(0.05), np.floor(c * dur)))
        j, e = [(n - 1, float(rng.choice([3600, 977, 86400]))), (0, -float(rng.choice([3600, 977, 86400])))][
            int(rng.integers(2))]
        f = lg.record(num, round(dur, 2), gps=[(0, c * dur)])
        g = [k for k, q in enumerate(f.kinds) if q == 'G']
        k = g[-1] if j else g[0]
        p = f.lines[k].split(',')
        t = obspy.UTCDateTime(f.gps[-1 if j else 0][0] + e)
        p[3:9] = [str(t.year), str(t.month), str(t.day), str(t.hour), str(t.minute), '%d.0' % t.second]
        f.lines[k] = ','.join(p)
        return f
    if kind == 'step':
        n = int(dur) - 3
        k = int(rng.integers(max(6, n // 5), n - max(6, n // 5)))
        e = float(rng.choice([1, -1, 2, 18, -17, 3600]))
        return lg.record(num, round(dur, 2), gps_bad={i: e for i in range(k, 1000)})
    if kind == 'scatter':               # no consistent fixes
        n = int(dur)
        return lg.record(num, round(dur, 2), gps_bad={i: float(rng.integers(-60, 60)) * 2 + 1 for i in range(n)})
    if kind == 'allbad':
        f = lg.record(num, round(dur, 2))
        for k, q in enumerate(f.kinds):
            if q == 'G':
                p = f.lines[k].split(',')
                p[9] = '0.00000'
                f.lines[k] = ','.join(p)
        return f
    raise ValueError(kind)


REFUSE = ['none', 'nine', 'half', 'half_outlier', 'half_wrongend', 'step', 'scatter', 'allbad']


def case_refuse(ctx, version, kind):
    rng = ctx.rng
    for rep in range(pick(5, 25)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version)
        num = scen.first_number(rng)
        n = int(rng.integers(1, 4))
        pos = int(rng.integers(n))
        files = []
        for i in range(n):
            f = untrustworthy(rng, lg, kind, num) if i == pos else lg.record(num, round(float(rng.uniform(25, 40)), 2))
            f.write(d)
            files.append(f)
            num += 1
        b = files[pos]
        good = [f for i, f in enumerate(files) if i != pos]
        what = '[%s %s: %s of %s, %.0f s, %d fixes]' % (version, kind, b.name, [f.name for f in files], b.t[-1] - b.t[0],
                                                        sum(q == 'G' for q in b.kinds))
        L, exc = ctx.call(gemlog.read_gem, d, SN=lg.SN)
        if good:
            if not ctx.check(exc is None, 'refuse:abort', 'read_gem raised %r %s' % (exc, what)):
                return
            for tr in L['data']:
                a, e = gl.span(tr)
                if not ctx.check(not (a < b.t[-1] - 0.1 and e > b.t[0] + 0.1) and a > 1e9, 'not-refused',
                                 'samples %s .. %s although the file at %s .. %s has no trustworthy GPS %s' % (
                                     iso(a), iso(e), iso(b.t[0]), iso(b.t[-1]), what)):
                    return
            if not gl.judge(ctx, 'refuse', list(L['data']), good, lg.wave):
                ctx.viol[-1]['msg'] += ' ' + what
                return
            ctx.check(any(b.name in p for p in L['problems']), 'not-reported', 'problems %s do not name the refused file %s' % (
                L['problems'], what))
        else:
            ok = ctx.check(exc is not None and isinstance(exc, CorruptRawFile), 'not-refused',
                           'read_gem returned %s, raised %r %s' % (None if L is None else L['data'], exc, what))
            if not ok:
                return
            _, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath='c%d' % rep, metadatapath='m%d' % rep,
                              gpspath='g%d' % rep)
            if not ctx.check(exc is not None and not os.path.exists('c%d' % rep) or not os.listdir('c%d' % rep),
                             'not-refused', 'convert wrote %s %s' % (os.path.exists('c%d' % rep) and os.listdir('c%d' % rep), what)):
                return
        ctx.obs('files_refused')
        ctx.sig(version, kind, n, pos)


def case_boundary(ctx, version):
    """Just adequate GPS is accepted: ten fixes or more, coverage just above one half."""
    rng = ctx.rng
    for rep in range(pick(5, 20)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version, drift=float(rng.uniform(-1e-5, 1e-5)), quad=0)
        dur = float(rng.uniform(60, 200))
        if rep % 2:
            w = [(0, .03 * dur)] + [(dur * q, dur * q + 1.0) for q in np.linspace(.1, .9, 9)] + [(dur - 6, dur)]
        else:
            c = float(rng.uniform(0.56, 0.9))
            a = float(rng.uniform(0, 1 - c))
            w = [(a * dur, (a + c) * dur)]
        f = lg.record(scen.first_number(rng), round(dur, 2), gps=w)
        g = [k for k, q in enumerate(f.kinds) if q == 'G']
        if len(g) < 11:
            continue
        f.write(d)
        L = ctx.must('adequate-refused', gemlog.read_gem, d, SN=lg.SN)
        # the cubic fit extrapolates to the uncovered part: times there are less certain, completeness is not
        n = sum(tr.stats.npts for tr in L['data'])
        ctx.check(len(f.t) - 4 <= n <= len(f.t) + 4, 'adequate:incomplete', '%d of %d samples' % (n, len(f.t)))
        if rep % 2 and not gl.judge(ctx, 'adequate', list(L['data']), [f], lg.wave, max_dt=4e-3):
            return
        ctx.obs('adequate_files')
        ctx.sig('boundary', version, rep % 2, len(g))


def case_waived(ctx, version):
    """require_gps=False: samples of untrustworthy files come back at nominal rate, in order and complete."""
    rng = ctx.rng
    import c22
    for rep in range(pick(6, 25)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version)
        kind = ['none', 'nine', 'half', 'none', 'allbad', 'scatter'][rep % 6]
        f = untrustworthy(rng, lg, kind, scen.first_number(rng))
        f.write(d)
        what = '[waived %s %s, %d fixes]' % (version, kind, sum(q == 'G' for q in f.kinds))
        L = ctx.must('waived:refused', gemlog.read_gem, d, SN=lg.SN, require_gps=False)
        if kind != 'half':
            c22.nominal_ok(ctx, L['data'], f, what)
        else:
            n = sum(tr.stats.npts for tr in L['data'])
            ctx.check(len(f.t) - 4 <= n <= len(f.t) + 4, 'waived:incomplete', '%d of %d samples %s' % (n, len(f.t), what))
        ctx.obs('waived_files')
        ctx.sig('waived', version, kind)
    # several files without GPS: one recording, in order
    for rep in range(pick(2, 8)):
        d = ctx.sub('many%d' % rep)
        lg = scen.logger(rng, version)
        files = [lg.record(5 + i, round(float(rng.uniform(10, 30)), 2), gps='none') for i in range(int(rng.integers(2, 6)))]
        for f in files:
            f.write(d)
        L = ctx.must('waived:refused', gemlog.read_gem, d, SN=lg.SN, require_gps=False)
        f = copy.copy(files[0])
        f.x = np.concatenate([q.x for q in files])
        f.counts = np.concatenate([q.counts for q in files])
        f.seg_starts = np.array([0])
        c22.nominal_ok(ctx, L['data'], f, '[waived %s, %d files without GPS]' % (version, len(files)))
        ctx.obs('waived_series')
        ctx.sig('waived', version, len(files))


def make():
    c = Check('C09', 'fault injection on GPS records: wrong times (seconds to decades), invalid fields, at the start, end or '
              'anywhere in continuous or cycled GPS; sample times judged against the true recording and against the same '
              'files without the wrong fixes; files with no, scarce, short, stepping, scattered or invalid GPS watched for '
              'refusal, alone and among good files; waived requirement watched for complete samples at nominal rate; '
              'distinct = (format, fault kind, fault counts or position)',
              level='fault_enumeration',
              assumptions=['"a few" wrong fixes: at most 1 in 35 (one-in-thousands in the field)',
                           'wrong fixes have wrong dates or invalid fields; a damaged millisecond field counts as a damaged line'],
              need=['wrong_fixes', 'files_refused', 'adequate_files', 'waived_files', 'windows_compared_with_truth'])
    for v in VERSIONS:
        for m in ('time', 'invalid', 'cycles', 'gaps'):
            c.add('%s_%s' % (v, m), case_outliers, version=v, mode=m)
        for k in REFUSE:
            c.add('%s_refuse_%s' % (v, k), case_refuse, version=v, kind=k)
        c.add(v + '_boundary', case_boundary, version=v)
        c.add(v + '_waived', case_waived, version=v)
    return c
