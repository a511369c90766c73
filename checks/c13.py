"""C13 metadata and GPS side files: complete, right, in order, never overwritten."""
import glob
import os

import numpy as np
import obspy
import pandas as pd
import gemlog

import gemsim
import gl
import scen
from gemsim import VERSIONS, iso
from mon import Check, pick

VALS = ['batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag',
        'unusedStack1', 'unusedStackIdle']


def trailing_meta(rng, lg, f):
    """A file whose last line is a state-of-health record a little after the last sample."""
    q = dict(f.meta[-1])
    x = round(f.x[-1] + float(rng.uniform(1, 9)))
    q['batt'] = 4.44
    q['t'] = float(lg.clock.utc(x))
    vals = ['%d' % (x % lg.rollover()), '%.2f' % q['batt'], '%.1f' % q['temp']]
    if lg.version != '0.8':
        vals += ['%.3f' % q['A2'], '%.3f' % q['A3']]
    vals += ['%d' % q[c] for c in VALS[4:]]
    f.lines.append('M,' + ','.join(vals))
    f.kinds.append('M')
    f.meta.append(q)


def first_meta(lg, f):
    """a state-of-health record made when the first sample is taken"""
    q = dict(f.meta[0])
    x = round(f.x[0] - gemsim.LATENCY)
    q['batt'], q['t'] = 4.55, float(lg.clock.utc(x))
    vals = ['%d' % (x % lg.rollover()), '%.2f' % q['batt'], '%.1f' % q['temp']]
    if lg.version != '0.8':
        vals += ['%.3f' % q['A2'], '%.3f' % q['A3']]
    vals += ['%d' % q[c] for c in VALS[4:]]
    k = f.kinds.index('D') + 1
    f.lines.insert(k, 'M,' + ','.join(vals))
    f.kinds.insert(k, 'M')
    f.meta.insert(0, q)


def check_meta(ctx, fn, files, what, lo=-np.inf, hi=np.inf):
    m = pd.read_csv(fn)
    truth = sorted([q for f in files for q in f.meta], key=lambda q: q['t'])
    ctx.obs('metadata_rows', len(m))
    for c in VALS + ['t']:
        if not ctx.check(c in m.columns, 'meta-columns', 'metadata table lacks column %s %s' % (c, what)):
            return False
    t = m['t'].to_numpy(float)
    tt = np.array([q['t'] for q in truth])
    inside = (tt >= lo) & (tt <= hi)
    if not ctx.check(not np.isnan(t).any(), 'meta-time-missing', '%d of %d metadata rows have no time %s' % (
            np.isnan(t).sum(), len(t), what)):
        return False
    if not ctx.check((np.diff(t) > 0).all(), 'meta-order', 'metadata rows are out of time order or repeated near %s %s' % (
            iso(t[int(np.argmin(np.diff(t)))]) if len(t) > 1 else '', what)):
        return False
    i = np.searchsorted(tt, t - 0.02)
    bad = [k for k in range(len(t)) if i[k] >= len(tt) or abs(tt[i[k]] - t[k]) > 5e-3]
    if not ctx.check(not bad, 'meta-time', 'metadata row at %s: no record was made then (nearest %s) %s' % (
            bad and iso(t[bad[0]]), bad and iso(tt[np.argmin(abs(tt - t[bad[0]]))]), what)):
        return False
    missing = np.setdiff1d(np.where(inside)[0], i)
    if not ctx.check(len(missing) == 0, 'meta-missing', '%d of %d metadata records are missing, the first of %s %s' % (
            len(missing), inside.sum(), len(missing) and iso(tt[missing[0]]), what)):
        return False
    cols = [c for c in VALS if not (c in ('A2', 'A3') and files[0].lines[0].endswith('0.8'))]
    for c in cols:
        v = m[c].to_numpy(float)
        w = np.array([truth[k][c] for k in i], float)
        k = np.where(~(np.abs(v - w) < 1e-6))[0]
        if not ctx.check(len(k) == 0, 'meta-value', '%s at %s is %r, recorded %r %s' % (
                c, len(k) and iso(t[k[0]]), len(k) and v[k[0]], len(k) and w[k[0]], what)):
            return False
    return True


def check_gps(ctx, fn, files, what, lo=-np.inf, hi=np.inf):
    g = pd.read_csv(fn)
    ctx.obs('gps_rows', len(g))
    for c in ('year', 'date', 'lat', 'lon', 't'):
        if not ctx.check(c in g.columns, 'gps-columns', 'GPS table lacks column %s %s' % (c, what)):
            return False
    t = np.array([float(obspy.UTCDateTime(str(q))) for q in g['t']])
    truth = [q for f in files for q in f.gps]
    wrong = {int(round(q[0])) for q in truth if not q[3]}        # could be mistaken for a good fix
    good = {int(q[0]): q for q in truth if q[3] and int(q[0]) not in wrong}
    every = [(float(q[0]), q[1], q[2]) for q in truth]
    tset = {}
    for q in every:
        tset.setdefault(int(round(q[0])), []).append(q)
    n = {}
    last = -np.inf
    for k in range(len(t)):
        key = int(round(t[k]))
        near = [q for q in tset.get(key, []) if abs(q[0] - t[k]) < 1e-3 and abs(q[1] - g['lat'][k]) < 1e-6
                and abs(q[2] - g['lon'][k]) < 1e-6]
        if not ctx.check(near, 'gps-value', 'GPS row %s %.5f %.5f was not recorded %s' % (
                iso(t[k]), g['lat'][k], g['lon'][k], what)):
            return False
        u = obspy.UTCDateTime(t[k])
        date = u.julday + (t[k] % 86400) / 86400
        if not ctx.check(g['year'][k] == u.year and abs(g['date'][k] - date) < 1e-7, 'gps-date',
                         'GPS row %s has year %s, date %.6f (should be %.6f) %s' % (iso(t[k]), g['year'][k], g['date'][k],
                                                                                date, what)):
            return False
        if key in good and abs(near[0][1] - good[key][1]) < 1e-6:
            n[key] = n.get(key, 0) + 1
            if not ctx.check(t[k] > last or n[key] > 1, 'gps-order', 'GPS rows are out of order at %s %s' % (iso(t[k]), what)):
                return False
            last = t[k]
    want = [k for k in good if lo <= k <= hi]
    miss = sorted(k for k in want if n.get(k, 0) == 0)
    rep = sorted(k for k in n if n[k] > 1)
    ok = ctx.check(not miss, 'gps-missing', '%d of %d GPS fixes are missing, the first of %s %s' % (
        len(miss), len(want), miss and iso(miss[0]), what))
    ok &= ctx.check(not rep, 'gps-repeated', '%d GPS fixes occur more than once, the first of %s %s' % (
        len(rep), rep and iso(rep[0]), what))
    return ok


def record(ctx, version, mode, d, SN=None):
    rng = ctx.rng
    lg = scen.logger(rng, version, SN=SN, meta_period=float(rng.choice([0.25, 1.0, 1.0, 3.7])))
    kw = {}
    if mode == 'outliers':
        kw['gps_bad'] = {}
    files = []
    n = int(rng.integers(2, 7)) if mode != 'many' else int(rng.integers(12, 30))
    num = scen.first_number(rng)
    for i in range(n):
        dur = float(rng.uniform(75, 110) if mode == 'outliers' else rng.uniform(22, 34))
        bad = {}
        if mode == 'outliers':
            for _ in range(int(rng.integers(0, 4))):
                bad[int(rng.integers(0, 70))] = float(rng.choice([-86400 * 7168, 86400 * 7168, -3600, 17, 40 * 86400]))
        gps = [(0, dur)] if mode != 'none' or i != 1 else 'none'
        gaps = scen.gap_list(rng, dur, 2) if mode == 'gaps' and rng.random() < 0.7 else ()
        reject = mode == 'rejected' and (i == 1 or rng.random() < 0.3) and i != 0
        if reject:          # seconds of samples lost within a file: its times cannot be told, the file is left out
            a = float(rng.uniform(4, 12))
            gaps = [(a, a + float(rng.uniform(1.3, 7.0)))]
        f = lg.record(num, round(dur, 2), gps='normal' if gps != 'none' else 'none', gaps=gaps, gps_bad=bad)
        if mode == 'trailing' and rng.random() < 0.7:
            trailing_meta(rng, lg, f)
        f.write(d)
        if not reject:
            files.append(f)
        num += 1 + (int(rng.integers(0, 14)) if rng.random() < 0.2 else 0)
        if mode == 'restart' and rng.random() < 0.5:
            lg.skip(float(rng.uniform(3, 9000)), restart=True)
        elif mode in ('gaps', 'many') and rng.random() < 0.3:
            scen.pause(rng, ['short', 'tens', 'hours', 'days'][int(rng.integers(4))], lg)
    return lg, files


def case_tables(ctx, version, mode):
    rng = ctx.rng
    for rep in range(pick(3, 10)):
        d, out = ctx.sub('raw%d' % rep), ctx.sub('out%d' % rep)
        lg, files = record(ctx, version, mode, d)
        conv = [f for f in files if f.gps]
        bd = [1, 1 / 12, 0.25, 0.5][int(rng.integers(4))]
        kw, lo, hi = {}, -np.inf, np.inf
        a, b = conv[0].t[0], conv[-1].t[-1]
        if mode == 'limits':
            if rng.random() < 0.7:
                kw['t1'] = obspy.UTCDateTime(round(float(rng.uniform(a, b)), 2))
                lo = float(kw['t1'])
            if rng.random() < 0.7:
                kw['t2'] = obspy.UTCDateTime(round(float(rng.uniform(max(a, lo), b)), 2))
                hi = float(kw['t2'])
        what = '[%s blockdays %.3g files %s t1 %s t2 %s]' % (version, bd, [f.num for f in files], kw.get('t1'), kw.get('t2'))
        _, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                          gpspath=out + '/g', blockdays=bd, file_length_hour=0.02, **kw)
        if not ctx.check(exc is None, 'convert-failed', 'convert raised %r %s' % (exc, what)):
            return
        ms, gs = sorted(os.listdir(out + '/m')), sorted(os.listdir(out + '/g'))
        ok = ctx.check(ms == [lg.SN + 'metadata_000.txt'] and gs == [lg.SN + 'gps_000.txt'], 'names',
                       'side files are %s %s %s' % (ms, gs, what))
        ok = ok and check_meta(ctx, out + '/m/' + ms[0], conv, what, lo, hi)
        ok = ok and check_gps(ctx, out + '/g/' + gs[0], conv, what, lo, hi)
        ctx.obs('conversions')
        ctx.sig(version, mode, round(bd, 2), len(files), len(kw))
        if not ok:
            return


def case_counter_start(ctx, version):
    """The logger's millisecond counter is at or near 0 when the recording starts, and files are left out."""
    rng = ctx.rng
    for rep in range(pick(4, 20)):
        d, out = ctx.sub('raw%d' % rep), ctx.sub('out%d' % rep)
        roll = 2 ** 16 if version in ('0.8', '0.85') else 2 ** 13
        lg = scen.logger(rng, version, x0=roll * float(rng.integers(0, 5)) + gemsim.LATENCY + float(rng.integers(0, 2)))
        files, rejected = [], 0
        for i in range(int(rng.integers(2, 5))):
            bad = i > 0 and rng.random() < 0.6
            f = lg.record(i, round(float(rng.uniform(22, 30)), 2), gps='none' if bad else 'normal')
            if i == 0:
                first_meta(lg, f)
            f.write(d)
            rejected += bad
            if not bad:
                files.append(f)
        what = '[%s counter at %d, %d files without GPS]' % (version, round(lg.x0) % roll, rejected)
        _, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m', gpspath=out + '/g')
        if not ctx.check(exc is None, 'convert-failed', 'convert raised %r %s' % (exc, what)):
            return
        if not (check_meta(ctx, '%s/m/%smetadata_000.txt' % (out, lg.SN), files, what) and
                check_gps(ctx, '%s/g/%sgps_000.txt' % (out, lg.SN), files, what)):
            return
        ctx.obs('counter_starts')
        ctx.sig('counter', version, rejected, round(lg.x0) % roll)


def case_repeat(ctx):
    """Repeated conversions, several loggers in one folder, pre-existing and explicitly named tables."""
    rng = ctx.rng
    for rep in range(pick(2, 6)):
        d, out = ctx.sub('raw%d' % rep), ctx.sub('out%d' % rep)
        recs = []
        for SN in ('061', '106', '610')[:int(rng.integers(1, 4))]:
            recs.append(record(ctx, VERSIONS[1 + int(rng.integers(5))], 'gaps', d, SN=SN))
        if len({lg.version == '0.8' for lg, _ in recs}) > 1:
            continue
        for k in range(3):
            for lg, files in recs:
                m0, g0 = gl.md5_tree(out + '/m'), gl.md5_tree(out + '/g')
                if k == 1 and rng.random() < 0.6:       # the user removed or added one
                    if rng.random() < 0.5 and len(g0) > 0:
                        os.rename(out + '/g/' + sorted(g0)[0], out + '/g/' + sorted(g0)[0][:-7] + '007.txt')
                    else:
                        with open(out + '/m/%smetadata_00%d.txt' % (lg.SN, int(rng.integers(1, 3))), 'w') as f:
                            f.write('mine\n')
                    m0, g0 = gl.md5_tree(out + '/m'), gl.md5_tree(out + '/g')
                _, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                                  gpspath=out + '/g', blockdays=[1, 1 / 12][int(rng.integers(2))], file_length_hour=1)
                if not ctx.check(exc is None, 'convert-failed', 'convert raised %r' % exc):
                    return
                m1, g1 = gl.md5_tree(out + '/m'), gl.md5_tree(out + '/g')
                for old, new, kind, fn in ((m0, m1, 'metadata', check_meta), (g0, g1, 'gps', check_gps)):
                    changed = [q for q in old if new.get(q) != old[q]]
                    if not ctx.check(not changed, 'overwritten', 'an earlier table was changed: %s' % changed):
                        return
                    added = sorted(set(new) - set(old))
                    free = next('%s%s_%03d.txt' % (lg.SN, kind, q) for q in range(1000)
                                if '%s%s_%03d.txt' % (lg.SN, kind, q) not in old)
                    if not ctx.check(added == [free], 'numbering', 'new tables %s, the next free one is %s (present %s)' % (
                            added, free, sorted(old))):
                        return
                    if not fn(ctx, out + ('/m/' if kind == 'metadata' else '/g/') + added[0], files, '[repeat]'):
                        return
                ctx.obs('repeated_conversions')
                ctx.sig(k, len(recs), lg.version, len(m0), len(g0))
        # explicitly named side files
        lg, files = recs[0]
        os.makedirs(out + '/named', exist_ok=True)
        _, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatafile=out + '/named/m.csv',
                          gpsfile=out + '/named/g.csv')
        if not ctx.check(exc is None, 'convert-failed', 'convert with named side files raised %r' % exc):
            return
        check_meta(ctx, out + '/named/m.csv', files, '[named]')
        check_gps(ctx, out + '/named/g.csv', files, '[named]')
        ctx.obs('named_side_files')


def case_read(ctx, version):
    """read_gem returns the same tables."""
    rng = ctx.rng
    for rep in range(pick(3, 8)):
        d = ctx.sub('raw%d' % rep)
        lg, files = record(ctx, version, ['gaps', 'restart', 'outliers'][rep % 3], d)
        L = ctx.must('read-failed', gemlog.read_gem, d, SN=lg.SN)
        L['metadata'].to_csv('m.csv', index=False)
        L['gps'].to_csv('g.csv', index=False)
        check_meta(ctx, 'm.csv', files, '[read_gem %s]' % version)
        check_gps(ctx, 'g.csv', files, '[read_gem %s]' % version)
        ctx.sig('read', version, len(files))


def make():
    c = Check('C13', 'random recordings (all formats; lapses, restarts, many files, wrong fixes, a file without GPS, t1/t2, '
              'a file ending in a state-of-health record) converted with various block sizes; every row of the metadata '
              'and GPS tables is matched with the record or fix the simulated logger wrote, one to one; repeated '
              'conversions are watched for changed or misnumbered tables; distinct = (format, pattern, block size, number '
              'of files)',
              assumptions=['rows outside [t1, t2] may or may not be included when t1 or t2 is given',
                           'wrong fixes may be dropped from or kept in the GPS table, but only as recorded'],
              need=['metadata_rows', 'gps_rows', 'repeated_conversions', 'named_side_files'])
    for v in VERSIONS:
        for m in ('gaps', 'restart', 'many', 'outliers', 'none', 'limits', 'trailing', 'rejected'):
            c.add('%s_%s' % (v, m), case_tables, version=v, mode=m)
        c.add(v + '_counter', case_counter_start, version=v)
        c.add('read_' + v, case_read, version=v)
    for k in range(pick(3, 8)):
        c.add('repeat%d' % k, case_repeat)
    return c
