"""C23 the waveform database and the channel statistics describe the files."""
import os

import numpy as np
import obspy
import pandas as pd
import scipy.signal
from obspy import UTCDateTime as UTC

from gemlog import make_db, calc_channel_stats

from mon import Check, pick


def highpassed_std(x, fs):
    x = scipy.signal.detrend(np.asarray(x, float), type='linear')
    # same straight line through the end points or least squares: only signals without a strong trend are compared closely
    return float(np.std(scipy.signal.sosfilt(scipy.signal.butter(4, 0.5, 'highpass', fs=fs, output='sos'), x)))


def make_files(rng, d, n):
    truth = []
    stas = [str(q) for q in rng.choice(['003', '042', '101', 'ABC', 'A1', 'GEM12', '7'], int(rng.integers(1, 4)), replace=False)]
    used = set()
    for i in range(n):
        fs = float(rng.choice([100, 100, 50]))
        npts = int(rng.integers(300, 6000))
        t = UTC(2020, 3, 1) + int(rng.integers(0, 8000)) * 60 + float(rng.integers(0, 100)) / 100
        sta = stas[int(rng.integers(len(stas)))]
        tt = np.arange(npts) / fs
        amp = float(np.exp(rng.uniform(np.log(3), np.log(3e4))))
        x = amp * rng.normal(size=npts) + rng.integers(-5000, 5000) + 500 * np.sin(2 * np.pi * 0.02 * tt)
        x = np.round(x).astype('int32')
        fmt = str(rng.choice(['MSEED', 'MSEED', 'SAC']))
        tr = obspy.Trace(x, dict(network=str(rng.choice(['', 'XX'])), station=sta, location=str(rng.choice(['', '00', '01'])), channel='HDF',
                                 starttime=t, sampling_rate=fs))
        fn = '%s.%s.%s.%s.%s.%s' % (t.strftime('%Y-%m-%dT%H_%M_%S'), tr.stats.network, sta, tr.stats.location, 'HDF', fmt.lower())
        if fn in used:
            continue
        used.add(fn)
        tr.write(os.path.join(d, fn), format=fmt)
        truth.append(dict(fn=fn, station=sta, location=tr.stats.location, max=int(x.max()), min=int(x.min()),
                          t1=tr.stats.starttime, t2=tr.stats.endtime, amp=highpassed_std(x, fs)))
    return truth


def junk(rng, d, k):
    for i in range(k):
        w = int(rng.integers(4))
        name = '%s%02d.%s' % (rng.choice(['0', '2020-03-02T00_00_', 'zz', 'README']), i, rng.choice(['mseed', 'sac', 'txt']))
        with open(os.path.join(d, name), 'wb') as f:
            f.write([b'', b'not a waveform\n' * 20, rng.bytes(3000), b'000001D \x00\x00'][w])


def case_db(ctx):
    rng = ctx.rng
    import fnmatch
    for rep in range(pick(10, 60)):
        d = ctx.sub('files%d' % rep)
        truth = make_files(rng, d, int(rng.integers(1, 12)))
        junk(rng, d, int(rng.integers(0, 4)))
        pattern = [None, None, '*', '*.mseed', '*.sac', '*.%s.*' % truth[0]['station']][int(rng.integers(6))]
        want = sorted([t for t in truth if pattern is None or fnmatch.fnmatchcase(t['fn'], pattern)], key=lambda t: t['fn'])
        if not want:
            continue
        save = os.path.join(ctx.dir, 'db%d.csv' % rep) if rng.random() < .5 else None
        before = {f: (os.stat(os.path.join(d, f)).st_mtime_ns, os.stat(os.path.join(d, f)).st_size) for f in os.listdir(d)}
        a = [d] + ([pattern] if pattern is not None else [])
        db = ctx.must('failed', make_db, *a, **({'savefile': save} if save else {}), verbose=bool(rng.random() < .3))
        after = {f: (os.stat(os.path.join(d, f)).st_mtime_ns, os.stat(os.path.join(d, f)).st_size) for f in os.listdir(d)}
        ctx.check(before == after, 'folder-changed', 'make_db changed the data folder')
        got = [os.path.basename(f) for f in db['filename']]
        ctx.obs('files', len(want))
        ctx.sig(len(want), pattern is None, save is None)
        if not ctx.check(got == [t['fn'] for t in want], 'rows', 'make_db lists %s, the readable matching files are %s' % (got, [t['fn'] for t in want])):
            continue
        tabs = [('returned', db)]
        if save:
            tabs.append(('saved', pd.read_csv(save, dtype={'station': str, 'location': str}, keep_default_na=False)))
        for what, tab in tabs:
            for t, (_, r) in zip(want, tab.iterrows()):
                w = '%s row of %s' % (what, t['fn'])
                ctx.check(os.path.exists(r['filename']) and os.path.samefile(r['filename'], os.path.join(d, t['fn'])), 'file', w)
                ctx.check(str(r['station']) == t['station'] and str(r['location']) == t['location'], 'codes', '%s: %r.%r' % (w, r['station'], r['location']))
                ctx.check(float(r['max']) == t['max'] and float(r['min']) == t['min'], 'extremes', '%s: %s..%s, data %s..%s' % (w, r['min'], r['max'], t['min'], t['max']))
                ctx.check(abs(UTC(str(r['t1'])) - t['t1']) < 2e-3 and abs(UTC(str(r['t2'])) - t['t2']) < 2e-3, 'span', '%s: %s - %s, file %s - %s' % (
                    w, r['t1'], r['t2'], t['t1'], t['t2']))
                ctx.check(abs(r['amp_HP'] - t['amp']) <= 0.02 * t['amp'] + .3, 'amplitude', '%s: amp_HP %g, the data have %g' % (w, r['amp_HP'], t['amp']))
                ctx.obs('rows')


def norm(s):
    return str(int(s)) if isinstance(s, (int, float, np.number)) else str(s)


def quart(a):
    return float(np.quantile(a, .25)), float(np.quantile(a, .75))


def case_stats(ctx):
    rng = ctx.rng
    for rep in range(pick(60, 300)):
        base = UTC(2020, 4, 14) + 3600 * int(rng.integers(0, 48))
        n = int(rng.integers(1, 60))
        stas = ['003', '042', 'X1'][:int(rng.integers(1, 4))]
        rows = []
        for s in stas:
            for h in range(n):
                u = rng.random()
                if u < .1:
                    continue
                a, b = base + 3600 * h, base + 3600 * (h + 1) - .01
                if u < .2:                          # recording starts or stops within the hour
                    a = a + float(rng.integers(1, 1700))
                elif u < .3:
                    b = b - float(rng.integers(10, 1700))
                amp = float(rng.choice([0., rng.uniform(.01, .49), rng.uniform(.51, 3), rng.uniform(3, 1e4), rng.uniform(1.99e4, 1.9999e4),
                                        rng.uniform(2.001e4, 3e5)], p=[.05, .05, .2, .5, .1, .1]))
                rows.append(['%s_%d' % (s, h), s, '', amp, 100, -100, a, b])
        if not rows:
            continue
        order = rng.permutation(len(rows)) if rng.random() < .3 else np.arange(len(rows))
        rows = [rows[i] for i in order]
        DB = pd.DataFrame(rows, columns=['filename', 'station', 'location', 'amp_HP', 'max', 'min', 't1', 't2'])
        if rng.random() < .5:
            DB.index = np.zeros(len(DB), int)       # as make_db returns it
        w = int(rng.integers(4))
        if w == 0:                                  # the whole data set, exactly
            t1, t2 = base, base + 3600 * n
        elif w == 1:                                # whole hours
            i = int(rng.integers(0, n))
            t1, t2 = base + 3600 * i, base + 3600 * int(rng.integers(i + 1, n + 1))
        elif w == 2:
            t1 = base + float(rng.uniform(-7200, 3600 * n))
            t2 = t1 + float(rng.uniform(1800, 3600 * n))
        else:
            t1, t2 = base - 3600 * int(rng.integers(0, 20)), base + 3600 * (n + int(rng.integers(0, 20)))
        mode = int(rng.integers(4))
        give = [lambda q: q, str, float, lambda q: q.isoformat()][mode]
        A = DB.copy()
        if rng.random() < .4:                       # as read from the saved table
            A['t1'], A['t2'] = A['t1'].astype(str), A['t2'].astype(str)
        keep = A.copy(deep=True)
        out = ctx.must('failed', calc_channel_stats, A, give(t1), give(t2))
        ctx.check(keep.equals(A) and list(keep.columns) == list(A.columns), 'database-changed', 'calc_channel_stats changed the table it was given')
        ctx.obs('spans')
        ctx.sig(w, mode, len(stas), n // 10)
        span = t2 - t1
        want = {}
        for s in stas:
            g = DB[DB.station == s]
            ov = np.array([max(0., min(t2, b) - max(t1, a)) for a, b in zip(g.t1, g.t2)])
            full = np.array([3598 < b - a < 3602 for a, b in zip(g.t1, g.t2)], bool)
            amp = np.array(g.amp_HP, float)
            inside = np.array([a >= t1 and b <= t2 for a, b in zip(g.t1, g.t2)], bool)
            if np.any(ov > 0):
                m = ov > 0
                want[s] = (float(np.sum(ov * (full & (amp > .5) & (amp < 2e4)))) / span, float(np.sum(ov * (amp > 0))) / span,
                           [quart(amp[m])] + ([quart(amp[inside])] if inside.any() else []), bool(inside.any()), m.sum())
        got = {norm(r['station']): r for _, r in out.iterrows()}
        ctx.check(len(got) == len(out), 'rows', 'a station is listed twice')
        need = {s for s in want if want[s][3]}
        if not ctx.check(need <= set(got) <= set(want), 'rows', 'stations %s, with data in the span: %s' % (sorted(got), sorted(want))):
            continue
        for s, r in got.items():
            g, a, q, _, k = want[s]
            tol = 2e-3 + .03 * k / span             # the sample interval after the last sample
            what = 'station %s in %s - %s' % (s, t1, t2)
            ctx.obs('stations')
            ctx.check(abs(float(r['goodData']) - g) <= tol, 'good', '%s: goodData %.4f, %.4f expected' % (what, r['goodData'], g))
            ctx.check(abs(float(r['anyData']) - a) <= tol, 'any', '%s: anyData %.4f, %.4f expected' % (what, r['anyData'], a))
            ctx.check(any(np.allclose([r['q1'], r['q3']], x, rtol=1e-6, atol=1e-9) for x in q), 'quartiles', '%s: quartiles %s, %s expected' % (
                what, [r['q1'], r['q3']], q))


def case_chain(ctx):
    """files -> database -> statistics, with a saved and re-read database"""
    rng = ctx.rng
    d = ctx.sub('hours')
    base = UTC(2021, 5, 6)
    nh = 6
    have = {}
    for s in ('003', '017'):
        for h in range(nh):
            if rng.random() < .25:
                continue
            clipped = rng.random() < .3
            x = np.round(rng.normal(size=360000) * (3e4 if clipped else 200)).astype('int32')
            tr = obspy.Trace(x, dict(station=s, channel='HDF', starttime=base + 3600 * h, sampling_rate=100))
            tr.write(os.path.join(d, '%s..%s..HDF.mseed' % ((base + 3600 * h).strftime('%Y-%m-%dT%H_%M_%S'), s)), format='MSEED')
            have.setdefault(s, []).append(not clipped)
    csv = os.path.join(ctx.dir, 'db.csv')
    db = ctx.must('failed', make_db, d, '*', csv)
    for tab, name in ((db, lambda s: s), (pd.read_csv(csv), lambda s: str(int(s)))):
        out = ctx.must('failed', calc_channel_stats, tab, base, base + 3600 * nh)
        got = {norm(r['station']): r for _, r in out.iterrows()}
        ctx.check(set(got) == {name(s) for s in have}, 'rows', 'stations %s' % sorted(got))
        for s in have:
            r = got.get(name(s))
            if r is not None:
                ctx.obs('stations')
                ctx.check(abs(r['anyData'] - len(have[s]) / nh) < 1e-3 and abs(r['goodData'] - sum(have[s]) / nh) < 1e-3, 'chain',
                          'station %s: any %.4f good %.4f; recorded %d hours, %d of them good, of %d' % (s, r['anyData'], r['goodData'], len(have[s]), sum(have[s]), nh))
    ctx.sig('chain')


def make():
    c = Check('C23', 'database rows equal the generated files; statistics equal the overlap of the rows with the span',
              need=['files', 'rows', 'spans', 'stations', 'assertions'],
              assumptions=['files with one trace, as convert writes them', 'goodData counts hour-long files with amplitude between 0.5 and 20000 counts'])
    for i in range(pick(6, 12)):
        c.add('db-%d' % i, case_db)
    for i in range(pick(4, 8)):
        c.add('stats-%d' % i, case_stats)
    c.add('chain', case_chain)
    return c
