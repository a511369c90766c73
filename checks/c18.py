"""C18 cross-correlation lags: size, sign, windows and coverage."""
import os

import numpy as np
import obspy
import pandas as pd
import scipy.signal
import gemlog
import gemlog.xcorr as xc
from obspy import UTCDateTime as UTC

import gl
from mon import Check, pick


class Field:
    """A band-limited random pressure field known at every time: sum of sinusoids."""

    def __init__(self, rng, f1, f2, n=400):
        self.f = np.sort(rng.uniform(f1, f2, n))
        self.p = rng.uniform(0, 2 * np.pi, n)
        self.a = 3000 / np.sqrt(n) * rng.uniform(.5, 1.5, n)

    def __call__(self, t, block=20000):
        out = np.empty(len(t))
        for i in range(0, len(t), block):
            s = t[i:i + block]
            # phases from a local origin keep the precision of the argument
            ph = np.mod(self.f * s[0], 1.) * 2 * np.pi + self.p
            dt = (s - s[0]).astype('float32')
            out[i:i + block] = np.sin(np.outer(dt, (2 * np.pi * self.f).astype('float32')) + ph.astype('float32')) @ self.a.astype('float32')
        return out


class FastField:
    """The same for long spans: noise on a fine grid, interpolated by a spline (delays resolved far below a sample)."""

    def __init__(self, rng, f1, f2, dur, dt):
        self.h = dt / 4
        n = int((dur + 40) / self.h)
        m = scipy.fft.next_fast_len(n)
        F = np.fft.rfftfreq(m, self.h)
        s = np.zeros(len(F), complex)
        k = (F > f1) & (F < f2)
        s[k] = rng.normal(size=k.sum()) + 1j * rng.normal(size=k.sum())
        y = np.fft.irfft(s, m)[:n]
        self.y = y / y.std() * 3000
        self.cs = scipy.interpolate.CubicSpline(np.arange(n) * self.h - 20, self.y)

    def __call__(self, t):
        return self.cs(t)


def make_data(ctx, rng, d, nst, fs, dur, t0, pieces, extra=(), fmt='mseed', delays=None, w=10., wild=None, gaps=(), late=None):
    """Write files of nst stations; -> dict(ids, delays, files, spans)"""
    dt = 1 / fs
    codes = []
    nets = ['', 'XX', 'AB'][int(rng.integers(3))]
    while len(codes) < nst:
        c = (nets, ''.join(rng.choice(list('0123456789ABC'), 3)), ['', '', '01'][int(rng.integers(3))])
        if c not in codes:
            codes.append(c)
    field = FastField(rng, .11 * fs / 2, .42 * fs / 2, dur + 2, dt)
    maxd = min(.8, .12 * w)               # longer delays: a short window shares too little with the other
    if delays is None:
        delays = [float(rng.uniform(-maxd / 2, maxd / 2)) for _ in codes]
    amp = np.exp(rng.uniform(-1, 1, nst))
    names = []
    n = int(round(dur * fs)) + 1
    k = np.arange(n)
    env = 1 + .8 * np.sin(2 * np.pi * k * dt / max(300., dur / 7) + rng.uniform(0, 6))
    spans = {}
    for i, c in enumerate(codes):
        x = amp[i] * env * field(k * dt - delays[i]) + rng.normal(0, 2, n) + rng.uniform(-2e4, 2e4)
        if wild is not None:                   # outside the selected span: another signal altogether
            o = (k * dt < wild[0] - dt / 2) | (k * dt > wild[1] + dt / 2)
            x[o] = rng.normal(0, 30000, o.sum())
        keep = np.ones(n, bool)
        for j, a, b in gaps:
            if j == i:
                keep &= ~((k * dt > a) & (k * dt < b))
        if late is not None and late[0] == i:
            keep &= k * dt >= late[1]
        spans[i] = keep
        x = np.round(x).astype('int32')
        cuts = np.sort(rng.choice(np.arange(50, max(51, n - 50)), min(pieces - 1, max(0, n // 200)), replace=False)) if pieces > 1 else []
        for a, b in zip([0] + list(cuts), list(cuts) + [n]):
            st = obspy.Stream()
            q = np.flatnonzero(keep[a:b]) + a
            for run in np.split(q, np.flatnonzero(np.diff(q) > 1) + 1) if len(q) else []:
                st += obspy.Trace(x[run[0]:run[-1] + 1], {'network': c[0], 'station': c[1], 'location': c[2],
                                                         'channel': 'HDF', 'delta': dt, 'starttime': t0 + run[0] * dt})
            if len(st):
                fn = os.path.join(d, '%05d_%d_%s.%s' % (rng.integers(99999), len(names), '.'.join(c), fmt))
                st.write(fn, fmt.upper())
                names.append(fn)
    short = ['%s.%s.%s' % c for c in codes]
    o = sorted(range(nst), key=lambda i: codes[i])
    return dict(short=[short[i] for i in o], codes=[codes[i] for i in o], delays=[delays[i] for i in o],
                files=[names[i] for i in rng.permutation(len(names))], keep=[spans[i] for i in o], field=field, env=env,
                amp=[amp[i] for i in o], dt=dt, n=n, t0=t0)


def tmid(df):
    return np.array([float(UTC(str(t))) for t in df['t_mid']])


def check_lags(ctx, df, D, sel, tol, what, tm, ok_win=None):
    """sel: indices of the stations expected, in the order of D"""
    names = [D['short'][i] for i in sel]
    for q, i in enumerate(sel):
        j = sel[(q + 1) % len(sel)]
        a, b = D['short'][i], D['short'][j]
        cols = [c for c in ('lag_%s_%s' % (a, b),) if c in df.columns]
        if not ctx.check(cols, 'pair-missing', 'no lag for the pair %s - %s (columns %s) %s' % (
                a, b, [c for c in df.columns if c.startswith('lag')], what)):
            return False
        lag = df[cols[0]].to_numpy(float)
        want = D['delays'][i] - D['delays'][j]
        use = np.ones(len(lag), bool) if ok_win is None else ok_win
        err = np.abs(lag[use] - want)
        ctx.obs('lags_checked', int(use.sum()))
        if not ctx.check(not np.isnan(err).any(), 'lag-missing', '%d of %d lags of %s - %s are missing, first at %s %s' % (
                np.isnan(err).sum(), len(err), a, b, UTC(tm[use][np.isnan(err)][0]) if np.isnan(err).any() else '', what)):
            return False
        if len(err) and not ctx.check(err.max() <= tol, 'lag', 'lag %s - %s is %.4f s at %s, true %.4f s (%d of %d windows off) %s' % (
                a, b, lag[use][err.argmax()], UTC(tm[use][err.argmax()]), want, (err > tol).sum(), len(err), what)):
            return False
        r = df['r_%s_%s' % (a, b)].to_numpy(float)[use]
        if not ctx.check((len(r) == 0 or (r > .3).all()) and (r < 1 + 1e-6).all(), 'coefficient', 'correlation of coherent signals is %.2f..%.2f %s' % (
                r.min() if len(r) else 0, r.max() if len(r) else 0, what)):
            return False
    lags = sum(df['lag_%s_%s' % (D['short'][i], D['short'][sel[(q + 1) % len(sel)]])].to_numpy(float)
               for q, i in enumerate(sel))
    if ok_win is None and not ctx.check((np.abs(lags) <= tol * len(sel) / 2 + 1e-9).all(), 'loop',
                                        'lags around the loop sum to %.4f s %s' % (np.abs(lags).max(), what)):
        return False
    return True


def check_quality(ctx, df, dt, what):
    """the quality figures of each window describe its lags; dt: sample interval of the correlation"""
    if not ctx.check({'mean_coef', 'consistency'} <= set(df.columns), 'quality-columns', 'columns are %s %s' % (list(df.columns), what)):
        return False
    lag = df[[c for c in df.columns if c.startswith('lag_')]].to_numpy(float)
    r = df[[c for c in df.columns if c.startswith('r_')]].to_numpy(float)
    n = (~np.isnan(lag)).sum(1)
    loop = np.abs(np.round(np.nansum(lag, axis=1) / dt))
    want = loop <= n                            # one sample of error per correlation
    got = np.array([str(q) in ('True', '1', '1.0') for q in df['consistency']])
    k = np.flatnonzero(got != want)
    ctx.obs('windows_consistent', int(want.sum()))
    ctx.obs('windows_inconsistent', int((~want).sum()))
    if not ctx.check(len(k) == 0, 'consistency', '%d of %d windows are flagged wrongly: at %s lags around the loop of %d sum to %d '
                     'samples, consistency is %s %s' % (len(k), len(df), len(k) and df['t_mid'].iloc[k[0]], len(k) and n[k[0]],
                                                        len(k) and loop[k[0]], len(k) and got[k[0]], what)):
        return False
    d = np.abs(np.nansum(r, axis=1) / np.maximum(n, 1) - df['mean_coef'].to_numpy(float))
    return ctx.check(len(d) == 0 or d.max() < 1e-6, 'mean-coefficient', 'mean coefficient is off by %.3g %s' % (d.max() if len(d) else 0, what))


def case_quality(ctx):
    """noise of any degree of coherence: lags may be anything, the figures reported with them must describe them"""
    rng = ctx.rng
    for rep in range(pick(14, 80)):
        d = ctx.sub('d%d' % rep)
        fs = float(rng.choice([100, 50]))
        dt, nst = 1 / fs, int(rng.integers(2, 7))
        w, ov, up, band = settings(rng, fs, False)
        t0 = UTC(2022, 9, 1) + float(rng.integers(0, 80000))
        n = int(rng.integers(60, 120) * fs)
        common = rng.normal(0, 1, n + 20)
        amount = float(np.exp(rng.uniform(-4, 2)))
        files = []
        for i in range(nst):
            x = common[int(rng.integers(20)):][:n] + amount * rng.normal(0, 1, n)
            fn = '%s/%d.mseed' % (d, i)
            obspy.Trace((x * 1000).astype('int32'), {'network': 'XX', 'station': 'S%d' % i, 'channel': 'HDF', 'delta': dt,
                                                     'starttime': t0}).write(fn, 'MSEED')
            files.append(fn)
        df, e = ctx.call(xc.xcorr_all, files, fl=band[0], fh=band[1], win_length_sec=w, overlap=ov, upsample_ratio=up, quiet=True)
        what = '[noise: %d stations, noise to signal %.3g, %g Hz, window %g, overlap %g, upsampled %d]' % (nst, amount, fs, w, ov, up)
        if not ctx.check(e is None and df is not None, 'failed', 'xcorr_all gave %r %s: %s' % (e, what, ctx.out[-700:])):
            return
        if not check_quality(ctx, df, dt / up, what):
            return
        lag = df[[c for c in df.columns if c.startswith('lag_')]].to_numpy(float)
        r = df[[c for c in df.columns if c.startswith('r_')]].to_numpy(float)
        if not ctx.check(lag.shape[1] == r.shape[1] == nst and np.abs(lag).max() < 1 + dt and np.abs(r).max() < 1 + 1e-6,
                         'range', 'lags up to %.3f s, coefficients up to %.3f %s' % (np.abs(lag).max(), np.abs(r).max(), what)):
            return
        ctx.sig('quality', nst, round(np.log(amount)), fs, w, ov, up)


def day_pieces(t1, t2):
    """[t1, t2] cut at midnights"""
    out, a = [], t1
    while True:
        m = UTC(a.year, a.month, a.day) + 86400
        if m - a < 1e-9:
            m += 86400
        if m >= t2:
            out.append((a, t2))
            return out
        out.append((a, m))
        a = m


def check_windows(ctx, tm, pieces, w, ov, dt, what):
    """each piece is covered by windows of length w spaced at most w*(1-ov), from end to end, and nothing is outside"""
    tm = np.asarray(tm)
    used = np.zeros(len(tm), bool)
    if not ctx.check(len(tm) < 2 or (np.diff(tm) > 0).all(), 'window-order', 'window times are not increasing (%d repeats) %s' % (
            (np.diff(tm) <= 0).sum() if len(tm) > 1 else 0, what)):
        return False
    for a, b in pieces:
        a, b = float(a), float(b)
        if b - a < w - 1.5 * dt:
            continue
        k = (tm - w / 2 > a - 1.5 * dt) & (tm + w / 2 < b + 1.6 * dt)
        used |= k
        s = tm[k]
        ctx.obs('spans_checked')
        if not ctx.check(len(s) > 0, 'span-skipped', 'no window in %s .. %s %s' % (UTC(a), UTC(b), what)):
            return False
        gaps = np.diff(s)
        step = w * (1 - ov)
        okc = (s[0] - w / 2 - a < 2.5 * dt and b - (s[-1] + w / 2) < 2.5 * dt and
               (len(gaps) == 0 or gaps.max() <= step + 1e-3))
        if not ctx.check(okc, 'coverage', 'windows of %s .. %s run from %s to %s with steps up to %.3f (nominal %.3f) %s' % (
                UTC(a), UTC(b), UTC(s[0] - w / 2), UTC(s[-1] + w / 2), gaps.max() if len(gaps) else 0, step, what)):
            return False
        want = 1 + int(np.ceil((b - a - w) / step - 1e-6))
        slack = 1 + int(3 * dt / step)
        if not ctx.check(abs(len(s) - want) <= slack, 'window-count', '%d windows in %s .. %s, %d fit exactly once %s' % (
                len(s), UTC(a), UTC(b), want, what)):
            return False
    if not ctx.check(used.all(), 'outside', '%d windows reach beyond the selected time or across midnight, first at %s %s' % (
            (~used).sum(), UTC(tm[~used][0]) if not used.all() else '', what)):
        return False
    ctx.obs('windows_checked', len(tm))
    return True


def check_content(ctx, df, D, sel, tm, w, band, pieces, what):
    """the window at t_mid really holds the samples around t_mid: its rms follows the recording"""
    fs = 1 / D['dt']
    for i in sel[:2]:
        x = D['amp'][i] * D['env'] * D['field'](np.arange(D['n']) * D['dt'] - D['delays'][i])
        sos = scipy.signal.butter(4, np.array(band) / (fs / 2), 'bandpass', output='sos')
        y = scipy.signal.sosfilt(sos, x)
        m, keep = [], []
        for t in tm:
            c = int(round((t - w / 2 - float(D['t0'])) * fs))
            q = y[max(c, 0):c + int(round(w * fs))]
            q = q * scipy.signal.windows.tukey(len(q), .1)
            m.append(q.std())
            keep.append(all(abs(t - w / 2 - float(a)) > 20 / band[0] for a, _ in pieces))
        m, keep = np.array(m), np.array(keep)
        r = df['rms_' + D['short'][i]].to_numpy(float)
        keep &= ~np.isnan(r)
        if keep.sum() < 15:
            continue
        ctx.obs('rms_compared', int(keep.sum()))
        ratio = r[keep] / m[keep]
        c = np.corrcoef(np.log(m[keep]), np.log(r[keep]))[0, 1]
        if not ctx.check(c > .99, 'window-time', 'the windows do not hold the data around their reported times (rms follows '
                         'the recording with correlation %.3f) %s' % (c, what)):
            return False
        if not ctx.check(abs(np.median(ratio) - 1) < .08, 'rms', 'rms of windows is %.3f times the recorded one %s' % (
                np.median(ratio), what)):
            return False
    return True


def settings(rng, fs, long):
    w = float(rng.choice([200, 333, 600] if long else [2.5, 5, 7.3, 12]))
    ov = float(rng.choice([0, 0, .25, .5, .8] if not long else [0, 0, .5]))
    up = int(rng.choice([1, 1, 2, 4, 5])) if not long else int(rng.choice([1, 1, 3]))
    return w, ov, up, (float(.08 * fs / 2), float(.6 * fs / 2))


def ask(rng, D, sel, args):
    """select the channels sel of D by IDs / exclude_IDs in some documented form"""
    full = ['%s.%s.%s.HDF' % c for c in D['codes']]
    form = int(rng.integers(5)) if len(sel) < len(full) else int(rng.integers(3)) * 3
    rest = [i for i in range(len(full)) if i not in sel]
    unique = lambda q: sum(q in f for f in full) == 1
    if form == 0 and len(sel) == len(full):
        return 'all'
    if form == 1 and all(unique(D['codes'][i][1]) for i in rest):
        args['exclude_IDs'] = [D['codes'][i][1] for i in rest] + ['ZZZ']
        return 'exclude'
    if form == 2 and all(unique(D['codes'][i][1]) for i in sel):
        args['IDs'] = [D['codes'][i][1] for i in rng.permutation(sel)]
        return 'stations'
    args['IDs'] = [full[i] for i in rng.permutation(sel)]
    if rng.random() < .3:
        args['IDs'].append('XX.QQQQ..HDF')
    return 'ids'


def case_short(ctx, kind):
    """minutes at 100 Hz and less: window settings, upsampling, spans, channel selection, file splits"""
    rng = ctx.rng
    for rep in range(pick(8, 40)):
        d = ctx.sub('d%d' % rep)
        fs = float(rng.choice([100, 100, 50]))
        dt = 1 / fs
        w, ov, up, band = settings(rng, fs, False)
        nst = int(rng.choice([2, 3, 3, 4, 5]))
        t0 = UTC(2021, 12, 31, 23, 59) - float(rng.integers(0, 40000)) + float(rng.choice([0, .5, .37]))
        if kind == 'midnight':
            t0 = UTC(2021, 12, 31) + 86400 - float(rng.integers(15, 50)) - float(rng.choice([0, .5, .37]))
        nw = int(rng.choice([1, 2, 3, 8])) if kind == 'exact' else 0
        dur = float(rng.integers(70, 160))
        T1, T2 = 0., dur
        if kind == 'exact':
            dur = w * (1 + (nw - 1) * (1 - ov))
            dur = round(dur * fs) / fs + float(rng.choice([0, -dt]))
            T1, T2 = 0., dur
        wild = None
        args = {}
        if kind in ('span', 'midnight') and rng.random() < .8:
            if rng.random() < .8:
                T1 = round(float(rng.uniform(0, 14)), 2)
                args['t1'] = t0 + T1
            if rng.random() < .8:
                T2 = round(float(rng.uniform(dur - 15, dur)), 2)
                args['t2'] = t0 + T2
            wild = (T1, T2)
            for k in args:
                if rng.random() < .5:
                    args[k] = args[k].isoformat()
        gaps, late = (), None
        D = make_data(ctx, rng, d, nst, fs, dur, t0, int(rng.integers(1, 5)), wild=wild, w=w)
        sel = sorted(rng.choice(nst, int(rng.integers(2, nst + 1)), replace=False).tolist()) if kind != 'exact' else list(range(nst))
        how = ask(rng, D, sel, args)
        files = list(D['files'])
        if rng.random() < .3:
            open(d + '/notes.txt', 'w').write('not a waveform')
            files.insert(0, d + '/notes.txt')
        what = '[%s: %d stations (%s), %g Hz, %.2f s from %s, span %.2f..%.2f, window %g overlap %g, upsampled %d]' % (
            kind, nst, how, fs, dur, t0, T1, T2, w, ov, up)
        df, e = ctx.call(xc.xcorr_all, files, fl=band[0], fh=band[1], win_length_sec=w, overlap=ov, upsample_ratio=up,
                         quiet=bool(rng.integers(2)), **args)
        if not ctx.check(e is None and df is not None, 'failed', 'xcorr_all gave %r %s: %s' % (e, what, ctx.out[-700:])):
            return
        pieces = day_pieces(t0 + T1, t0 + T2)
        tm = tmid(df)
        if not check_windows(ctx, tm, pieces, w, ov, dt, what):
            return
        if not (len(sel) > 1 and check_lags(ctx, df, D, sel, dt / up * 1.02 + .05 * dt, what, tm) and
                check_quality(ctx, df, dt / up, what)):
            return
        extra = [c for c in df.columns if c.startswith('rms_') and c[4:] not in [D['short'][i] for i in sel]]
        ctx.check(not extra, 'unselected', 'columns %s were not asked for %s' % (extra, what))
        if not check_content(ctx, df, D, sel, tm, w, band, pieces, what):
            return
        ctx.sig(kind, fs, w, ov, up, nst, len(sel), how)


def case_days(ctx, kind):
    """several days at a low sampling rate: day boundaries, file splits, part days"""
    rng = ctx.rng
    for rep in range(pick(1, 5)):
        d = ctx.sub('d%d' % rep)
        fs = float(rng.choice([2.5, 5, 8]))         # the band may lie wholly below 1 Hz
        dt = 1 / fs
        w, ov, up, band = settings(rng, fs, True)
        nst = 3
        days = float(rng.uniform(1.2, 3.2))
        t0 = UTC(2022, 2, 27) + float(rng.integers(0, 86400)) if rng.random() < .8 else UTC(2022, 2, 27)
        if kind == 'long-first':               # less than a day in all but across midnight, or a day and a bit
            t0 = UTC(2022, 2, 27) + float(rng.integers(30000, 80000))
            days = float(rng.uniform(.9, 1.3))
        dur = round(days * 86400 * fs) / fs
        args, wild, T1, T2 = {}, None, 0., dur
        if kind == 'span':
            T1, T2 = round(float(rng.uniform(0, 40000)), 0), round(float(rng.uniform(dur - 40000, dur)), 0)
            args = {'t1': t0 + T1, 't2': (t0 + T2).isoformat()}
            wild = (T1, T2)
        D = make_data(ctx, rng, d, nst, fs, dur, t0, int(rng.choice([1, 3, 12, 40])), wild=wild, w=w)
        sel = [0, 1, 2]
        if rng.random() < .3:
            sel = sorted(rng.choice(3, 2, replace=False).tolist())
        how = ask(rng, D, sel, args)
        what = '[days %s: %s %g Hz, %.2f days from %s, span %.0f..%.0f, window %g overlap %g, upsampled %d]' % (
            kind, how, fs, days, t0, T1, T2, w, ov, up)
        df, e = ctx.call(xc.xcorr_all, D['files'], fl=band[0], fh=band[1], win_length_sec=w, overlap=ov, upsample_ratio=up,
                         quiet=True, **args)
        if not ctx.check(e is None and df is not None, 'failed', 'xcorr_all gave %r %s: %s' % (e, what, ctx.out[-700:])):
            return
        pieces = day_pieces(t0 + T1, t0 + T2)
        tm = tmid(df)
        ctx.obs('days', len(pieces))
        if not check_windows(ctx, tm, pieces, w, ov, dt, what):
            return
        if not check_lags(ctx, df, D, sel, dt / up * 1.02 + .05 * dt, what, tm):
            return
        if not check_content(ctx, df, D, sel, tm, w, band, pieces, what):
            return
        ctx.sig('days', kind, fs, w, ov, up, len(pieces), len(sel))


def case_gaps(ctx, kind):
    """a gap, a late start or an early end of one station leaves the lags of all other windows and stations right"""
    rng = ctx.rng
    for rep in range(pick(5, 25)):
        d = ctx.sub('d%d' % rep)
        fs = 50.
        dt = 1 / fs
        w, ov, up, band = settings(rng, fs, False)
        nst = int(rng.choice([3, 4]))
        dur = float(rng.integers(100, 200))
        t0 = UTC(2021, 5, 5, 12) + float(rng.integers(0, 30000))
        st = int(rng.integers(nst))
        gaps, late = [], None
        if kind == 'gap':
            for _ in range(int(rng.integers(1, 4))):
                a = float(rng.uniform(25, dur - 40))
                gaps.append((st, a, a + float(rng.choice([.05, .3, 4, 15]))))
        elif kind == 'late':
            gaps.append((st, -1, float(rng.uniform(3, dur / 2))))
        else:
            gaps.append((st, float(rng.uniform(dur / 2, dur - 3)), dur + 1))
        D = make_data(ctx, rng, d, nst, fs, dur, t0, int(rng.integers(1, 4)), gaps=gaps, w=w)
        bad = [i for i in range(nst) if not D['keep'][i].all()]
        what = '[%s of station %s: %s, %.2f s, window %g overlap %g, upsampled %d]' % (
            kind, [D['short'][i] for i in bad], [(round(a, 2), round(b, 2)) for _, a, b in gaps], dur, w, ov, up)
        df, e = ctx.call(xc.xcorr_all, D['files'], fl=band[0], fh=band[1], win_length_sec=w, overlap=ov, upsample_ratio=up,
                         quiet=True)
        if not ctx.check(e is None and df is not None, 'failed', 'xcorr_all gave %r %s: %s' % (e, what, ctx.out[-700:])):
            return
        tm = tmid(df)
        if not check_windows(ctx, tm, [(t0, t0 + dur)], w, ov, dt, what):
            return
        keep = D['keep'][bad[0]] if bad else np.ones(D['n'], bool)
        # runs of the interrupted station shorter than a window cannot be used
        full, edge = [], []
        settle = 2.0 / band[0]
        for t in tm:
            a, b = t - w / 2 - float(t0), t + w / 2 - float(t0)
            q = lambda s: keep[max(0, int((a - s) * fs)):max(0, int((b + s) * fs)) + 1].all()
            full.append(q(settle))
            edge.append(not q(settle) and q(-(.03 * w + 3 * dt)))   # nearly whole: may or may not be used
        full, edge = np.array(full), np.array(edge)
        others = [i for i in range(nst) if i not in bad]
        if not check_quality(ctx, df, dt / up, what):
            return
        if not check_lags_partial(ctx, df, D, list(range(nst)), full, dt / up * 1.02 + .05 * dt, what, tm):
            return
        miss = ~full & ~edge
        for q in range(len(others)):
            i, j = others[q], others[(q + 1) % len(others)]
            if j != (i + 1) % nst and bad and len(others) > 1:
                pass
            c = 'lag_%s_%s' % (D['short'][i], D['short'][j])
            if c not in df.columns or not miss.any():
                continue
            lag = df[c].to_numpy(float)[miss]
            want = D['delays'][i] - D['delays'][j]
            ctx.obs('lags_beside_gaps', len(lag))
            if not ctx.check((np.abs(lag - want) <= dt / up * 1.02 + .05 * dt).all(), 'lag-beside-gap',
                             'lags %s are %s where %s has no data, true %.3f %s' % (c, np.round(lag, 3)[:6],
                                                                               [D['short'][k] for k in bad], want, what)):
                return
        # nothing wrong is reported for the interrupted station
        for c in [c for c in df.columns if c.startswith('lag_')]:
            a, b = c.split('_')[1:]
            i, j = D['short'].index(a), D['short'].index(b)
            lag = df[c].to_numpy(float)
            k = ~np.isnan(lag) & ~edge
            if k.any() and not ctx.check(np.abs(lag[k] - (D['delays'][i] - D['delays'][j])).max() <= dt / up * 1.02 + .05 * dt,
                                         'lag-wrong', '%s is %s, true %.3f %s' % (c, np.round(lag[k], 3)[:8],
                                                                                D['delays'][i] - D['delays'][j], what)):
                return
        ctx.sig('gaps', kind, nst, w, ov, up)


def case_common(ctx, kind):
    """all stations pause together (kind minutes) or for a day and more (kind days): the rest is analysed as usual"""
    rng = ctx.rng
    for rep in range(pick(4, 20) if kind == 'minutes' else pick(1, 4)):
        d = ctx.sub('d%d' % rep)
        long = kind == 'days'
        fs = 5. if long else 50.
        dt = 1 / fs
        w, ov, up, band = settings(rng, fs, long)
        nst = int(rng.choice([2, 3, 4]))
        if long:
            t0 = UTC(2021, 5, 5) + float(rng.integers(10000, 80000))
            dur = float(rng.integers(250000, 300000))
            a = float(rng.uniform(20000, 60000))
            b = a + float(rng.uniform(90000, 180000))
        else:
            t0 = UTC(2021, 5, 5, 12) + float(rng.integers(0, 30000))
            dur = float(rng.integers(120, 220))
            a = float(rng.uniform(2, 4)) * w
            b = min(a + float(rng.choice([.3, w / 2, 2 * w, 4.3 * w])), dur - 2 * w)
        D = make_data(ctx, rng, d, nst, fs, dur, t0, int(rng.integers(1, 4)), gaps=[(i, a, b) for i in range(nst)], w=w)
        what = '[all %d stations pause from %.2f to %.2f of %.2f s, window %g overlap %g, upsampled %d]' % (nst, a, b, dur, w, ov, up)
        df, e = ctx.call(xc.xcorr_all, D['files'], fl=band[0], fh=band[1], win_length_sec=w, overlap=ov, upsample_ratio=up,
                         quiet=True)
        if not ctx.check(e is None and df is not None, 'failed', 'xcorr_all gave %r %s: %s' % (e, what, ctx.out[-700:])):
            return
        tm = tmid(df)
        r = tm - float(t0)
        inside = (r + w / 2 > a + .03 * w + 3 * dt) & (r - w / 2 < b - .03 * w - 3 * dt)
        if not ctx.check(not inside.any(), 'window-in-pause', 'windows at %s lie in the pause %s' % (np.round(r[inside], 2)[:6], what)):
            return
        step = w * (1 - ov)
        for p, q in day_pieces(t0, t0 + dur):
            p, q = float(p - t0), float(q - t0)
            for lo, hi in ((p, min(q, a)), (max(p, b), q)):
                if hi - lo < 2 * w + step:      # the windows of a day are placed from its first to its last sample
                    continue
                s = np.sort(r[(r - w / 2 > lo - 2 * dt) & (r + w / 2 < hi + 2 * dt + .03 * w)])
                k = len(s) > 0 and s[0] - w / 2 - lo < step + .03 * w + 3 * dt and hi - s[-1] - w / 2 < step + .03 * w + 3 * dt and \
                    (len(s) < 2 or np.diff(s).max() < step + 1e-3)
                if not ctx.check(k, 'beside-pause', 'windows between %.2f and %.2f run from %s to %s %s' % (
                        lo, hi, s[:2] - w / 2, s[-2:] + w / 2, what)):
                    return
                ctx.obs('spans_beside_pauses')
        settle = 2.0 / band[0]
        ok = (r + w / 2 < a - dt) | (r - w / 2 > b + settle)
        if not (check_quality(ctx, df, dt / up, what) and
                check_lags_partial(ctx, df, D, list(range(nst)), ok, dt / up * 1.02 + .05 * dt, what, tm)):
            return
        ctx.sig('pause', kind, nst, w, ov, up)


def check_lags_partial(ctx, df, D, sel, ok, tol, what, tm):
    if not ok.any():
        return True
    return check_lags(ctx, df, D, sel, tol, what, tm, ok_win=ok)


def case_terminal(ctx):
    rng = ctx.rng
    for rep in range(pick(4, 20)):
        d = ctx.sub('d%d' % rep)
        fs, dur = 100., float(rng.integers(60, 120))
        w, ov, up, band = settings(rng, fs, False)
        nst = 4
        t0 = UTC(2022, 9, 1, int(rng.integers(0, 23))) + float(rng.integers(0, 2000))
        T1, T2 = float(rng.integers(0, 15)), dur - float(rng.integers(0, 15))
        D = make_data(ctx, rng, d, nst, fs, dur, t0, 2, wild=(T1, T2), w=w)
        sel = sorted(rng.choice(nst, int(rng.integers(2, nst + 1)), replace=False).tolist())
        a = {}
        how = ask(rng, D, sel, a)
        out = os.path.join(d, 'out.csv')
        argv = ['-1', (t0 + T1).strftime('%Y-%m-%d_%H:%M:%S'), '-2', (t0 + T2).strftime('%Y-%m-%d_%H:%M:%S'), '-L', '%g' % band[0],
                '-H', '%g' % band[1], '-w', '%g' % w, '-p', '%g' % ov, '-u', '%d' % up, '-o', out]
        if 'IDs' in a:
            argv += ['-i', ','.join(a['IDs'])]
        if 'exclude_IDs' in a:
            argv += ['-x', ','.join(a['exclude_IDs'])]
        if rng.random() < .5:
            argv.append('-q')
        argv = (D['files'] if rng.random() < .7 else [d + '/*.mseed']) + argv
        what = '[waveform_calc_lags %s]' % ' '.join(argv[-18:])
        _, e = ctx.call(xc.xcorr_all_terminal, argv)
        if not ctx.check(e is None and os.path.exists(out), 'terminal-failed', 'raised %r %s %s' % (e, what, ctx.out[-500:])):
            return
        df = pd.read_csv(out)
        tm = tmid(df)
        pieces = day_pieces(t0 + T1, t0 + T2)
        if not (check_windows(ctx, tm, pieces, w, ov, 1 / fs, what) and
                check_lags(ctx, df, D, sel, 1.02 / fs / up + .05 / fs, what, tm) and check_quality(ctx, df, 1 / fs / up, what) and
                check_content(ctx, df, D, sel, tm, w, band, pieces, what)):
            return
        ctx.obs('terminal_runs')
        ctx.sig('terminal', w, ov, up, len(sel), how)


def case_windows(ctx):
    """the day loop and the window loop with a recording function in place of the correlator"""
    rng = ctx.rng
    for rep in range(pick(10, 50)):
        d = ctx.sub('d%d' % rep)
        fs = 1.
        days = float(rng.uniform(.2, 4))
        n = int(days * 86400)
        t0 = UTC(2020, 2, 27) + float(rng.integers(0, 86400))
        codes = ['A', 'B', 'C'][:int(rng.integers(1, 4))]
        names = []
        for c in codes:
            cuts = [0] + sorted(rng.choice(np.arange(1, n), int(rng.integers(0, 30)), replace=False).tolist()) + [n]
            for a, b in zip(cuts[:-1], cuts[1:]):
                fn = '%s/%05d%s_%d.mseed' % (d, rng.integers(99999), c, a)
                obspy.Trace(np.arange(a, b).astype('int32'), {'station': c, 'channel': 'HDF', 'starttime': t0 + a}).write(fn, 'MSEED')
                names.append(fn)
        names = [names[i] for i in rng.permutation(len(names))]
        T1 = int(rng.integers(0, n // 3)) if rng.random() < .6 else 0
        T2 = int(rng.integers(2 * n // 3, n)) if rng.random() < .6 else n - 1
        w, ov = float(rng.choice([1000, 3600, 777])), float(rng.choice([0, .5, .2]))
        seen = []

        def record(st, args):
            k = np.concatenate([np.asarray(tr.data) for tr in st])
            ids = sorted(tr.stats.station for tr in st)
            return {'lo': float(min(tr.data.min() for tr in st)), 'hi': float(max(tr.data.max() for tr in st)),
                    'n': len(k), 'ids': ''.join(ids)}

        def one_day(st, args):
            seen.append({tr.stats.station: (int(np.min(tr.data)), int(np.max(tr.data)), len(tr.data)) for tr in st})
            return pd.DataFrame.from_dict(xc.apply_function_windows(st, record, w, ov, args))
        if not hasattr(xc, 'loop_through_days') or not hasattr(xc, 'apply_function_windows'):
            from mon import CaseSkip
            raise CaseSkip('loop_through_days / apply_function_windows')
        what = '[%.2f days from %s, span %d..%d, window %g overlap %g, %d files]' % (days, t0, T1, T2, w, ov, len(names))
        df, e = ctx.call(xc.loop_through_days, one_day, names, t0 + T1, t0 + T2)
        if not ctx.check(e is None and df is not None, 'failed', 'loop_through_days gave %r %s %s' % (e, what, ctx.out[-500:])):
            return
        pieces = day_pieces(t0 + T1, t0 + T2)
        if not ctx.check(len(seen) == len(pieces), 'days', 'the analysis was called for %d days, the span has %d %s' % (
                len(seen), len(pieces), what)):
            return
        for s, (a, b) in zip(seen, pieces):
            lo, hi = int(round(a - t0)), int(round(b - t0))
            ctx.obs('days_recorded')
            for c in codes:
                if not ctx.check(c in s and lo <= s[c][0] <= lo + 1 and hi - 1 <= s[c][1] <= hi and s[c][2] == s[c][1] - s[c][0] + 1,
                                 'day-content', 'station %s was given samples %s on %s .. %s (%d..%d) %s' % (
                                     c, s.get(c), a, b, lo, hi, what)):
                    return
        tm = tmid(df)
        if not check_windows(ctx, tm, pieces, w, ov, 1., what):
            return
        mid = (df['lo'].to_numpy(float) + df['hi'].to_numpy(float)) / 2
        off = tm - float(t0) - mid
        ctx.obs('recorded_windows', len(tm))
        if not ctx.check(np.abs(off).max() <= 1.01 and (df['ids'] == ''.join(sorted(codes))).all() and
                         (np.abs(df['hi'] - df['lo'] + 1 - w) <= 1.01).all(), 'window-content',
                         'windows hold samples up to %.2f s off their reported centre, of channels %s, lengths %s %s' % (
                             np.abs(off).max(), sorted(set(df['ids'])), sorted(set(df['hi'] - df['lo'] + 1))[:4], what)):
            return
        ctx.sig('loop', w, ov, len(pieces), len(codes))


def make():
    c = Check('C18', 'band-limited random fields delayed between 2-5 stations by random sub-sample amounts, written as randomly '
              'split files; random windows, overlaps, upsampling, spans (wild data outside), channel selections, midnights, multi-day '
              'spans, gaps and late starts; lags, window coverage and window content (rms history) are compared with the '
              'generated field; the day and window loops are also run with a recording function; distinct = (scenario, rate, '
              'window, overlap, upsampling, stations, selection)',
              assumptions=['lags are below the 1-s limit of the correlator', 'a remainder of a day shorter than one window is not '
                           'analysed', 'band limits are given inside the signal band'],
              need=['lags_checked', 'windows_checked', 'rms_compared', 'days', 'recorded_windows', 'terminal_runs',
                    'lags_beside_gaps', 'spans_beside_pauses', 'windows_consistent', 'windows_inconsistent'])
    for k in ('plain', 'span', 'midnight', 'exact'):
        for i in range(pick(1, 3)):
            c.add('short_%s_%d' % (k, i), case_short, kind=k)
    for k in ('whole', 'span', 'long-first'):
        for i in range(pick(1, 2)):
            c.add('days_%s_%d' % (k, i), case_days, kind=k)
    for k in ('gap', 'late', 'early'):
        c.add('gaps_' + k, case_gaps, kind=k)
    for k in ('minutes', 'days'):
        c.add('pause_' + k, case_common, kind=k)
    c.add('quality', case_quality)
    c.add('terminal', case_terminal)
    c.add('loops', case_windows)
    return c
