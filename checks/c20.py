"""C20 the huddle test flags a logger exactly when its records cross a limit."""
import hashlib
import os
import re
import sys

import numpy as np
import obspy
import pandas as pd
from obspy import UTCDateTime as UTC
from matplotlib.figure import Figure

import gemlog
import gemlog.huddle_test as H

from mon import Check, Stop, pick

_savefig = Figure.savefig


def _small(self, *a, **k):                 # the figures are not judged; draw them coarsely
    k['dpi'] = 30
    return _savefig(self, *a, **k)


COLS = ['millis', 'batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1',
        'unusedStackIdle', 'index', 't']


def flat_series(rng, n, frac, lo, hi, dec):
    """values between lo and hi, hitting both, of which a fraction frac of steps is zero"""
    moves = n - 1 - int(round(frac * (n - 1)))
    at = np.sort(rng.choice(n - 1, moves, replace=False)) + 1 if moves else np.array([], int)
    x = np.empty(n)
    cur, prev = lo, 0
    k = 0
    for a in list(at) + [n]:
        x[prev:a] = cur
        k += 1
        nxt = hi if k == 1 else round(float(rng.uniform(lo, hi)), dec)
        while nxt == cur:
            nxt = round(float(rng.uniform(lo, hi)), dec)
        cur, prev = nxt, a
    return x


LEVELS = ('OKAY', 'WARNING', 'ERROR')


def between(rng, lo, hi, edge=.02):
    """uniform, or close to one of the ends"""
    u = rng.random()
    if u < .6:
        return float(rng.uniform(lo, hi))
    e = float(rng.uniform(0, min(edge, hi - lo)))
    return lo + e if u < .8 else hi - e


class Logger:
    def __init__(self, rng, SN, t0, t1, trouble, dt=None, temp=None, clock=None):
        """temp(t): the temperature everybody feels.  trouble: names of results to put beyond a limit."""
        self.SN = SN
        self.dt = dt = float(dt if dt is not None else rng.choice([1.0, 1.0, 10.0]))
        clock = 1 + float(rng.uniform(2e-5, 4e-5)) if clock is None else clock    # below 1: see the finding
        t = np.arange(t0, t1, dt * clock)
        n = len(t)
        self.t, self.n = t, n
        w = lambda name: trouble.get(name, 0)
        r = {}
        m = {'millis': np.round((t - t0) * 1e3), 't': np.round(t, 2), 'index': np.arange(n) * int(100 * dt) + 50}
        U = lambda a, b: between(rng, a, b)
        # battery
        lo = [U(2.21, 5), U(1.71, 2.19), U(.3, 1.69)][w('Battery min')]
        hi = [U(max(lo, 5), 14.49), U(14.51, 14.99), U(15.01, 19)][w('Battery max')]
        x = rng.uniform(max(lo, 2.3), min(hi, 14.4), n)
        x[rng.integers(n)] = lo
        j = rng.integers(n)
        while x[j] == lo:
            j = rng.integers(n)
        x[j] = hi
        m['batt'] = np.round(x, 2)
        # temperature
        if temp is not None:
            m['temp'] = np.round(temp(t) + rng.uniform(-.2, .2, n), 1)
        else:
            lo = [U(-14.9, 5), U(-19.9, -15.1), U(-45, -20.1)][w('Temperature min')]
            hi = [U(20, 54.9), U(55.1, 59.9), U(60.1, 90)][w('Temperature max')]
            x = rng.uniform(max(lo, 6), min(hi, 50), n)
            a, b = rng.choice(n, 2, replace=False)
            x[a], x[b] = lo, hi
            m['temp'] = np.round(x, 1)
        # auxiliary inputs
        for A in ('A2', 'A3'):
            f = [U(0, .948), U(.952, .988), U(.992, 1)][w(A + ' flat')]
            x = flat_series(rng, n, f, round(float(rng.uniform(0.0, 1)), 3), round(float(rng.uniform(2, 3.1)), 3), 3)
            if w(A + ' range'):
                x = np.where(x == x.max(), round(float(rng.uniform(3.11, 5)), 3), x) if rng.random() < .5 else np.where(
                    x == x.min(), -round(float(rng.uniform(.01, 2)), 3), x)
            elif rng.random() < .2 and (x == 0).sum() == 0:
                x = np.where(x == x.max(), 3.1, np.where(x == x.min(), 0., x))      # the limits themselves are within range
            m[A] = x
        # buffer
        k = int((U(.0115, .5) if w('Unusual FIFO use') else between(rng, 0, .0085, .002)) * n)
        x = rng.integers(0, 6, n)
        big = rng.choice(n, k, replace=False)
        x[big] = rng.integers(6, 51, k)
        if w('Excessive FIFO use'):
            x[big[0] if k else rng.integers(n)] = int(rng.integers(51, 76))
        m['maxFifoUsed'] = x
        m['minFifoFree'] = 75 - x
        m['maxWriteTime'] = rng.integers(5, 200, n)
        x = np.zeros(n, int)
        if w('Max overruns'):
            x[rng.choice(n, int(rng.integers(1, 4)), replace=False)] = int(rng.integers(1, 50))
        m['maxOverruns'] = x
        for c in ('unusedStack1', 'unusedStackIdle'):
            m[c] = rng.integers(31, 60, n)
        if w('Unused stack'):
            m[['unusedStack1', 'unusedStackIdle'][int(rng.integers(2))]][rng.integers(n)] = int(rng.integers(0, 31))
        # GPS: off for a moment, a long first cycle, then cycles of normal or excessive length
        on = np.zeros(n, int)
        i = int(rng.integers(1, 9))
        j = i + int(rng.uniform(30, 500) / dt)
        on[i:j] = 1
        pos = j + 12 + int(rng.uniform(60, 200) / dt)
        cyc = []
        while pos < n:
            L = between(rng, 13, 177 if dt == 1 else 165, 5) if len(cyc) or not w('GPS run time') else between(rng, 183 if dt == 1 else 195, 320, 5)
            k = max(int(L / dt) - 1, 1 if dt < 10 else 2)
            k = max(k, int(12 / dt) + 1)
            if pos + k + 15 > n:
                break
            on[pos:pos + k] = 1
            cyc.append(k)
            pos += k + int(rng.uniform(60, 700) / dt) + 5
        if w('GPS run time') and not cyc:
            trouble = dict(trouble)
            trouble['GPS run time'] = 0
        m['gpsOnFlag'] = on
        self.meta = pd.DataFrame({c: m[c] for c in COLS})

    def oracle(self):
        """results and statistics from the table as written, by the documented limits"""
        d = self.meta
        r, s = {}, {}
        b, T = d.batt.to_numpy(), d.temp.to_numpy()
        s['Battery min'], s['Battery max'] = b.min(), b.max()
        s['Temperature min'], s['Temperature max'], s['Temperature average'] = T.min(), T.max(), T.mean()
        r['Battery min'] = 'ERROR' if b.min() < 1.7 else 'WARNING' if b.min() < 2.2 else 'OKAY'
        r['Battery max'] = 'ERROR' if b.max() > 15 else 'WARNING' if b.max() > 14.5 else 'OKAY'
        r['Temperature min'] = 'ERROR' if T.min() < -20 else 'WARNING' if T.min() < -15 else 'OKAY'
        r['Temperature max'] = 'ERROR' if T.max() > 60 else 'WARNING' if T.max() > 55 else 'OKAY'
        for A in ('A2', 'A3'):
            x = d[A].to_numpy()
            f = np.mean(np.diff(x) == 0)
            s[A + ' flat'] = f
            r[A + ' flat'] = 'ERROR' if f > .99 else 'WARNING' if f > .95 else 'OKAY'
            r[A + ' range'] = 'OKAY' if x.min() >= 0 and x.max() <= 3.1 else 'ERROR'
        f = d.maxFifoUsed.to_numpy()
        s['fifo over limit'] = np.mean(f > 5)
        r['Unusual FIFO use'] = 'NOTE' if np.mean(f > 5) > .01 else 'OKAY'
        r['Excessive FIFO use'] = 'NOTE' if f.max() > 50 else 'OKAY'
        s['Max overruns'] = d.maxOverruns.max()
        r['Max overruns'] = 'WARNING' if d.maxOverruns.max() else 'OKAY'
        r['Unused stack'] = 'WARNING' if min(d.unusedStack1.min(), d.unusedStackIdle.min()) <= 30 else 'OKAY'
        off = d.t.to_numpy()[d.gpsOnFlag.to_numpy() == 0]
        run = np.diff(off)[10:]
        run = run[run > 11]
        r['GPS run time'] = 'WARNING' if np.any(run > 180) else 'OKAY'
        s['Mean GPS run time'] = run.mean() if len(run) else np.nan
        s['GPS on-time ratio'] = min(180, 900 * d.gpsOnFlag.mean())
        return r, s

    def write(self, rng, root, signal=None, delay=0, gap=None, lat=40., lon=-110.):
        SN = self.SN
        for d in ('metadata', 'gps', 'mseed'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        self.meta.to_csv(os.path.join(root, 'metadata', SN + 'metadata_000.txt'), index=False)
        g = self.t[self.meta.gpsOnFlag.to_numpy() == 1]
        u = [UTC(int(q)) for q in g]
        pd.DataFrame({'year': [q.year for q in u], 'date': [q.julday + (q.timestamp % 86400) / 86400 for q in u],
                      'lat': lat + rng.normal(0, 1e-5, len(g)), 'lon': lon + rng.normal(0, 1e-5, len(g)), 't': u}).to_csv(
            os.path.join(root, 'gps', SN + 'gps_000.txt'), index=False)
        a, b = int(np.ceil(self.t[0])), int(self.t[-1])
        n = (b - a) * 100
        k = a * 100 + np.arange(n)
        x = signal(k - delay) if signal is not None else rng.normal(0, 200, n)
        x = np.round(x + rng.normal(0, 3, n)).astype('int32')
        cuts = [a] + [h for h in range((a // 3600 + 1) * 3600, b, 3600)] + [b]
        for p, q in zip(cuts, cuts[1:]):
            parts = [(p, q)]
            if gap and p < gap[0] < gap[1] < q:
                parts = [(p, gap[0]), (gap[1], q)]
            for c, e in parts:
                tr = obspy.Trace(x[(c - a) * 100:(e - a) * 100].copy(), dict(station=SN, channel='HDF', sampling_rate=100, starttime=UTC(c)))
                tr.write(os.path.join(root, 'mseed', '%s..%s..HDF.mseed' % (UTC(c).strftime('%Y-%m-%dT%H_%M_%S'), SN)), format='MSEED', encoding=10)


def tree(root):
    out = {}
    for d in ('metadata', 'gps', 'mseed'):
        for f in os.listdir(os.path.join(root, d)):
            p = os.path.join(root, d, f)
            out[d + '/' + f] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return out


NAMES = ['Battery min', 'Battery max', 'Temperature min', 'Temperature max', 'A2 flat', 'A2 range', 'A3 flat', 'A3 range', 'Unusual FIFO use',
         'Excessive FIFO use', 'Max overruns', 'Unused stack', 'GPS run time']
THREE = {'Battery min', 'Battery max', 'Temperature min', 'Temperature max', 'A2 flat', 'A3 flat'}
STATS = ['Battery min', 'Battery max', 'Temperature min', 'Temperature max', 'Temperature average', 'A2 flat', 'A3 flat', 'fifo over limit',
         'Max overruns', 'Mean GPS run time', 'GPS on-time ratio']
WORD = {'Battery min': 'battery', 'Battery max': 'battery', 'Temperature min': 'temperature', 'Temperature max': 'temperature', 'A2 flat': 'a2',
        'A2 range': 'a2', 'A3 flat': 'a3', 'A3 range': 'a3', 'Max overruns': 'overrun', 'GPS run time': 'gps'}


def trouble(rng, p):
    return {k: (int(rng.integers(1, 3)) if k in THREE else 1) for k in NAMES if rng.random() < p}


def judge(ctx, out, loggers, what, group=True):
    """compare the returned dict with the oracle for the loggers tested"""
    sns = [q.SN for q in loggers]
    res, st = out['results'], out['stats']
    ok = True
    for name, tab in (('results', res), ('stats', st)):
        if not ctx.check(sorted(map(str, tab.index)) == sorted(sns), 'loggers', '%s cover loggers %s, %s expected %s' % (name, list(tab.index), sns, what)):
            return False
    for q in loggers:
        r, s = q.oracle()
        for k, v in r.items():
            if not ctx.check(k in res.columns, 'column', 'no result %r %s' % (k, what)):
                return False
            g = str(res.loc[q.SN, k])
            ctx.obs('results_checked')
            ctx.obs('flagged', v != 'OKAY')
            ok &= ctx.check(g == v, 'result', 'logger %s: %s is %s, its records make it %s (%s) %s' % (
                q.SN, k, g, v, {a: s[a] for a in s if a.split()[0] == k.split()[0]}, what))
            if v in ('ERROR', 'WARNING') and k in WORD:
                l = [m for m in out['errors' if v == 'ERROR' else 'warnings'] if names(q.SN, m) and WORD[k] in m.lower()]
                ok &= ctx.check(l, 'message', 'logger %s: %s is %s but no message says so: %s %s' % (q.SN, k, v, out['errors' if v == 'ERROR' else 'warnings'], what))
        for k, v in s.items():
            g = float(st.loc[q.SN, k])
            ctx.obs('statistics_checked')
            ok &= ctx.check((np.isnan(v) and np.isnan(g)) or abs(g - v) <= 1e-5 * abs(v) + 2e-6 + (.011 if k == 'Mean GPS run time' else 0), 'statistic',
                            'logger %s: %s is %r, its records give %r %s' % (q.SN, k, g, v, what))
    return ok


def table(lines, columns):
    """a printed data frame: header, then one line per logger"""
    pos = sorted((lines[0].find(c), c) for c in columns)
    if pos[0][0] < 0:
        return None
    rows = {}
    for l in lines[1:]:
        w = l.split()
        if len(w) == len(columns) + 1:
            rows[w[0]] = w[1:]
    return pd.DataFrame.from_dict(rows, orient='index', columns=[c for _, c in pos])


def printed(ctx):
    """what the user sees: the two tables and the messages"""
    L = ctx.out.split('\n')
    i = [n for n, l in enumerate(L) if l.strip() == 'Results']
    j = [n for n, l in enumerate(L) if l.strip() == 'Stats:']
    k = [n for n, l in enumerate(L) if l.startswith('Serial number tests complete')]
    if not (i and j and k):
        return None
    res, st = table(L[i[0] + 1:j[0]], NAMES), table(L[j[0] + 1:k[0]], STATS)
    if res is None or st is None:
        return None
    return {'results': res, 'stats': st.astype(float), 'errors': [l for l in L if 'ERROR' in l or 'recorded temperatures' in l or 'excessively' in l],
            'warnings': [l for l in L if 'WARNING' in l]}


def run(ctx, *a, **k):
    """-> what the huddle test printed; a returned dict must say the same"""
    Figure.savefig = _small
    ret = ctx.must('failed', H.verify_huddle_test, *a, **k)
    out = printed(ctx)
    if not ctx.check(out is not None, 'printed', 'the printed results cannot be read: ' + ctx.out[-600:]):
        raise Stop()
    if isinstance(ret, dict) and {'errors', 'warnings', 'stats', 'results'} <= set(ret):
        for w in ('results', 'stats'):
            g = ret[w].copy()
            g.index = [str(q) for q in g.index]
            ok = sorted(g.index) == sorted(out[w].index) and all(
                str(g.loc[q, c]) == out[w].loc[q, c] if w == 'results' else abs(float(g.loc[q, c]) - out[w].loc[q, c]) <= 1e-4 * (1 + abs(out[w].loc[q, c]))
                or np.isnan(out[w].loc[q, c]) for q in g.index for c in out[w].columns if c in g.columns)
            ctx.check(ok, 'returned-differs', 'the returned %s differ from the printed ones' % w)
        for w in ('errors', 'warnings'):
            miss = [m for m in ret[w] if m not in ctx.out]
            ctx.check(not miss, 'returned-differs', 'returned %s that were not printed: %s' % (w, miss[:2]))
    return out


def fresh_sns(rng, n):
    return ['%03d' % q for q in np.sort(rng.choice(np.setdiff1d(np.arange(3, 400), [100, 180]), n, replace=False))]


def names(SN, msg):
    """the message is about this logger (and does not just contain its digits)"""
    return re.search(r'(?<![\d.:-])%s(?![\d.:-])' % SN, msg) is not None


def case_limits(ctx):
    """every result on every side of its limits, loggers independent of each other"""
    rng = ctx.rng
    for rep in range(pick(4, 12)):
        n = int(rng.integers(1, 8))
        root = ctx.sub('h%d' % rep)
        base = int(UTC(2021, 2, 3, int(rng.integers(24))).timestamp) + int(rng.integers(3600))
        dur = int(rng.integers(24, 45)) * 60
        L = [Logger(rng, SN, base + int(rng.integers(60)), base + dur - int(rng.integers(60)), trouble(rng, [0, .15, .5, .9][int(rng.integers(4))]))
             for SN in fresh_sns(rng, n)]
        for q in L:
            q.write(rng, root)
        before = tree(root)
        k, want = {}, L
        if rng.random() < .5 and n > 1:
            if rng.random() < .5:
                want = [L[i] for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
                k['SN_list'] = [q.SN for q in want]
            else:
                ex = [L[i].SN for i in rng.permutation(n)[:int(rng.integers(1, n))]]
                k['SN_to_exclude'] = ex + (['999'] if rng.random() < .5 else [])
                want = [q for q in L if q.SN not in ex]
        if rng.random() < .7:
            k['generate_report'] = False
        what = '[%s loggers, %s]' % (n, k)
        out = run(ctx, root, **k)
        ctx.obs('runs')
        ctx.sig(n, len(want), tuple(sorted(k)), rep)
        judge(ctx, out, want, what)
        ctx.check(tree(root) == before, 'data-changed', 'the huddle test changed the data it examined ' + what)
        for x in ('start time', 'stop time'):
            ctx.check(not [m for m in out['errors'] if x in m.lower()], 'group-times', 'loggers agree within a minute but: %s %s' % (out['errors'], what))
        if k.get('generate_report', True):
            rp = os.path.join(root, 'reports')
            ctx.check(os.path.isdir(rp) and [f for f in os.listdir(rp) if f.endswith('.pdf')], 'report', 'no report was made ' + what)


def case_group(ctx):
    """loggers that start or stop at other times; temperatures that differ from the group"""
    rng = ctx.rng
    for rep in range(pick(2, 8)):
        n = int(rng.integers(3, 6))
        root = ctx.sub('g%d' % rep)
        base = int(UTC(2021, 2, 3, int(rng.integers(24))).timestamp) + int(rng.integers(3600))
        dur = int(rng.integers(75, 95)) * 60
        slope = 0.                                  # a common trend: see the finding
        temp = lambda t: 18 + slope * (t - base) / 3600
        late = {int(i) for i in rng.choice(n, int(rng.integers(0, 2)) if n < 4 else int(rng.integers(0, 3)), replace=False)}
        early = {int(i) for i in rng.choice(n, int(rng.integers(0, 2)), replace=False)}
        late.discard(0)
        if len(late) == n - 1:
            late.pop()
        odd = int(rng.integers(n)) if rng.random() < .6 else None
        if odd in late or odd in early or n - len(late) < 3 or n - len(early) < 3:      # too few left to tell who is odd
            odd = None
        L = []
        for i, SN in enumerate(fresh_sns(rng, n)):
            a = base + (float(rng.uniform(1260, 1500)) if i in late else float(rng.uniform(0, 600 if i else 5)))
            b = base + dur - (float(rng.uniform(1260, 1500)) if i in early else float(rng.uniform(0, 600)))
            if i == n - 1 and i not in early:
                b = base + dur
            f = temp
            if i == odd:
                o = float(rng.choice([-1, 1]) * rng.uniform(2.3, 8))
                w0 = base + float(rng.uniform(1600, 2200))
                w1 = min(w0 + float(rng.uniform(200, 1200)), base + dur - 1600)
                f = (lambda t, o=o: temp(t) + o * (t > base + 700)) if rng.random() < .4 and not late and not early else (lambda t, o=o, w0=w0, w1=w1: temp(t) + o * ((t > w0) & (t < w1)))
            q = Logger(rng, SN, a, b, {}, temp=f)
            L.append(q)
        for q in L:
            q.write(rng, root)
        starts, stops = [q.meta.t.min() for q in L], [q.meta.t.max() for q in L]
        out = run(ctx, root, generate_report=False)
        what = '[late %s, early %s, other temperature %s, slope %.1f/h]' % ([L[i].SN for i in late], [L[i].SN for i in early], odd if odd is None else L[odd].SN, slope)
        ctx.obs('runs')
        ctx.sig('group', n, len(late), len(early), odd is None)
        judge(ctx, out, L, what)
        for i, q in enumerate(L):
            wl, we = starts[i] - min(starts) > 1200, max(stops) - stops[i] > 1200
            ctx.obs('start_stop_times', 2)
            for w, word in ((wl, 'start time'), (we, 'stop time')):
                m = [m for m in out['errors'] if names(q.SN, m) and word in m.lower()]
                ctx.check(bool(m) == bool(w), 'group-times', 'logger %s starts %.1f min after the first and stops %.1f min before the last: %s %s' % (
                    q.SN, (starts[i] - min(starts)) / 60, (max(stops) - stops[i]) / 60, m or 'no %s error' % word, what))
            m = [m for m in out['errors'] if 'recorded temperatures' in m and names(q.SN, m)]
            ctx.obs('temperature_comparisons')
            ctx.check(bool(m) == (i == odd), 'group-temperature', 'logger %s %s from the others in temperature, but %s %s' % (
                q.SN, 'differs' if i == odd else 'does not differ', m[:1] or 'there is no error', what))


def case_lags(ctx):
    rng = ctx.rng
    for rep in range(pick(1, 4)):
        n = int(rng.integers(3, 5))
        root = ctx.sub('x%d' % rep)
        base = int(UTC(2021, 2, 3, int(rng.integers(24))).timestamp) + int(rng.integers(2000))
        dur = int(rng.integers(30, 40)) * 60
        s = rng.normal(0, 300, dur * 100 + 20000)
        signal = lambda k: s[np.asarray(k) - base * 100 + 10000]
        bad = None if rng.random() < .5 else int(rng.integers(n))
        d = int(rng.choice([-1, 1]) * rng.integers(1, 8))
        L = [Logger(rng, SN, base, base + dur, {}) for SN in fresh_sns(rng, n)]
        for i, q in enumerate(L):
            q.write(rng, root, signal=signal, delay=d if i == bad else 0)
        out = run(ctx, root, run_crosscorrelation_checks=True, generate_report=bool(rep % 2))
        what = '[logger %s delayed by %d samples]' % (bad, d) if bad is not None else '[no delay]'
        judge(ctx, out, L, what)
        m = [m for m in out['errors'] if 'lags' in m]
        ctx.check(bool(m) == (bad is not None), 'lags', '%s %s' % (m or 'no error about time lags', what))
        ctx.obs('lag_tests')
        ctx.sig('lags', n, bad)


def case_gaps(ctx):
    """a gap in the waveforms of one logger must not stop the test of the others"""
    rng = ctx.rng
    for rep in range(pick(1, 4)):
        n = int(rng.integers(2, 5))
        root = ctx.sub('w%d' % rep)
        base = int(UTC(2021, 2, 3, int(rng.integers(24))).timestamp) + int(rng.integers(60, 1200))
        dur = 38 * 60
        L = [Logger(rng, SN, base, base + dur, trouble(rng, .3)) for SN in fresh_sns(rng, n)]
        who = int(rng.integers(n))
        g = base + int(rng.integers(1400, 1900))    # earlier: see the finding
        for i, q in enumerate(L):
            q.write(rng, root, gap=(g, g + int(rng.integers(10, 120))) if i == who else None)
        out = run(ctx, root, generate_report=False)
        judge(ctx, out, L, '[logger %d has a gap %d s after its start]' % (who, g - base))
        ctx.obs('runs')
        ctx.sig('gap', n, who, (g - base) // 300)


def case_cli(ctx):
    rng = ctx.rng
    root = ctx.sub('c')
    base = int(UTC(2021, 2, 3, 4, 5).timestamp)
    L = [Logger(rng, SN, base, base + 1500, trouble(rng, .4)) for SN in fresh_sns(rng, 3)]
    for q in L:
        q.write(rng, root)
    Figure.savefig = _small
    s = [q.SN for q in L]
    for args, want in ((['-i', root], L), (['-i', root, '-s', s[1]], L[1:2]), (['--inputdir', root, '-s', s[0] + ',' + s[2]], [L[0], L[2]]),
                       (['-i', root, '-x', s[0]], L[1:]), (['--inputdir=' + root, '-x', s[2] + ',999'], L[:2])):
        ctx.must('failed', H.main, args)
        what = '[%s]' % ' '.join(args[2:] or ['all'])
        got = sorted(q.SN for q in L if re.search('^(Checking metadata for %s|%s )' % (q.SN, q.SN), ctx.out, re.M))
        ctx.check(got == sorted(q.SN for q in want), 'loggers', 'tested %s, expected %s %s' % (got, [q.SN for q in want], what))
        for q in want:
            r, _ = q.oracle()
            for k, v in r.items():
                if v in ('ERROR', 'WARNING') and k in WORD:
                    ctx.check([l for l in ctx.out.split('\n') if names(q.SN, l) and WORD[k] in l.lower() and v.lower() in l.lower()], 'message',
                              'logger %s: %s is %s but nothing printed says so %s' % (q.SN, k, v, what))
        ctx.obs('terminal_runs')
        ctx.sig('cli', what)


def case_findings(ctx):
    """conditions under which the huddle test is known to fail (known_findings.txt); other failures have other keys"""
    rng = ctx.rng
    Figure.savefig = _small
    base = int(UTC(2021, 2, 3, 4, 5).timestamp)

    def data(name, n=3, gap=None, start=(0, 0, 0), temp=None, clock=None, dur=2280):
        root = ctx.sub(name)
        L = [Logger(rng, SN, base + start[i], base + dur, {}, dt=1.0, temp=temp, clock=clock) for i, SN in enumerate(fresh_sns(rng, n))]
        for i, q in enumerate(L):
            q.write(rng, root, gap=gap if i == 1 else None)
        return root, L

    root, L = data('plain')
    ret = ctx.must('failed', H.verify_huddle_test, root, generate_report=False)
    ctx.check(isinstance(ret, dict) and {'errors', 'warnings', 'stats', 'results'} <= set(ret), 'returns-none' if ret is None else 'returned',
              'verify_huddle_test returned %s, not the documented dict' % type(ret).__name__)
    _, exc = ctx.call(H.main, ['--inputdir', root, '--serialnumbers', L[0].SN])
    _, exc2 = ctx.call(H.main, ['--inputdir', root, '--exclude_serialnumbers', L[0].SN])
    ctx.check(exc is None and exc2 is None, 'long-options' if all(isinstance(e, (SystemExit, type(None))) for e in (exc, exc2)) else 'failed',
              'documented long options --serialnumbers and --exclude_serialnumbers: %r, %r' % (exc, exc2))
    root, L = data('clock', clock=1 - 3e-5)
    _, exc = ctx.call(H.verify_huddle_test, root, generate_report=False)
    ctx.check(exc is None, 'interval-below-1s' if isinstance(exc, ZeroDivisionError) else 'failed', 'metadata every 0.99997 s: %s: %s' % (type(exc).__name__, exc))
    for g in (240, 700):
        root, L = data('gap%d' % g, gap=(base + g, base + g + 60))
        _, exc = ctx.call(H.verify_huddle_test, root, generate_report=False)
        ctx.check(exc is None, 'gap-at-start' if isinstance(exc, ValueError) else 'failed', 'gap in the waveforms %d s after the start: %s: %s' % (
            g, type(exc).__name__, exc))
    root, L = data('temp', start=(0, 0, 1100), temp=lambda t: 15 + 9 * (t - base) / 3600, dur=4500)
    out = run(ctx, root, generate_report=False)
    m = [m for m in out['errors'] if 'recorded temperatures' in m]
    ctx.check(not m, 'temperature-at-other-times', 'loggers that felt the same temperature, one started 18 minutes later: %s' % m[:1])
    ctx.obs('known_conditions', 6)
    ctx.sig('findings')


def make():
    c = Check('C20', 'results, statistics and group errors of verify_huddle_test equal what the documented limits give for generated records',
              need=['runs', 'results_checked', 'flagged', 'statistics_checked', 'start_stop_times', 'temperature_comparisons', 'lag_tests', 'assertions'],
              assumptions=['limits as printed in the report', 'values exactly on a limit are not generated except the range limits of A2 and A3',
                           'figures are drawn at low resolution and not judged'])
    for i in range(pick(10, 16)):
        c.add('limits-%d' % i, case_limits)
    for i in range(pick(8, 12)):
        c.add('group-%d' % i, case_group)
    for i in range(pick(3, 6)):
        c.add('lags-%d' % i, case_lags)
    for i in range(pick(3, 6)):
        c.add('gaps-%d' % i, case_gaps)
    c.add('cli', case_cli)
    c.add('findings', case_findings)
    return c
