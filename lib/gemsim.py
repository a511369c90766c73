"""An independent model of a Gem logger.

It holds a ground truth (pressure waveform in counts as a function of UTC, a clock, a GPS schedule, sensor
metadata) and writes what the logger would have written to its memory card, in every raw format gemlog
documents.  Nothing here is taken from gemlog: the formats come from the raw files in the repository's data
folders and from the format notes in its documentation.

Units: a Gem "millisecond" is 1024 us of logger time.  A sample whose recorded millisecond count is m was
taken at logger time m + 8.93 (calibration constant of the logger: timing spec of 2021-07-07).
"""
import datetime
import os

import numpy as np

LATENCY = 8.93
GEMMS = 0.001024
STEP = 0.01 / GEMMS            # 9.765625 gem-ms between samples
EPOCH = datetime.datetime(1970, 1, 1)


def utc(y, mo, d, h=0, mi=0, s=0.0):
    return (datetime.datetime(y, mo, d, h, mi) - EPOCH).total_seconds() + s


def iso(t):
    return (EPOCH + datetime.timedelta(seconds=float(t))).isoformat()


class Clock:
    """UTC = t0 + GEMMS*(1+drift)*u + quad*u^2 with u = x - x0 (x = unwrapped logger milliseconds)."""

    def __init__(self, t0, x0=0.0, drift=0.0, quad=0.0):
        self.t0, self.x0, self.drift, self.quad = float(t0), float(x0), drift, quad

    def utc(self, x):
        u = np.asarray(x, dtype=float) - self.x0
        return self.t0 + (GEMMS * (1 + self.drift) * u + self.quad * u * u)

    def ms(self, t):
        dt = np.asarray(t, dtype=float) - self.t0
        u = dt / (GEMMS * (1 + self.drift))
        for _ in range(4):
            f = GEMMS * (1 + self.drift) * u + self.quad * u * u - dt
            u = u - f / (GEMMS * (1 + self.drift) + 2 * self.quad * u)
        return u + self.x0


class Wave:
    """Band-limited, aperiodic pressure record in counts, known at every instant."""

    def __init__(self, rng, t_ref, amp=1500.0, nsin=7, fmin=0.07, fmax=6.0, dc=0.0):
        self.t_ref = t_ref
        self.f = np.exp(rng.uniform(np.log(fmin), np.log(fmax), nsin))
        self.ph = rng.uniform(0, 2 * np.pi, nsin)
        a = rng.uniform(0.3, 1.0, nsin) / np.sqrt(self.f / fmin) ** 0.7
        self.a = a / a.sum() * amp
        self.dc = float(dc)

    def _arg(self, t):
        return 2 * np.pi * self.f[:, None] * (np.asarray(t, dtype=float) - self.t_ref)[None, :] + self.ph[:, None]

    def __call__(self, t, chunk=200000):
        t = np.atleast_1d(np.asarray(t, dtype=float))
        out = np.empty(len(t))
        for i in range(0, len(t), chunk):
            out[i:i + chunk] = self.dc + (self.a[:, None] * np.sin(self._arg(t[i:i + chunk]))).sum(0)
        return out

    def deriv(self, t, chunk=200000):
        t = np.atleast_1d(np.asarray(t, dtype=float))
        out = np.empty(len(t))
        w = 2 * np.pi * self.f * self.a
        for i in range(0, len(t), chunk):
            out[i:i + chunk] = (w[:, None] * np.cos(self._arg(t[i:i + chunk]))).sum(0)
        return out


HEAD = {
    '0.8': ['#GemCSV0.8', '#D,msSamp,ADC', '#R,msPPS,NMEA', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
            '#M,ms,batt(V),temp(C),maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle', 'S,{SN}'],
    '0.85': ['#GemCSV0.85', '#D,msSamp,ADC', '#R,msPPS,NMEA', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
             '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle',
             'S,{SN}'],
    '0.85C': ['#GemCSV0.85C', '#DmsSamp,ADC', '#R,msPPS,NMEA', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
              '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle',
              'S,{SN}'],
    '0.9': ['#GemCSV0.9', '#DmsSamp,ADC', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
            '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle',
            'S,{SN}', '#Firmware0.93', 'C,{C}'],
    '0.91': ['#GemCSV0.91', '#DmsSamp,ADC', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
             '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle',
             'S,{SN}', '#Firmware0.95', 'C,{C}'],
    '1.10': ['#GemCSV1.10', '#[msSamp]ADC #m=10,0', '#[DmsSamp,]ADC',
             '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
             '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle',
             'S,{SN}', '#Firmware0.963-15_2022-03-14T00:32:06Z', 'C,{C}'],
}
VERSIONS = ['0.8', '0.85', '0.85C', '0.9', '0.91', '1.10']
NEW = ['0.85C', '0.9', '0.91', '1.10']


class File:
    """One raw file: its text lines and the ground truth of what was recorded in it."""

    def __init__(self, num, name):
        self.num, self.name = num, name
        self.lines = []
        self.t = None          # true UTC of every sample
        self.counts = None     # recorded counts
        self.gps = []          # (utc second, lat, lon, good?)
        self.meta = []         # dicts of what the M lines say + true utc
        self.kinds = None      # (kind, index) per body line
        self.header_len = 0

    def text(self):
        return '\n'.join(self.lines) + '\n'

    def write(self, folder):
        os.makedirs(folder, exist_ok=True)
        p = os.path.join(folder, self.name)
        with open(p, 'w') as f:
            f.write(self.text())
        return p


class Logger:
    def __init__(self, rng, SN='123', version='0.91', t0=None, drift=0.0, quad=0.0, config=(1, 15, 20, 0, 0, 0),
                 lat=43.61, lon=-116.2, wave=None, meta_period=1.0, x0=None, pps_noise=True, amp=1500.0):
        self.rng, self.SN, self.version, self.config = rng, SN, version, config
        self.t0 = utc(2021, 3, 4, 5, 6, 7.3) if t0 is None else t0
        self.x0 = float(rng.uniform(2000, 300000)) if x0 is None else float(x0)   # logger ms at t0
        self.clock = Clock(self.t0, self.x0, drift, quad)
        self.wave = wave if wave is not None else Wave(rng, self.t0, amp=amp)
        self.lat, self.lon = lat, lon
        self.meta_period = meta_period
        self.xnext = self.x0          # logger time of the next sample (recording is continuous)

    # ---------------------------------------------------------------
    def filename(self, num):
        ext = 'TXT' if self.version == '0.8' else self.SN
        return 'FILE%04d.%s' % (num, ext)

    def rollover(self):
        return 2 ** 16 if self.version in ('0.8', '0.85') else 2 ** 13

    def skip(self, seconds, restart=False):
        """Stop recording for a while. restart: power cycle, so the millisecond counter starts anew."""
        t_next = float(self.clock.utc(self.xnext)) + seconds
        if restart:
            x_new = float(self.rng.uniform(500, 9000))
        else:                     # the counter runs on, at the nominal drift
            x_new = self.xnext + seconds / (GEMMS * (1 + self.clock.drift))
        self.clock = Clock(t_next, x_new, self.clock.drift, self.clock.quad)
        self.xnext = x_new

    def record(self, num, seconds, gps='normal', gaps=(), compact_mix=1.0, gps_bad=(), lat=None, lon=None,
               jitter=0.0):
        """Record one file.
        gps: 'normal' (fix every second), 'cycles' (first long, then short bursts), 'none', or a list of
             (from_s, to_s) windows relative to file start.
        gaps: list of (from_s, to_s) relative to file start during which samples are lost.
        gps_bad: dict {index of fix: seconds of error} or list thereof.
        compact_mix: fraction of eligible lines that 1.10 writes in compact form.
        """
        rng, ck = self.rng, self.clock
        f = File(num, self.filename(num))
        n = int(round(seconds * 100))
        x = self.xnext + np.arange(n) * STEP
        self.xnext = float(x[-1] + STEP)
        if jitter:
            x = x + rng.uniform(-jitter, jitter, n)
        t = ck.utc(x)
        keep = np.ones(n, bool)
        rel = t - t[0]
        for a, b in gaps:
            keep &= ~((rel >= a) & (rel < b))
        x, t = x[keep], t[keep]
        counts = np.round(self.wave(t)).astype(np.int64)
        m = np.round(x - LATENCY).astype(np.int64)
        f.t, f.counts, f.x = t, counts, x
        f.seg_starts = np.concatenate([[0], np.where(np.diff(x) > 2.5 * STEP)[0] + 1])
        roll = self.rollover()
        ev = []                      # (emission x, order, kind, payload)
        lat = self.lat if lat is None else lat
        lon = self.lon if lon is None else lon
        # GPS -----------------------------------------------------
        if gps == 'normal':
            wins = [(0, 1e12)]
        elif gps == 'cycles':
            wins, a = [(0, 20)], 60
            while a < seconds:
                wins.append((a, a + 12))
                a += 60
            wins.append((seconds - 12, 1e12))
        elif gps in ('none', 'searching'):      # searching: the GPS is on but gets no fix
            wins = []
            if gps == 'searching' and self.version in ('0.91', '1.10'):
                for T in np.arange(np.ceil(t[0] + 0.05), t[-1] - 0.6):
                    s = (EPOCH + datetime.timedelta(seconds=float(T))).strftime('%H%M%S,%d%m%y').split(',')
                    ev.append((float(ck.ms(T)) + 200, 3, 'R', 'R,0,$GPRMC,%s.000,V,,,,,0.00,0.00,%s,,,N*42' % tuple(s)))
        else:
            wins = gps
        gps_bad = dict(gps_bad) if not isinstance(gps_bad, dict) else gps_bad
        secs = np.arange(np.ceil(t[0] + 0.05), np.floor(t[-1] - 0.45) + 0.5)
        k = 0
        for T in secs:
            r = T - t[0]
            if not any(a <= r < b for a, b in wins):
                continue
            xp = float(ck.ms(T))
            lag = float(rng.uniform(55, 300)) if rng.random() < .94 else float(rng.uniform(300, 995))
            ms = xp % roll
            if self.version in ('0.91', '1.10'):
                s_ms, s_lag = '%.2f' % ms, '%.2f' % lag
                if s_ms == '%.2f' % roll:
                    s_ms = '0.00'
            else:
                s_ms, s_lag = '%d' % (int(round(xp)) % roll), '%d' % lag
            T_rep = T + gps_bad.get(k, 0)
            d = EPOCH + datetime.timedelta(seconds=float(T_rep))
            la = lat + float(rng.normal(0, 3e-6))
            lo = lon + float(rng.normal(0, 3e-6))
            line = 'G,%s,%s,%d,%d,%d,%d,%d,%.1f,%.5f,%.5f' % (s_ms, s_lag, d.year, d.month, d.day, d.hour, d.minute,
                                                           d.second, la, lo)
            if self.version in ('0.91', '1.10'):
                ev.append((xp + 1, 1, 'P', 'P,' + s_ms))
                ev.append((xp + lag + .01, 3, 'R', 'R,0,$GPRMC,%02d%02d%02d.000,A,4331.5000,N,11603.8859,W,'
                           '0.35,322.33,050423,,,A*73' % (d.hour, d.minute, d.second)))
            ev.append((xp + lag, 2, 'G', line))
            f.gps.append((T_rep, round(la, 5), round(lo, 5), k not in gps_bad))
            k += 1
        # metadata ------------------------------------------------
        tm = np.arange(t[0] + 0.31, t[-1] - 0.02, self.meta_period)
        gon = lambda r: 1 if any(a <= r < b for a, b in wins) else 0
        for j, T in enumerate(tm):
            xm = round(float(ck.ms(T)))
            # the logger does not write while it is not sampling
            if len(f.seg_starts) > 1:
                i = np.searchsorted(x, xm)
                if i == 0 or i >= len(x) or (x[i] - x[i - 1]) > 2.5 * STEP:
                    continue
            q = dict(batt=round(3.2 + 0.4 * np.sin(T / 977.), 2), temp=round(21 + 5 * np.sin(T / 3111.), 1),
                     A2=round(1.2 + .3 * np.sin(T), 3), A3=round(1.9 + .3 * np.cos(T), 3),
                     maxWriteTime=int(rng.integers(2, 90)), minFifoFree=int(rng.integers(60, 75)),
                     maxFifoUsed=int(rng.integers(0, 5)), maxOverruns=0, gpsOnFlag=gon(T - t[0]),
                     unusedStack1=int(rng.integers(40, 60)), unusedStackIdle=int(rng.integers(60, 99)))
            vals = ['%d' % (xm % roll), '%.2f' % q['batt'], '%.1f' % q['temp']]
            if self.version != '0.8':
                vals += ['%.3f' % q['A2'], '%.3f' % q['A3']]
            vals += ['%d' % q[c] for c in ('maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag',
                                           'unusedStack1', 'unusedStackIdle')]
            ev.append((xm + 2.0, 4, 'M', 'M,' + ','.join(vals)))
            q['t'] = float(ck.utc(xm))
            f.meta.append(q)
        # data ----------------------------------------------------
        mm = m % roll
        v = self.version
        if v in ('0.8', '0.85'):
            dl = ['D,%d,%d' % p for p in zip(mm.tolist(), counts.tolist())]
        else:
            diff = np.diff(counts, prepend=0).tolist()
            ml = mm.tolist()
            if v != '1.10':
                dl = ['D%d,%d' % p for p in zip(ml, diff)]
            else:
                dm = np.diff(m, prepend=-10 ** 9).tolist()
                use = rng.random(len(m)) < compact_mix
                dl = []
                for i in range(len(ml)):
                    d, e = diff[i], dm[i]
                    if i == 0 or not use[i] or abs(e - 10) > 12:
                        dl.append('D%d,%d' % (ml[i], d))
                    elif abs(d) <= 12:
                        dl.append((chr(d + 109) if e == 10 else chr(e - 10 + 109) + chr(d + 109)))
                    elif e == 10:
                        dl.append('D%d' % d)
                    else:
                        dl.append('D%d,%d' % (ml[i], d))
        ev += list(zip(x.tolist(), [0] * len(x), ['D'] * len(x), dl))
        ev.sort(key=lambda e: (e[0], e[1]))
        head = [h.format(SN=self.SN, C=','.join(str(c) for c in self.config)) for h in HEAD[v]]
        f.header_len = len(head)
        # a file always starts with a data line (the logger opens it when a sample is ready)
        body = ev
        for i, e in enumerate(body):
            if e[2] == 'D':
                if i:
                    body = [body[i]] + body[:i] + body[i + 1:]
                break
        f.lines = head + [e[3] for e in body]
        f.kinds = ['H'] * len(head) + [e[2] for e in body]
        return f


# ------------------------------------------------------------------------------------------------ oracles
def segments(files, gap=0.025):
    """True recorded intervals [(t_first, t_last)] over a list of Files, in time order."""
    t = np.sort(np.concatenate([f.t for f in files]))
    cut = np.where(np.diff(t) > gap)[0]
    s = np.concatenate([[0], cut + 1])
    e = np.concatenate([cut, [len(t) - 1]])
    return [(float(t[a]), float(t[b])) for a, b in zip(s, e)]


def lag_and_residual(data, t, wave):
    """data sampled at times t against the truth: (timing error in s, rms residual counts, max |residual|,
    fitted gain)."""
    w, d = wave(t), wave.deriv(t)
    r = np.asarray(data, float) - w
    den = float((d * d).sum())
    delta = float((r * d).sum()) / den if den > 0 else 0.0
    rr = r - delta * d
    wc = w - w.mean()
    dc = np.asarray(data, float) - np.mean(data)
    gain = float((dc * wc).sum() / max(1e-9, (wc * wc).sum()))
    return delta, float(np.sqrt((rr * rr).mean())), float(np.abs(rr).max()), gain


def tr_times(tr):
    t0 = tr.stats.starttime.ns / 1e9
    return t0 + np.arange(tr.stats.npts) * float(tr.stats.delta)
