"""Random recording scenarios on top of the logger simulator."""
import os

import numpy as np

import gemsim
from gemsim import Logger, utc

DAYS = [(2020, 2, 28), (2020, 12, 31), (2021, 3, 4), (2022, 6, 30), (2019, 11, 9), (2023, 1, 1), (2024, 2, 29), (2015, 6, 30),
        (2016, 12, 31), (2025, 7, 4), (2028, 2, 29), (2033, 10, 17), (2038, 1, 18), (2039, 12, 30)]


def start_time(rng, near_midnight=None):
    y, m, d = DAYS[int(rng.integers(len(DAYS)))]
    if near_midnight is None:
        near_midnight = rng.random() < 0.4
    if near_midnight:
        s = 86400 - float(rng.uniform(20, 400))
    else:
        s = float(rng.uniform(0, 86000))
    return utc(y, m, d) + round(s, 4)


def first_number(rng):
    """number of the first raw file: small, or about to gain a digit"""
    return int(rng.choice([rng.integers(0, 40), rng.integers(92, 100), rng.integers(985, 1000), rng.integers(1000, 9600)],
                          p=[.55, .1, .2, .15]))


def logger(rng, version='0.91', SN=None, t0=None, **kw):
    SN = SN or '%03d' % rng.integers(3, 300)
    kw.setdefault('drift', float(rng.uniform(-3e-5, 3e-5)))
    kw.setdefault('quad', float(rng.uniform(-1, 1)) * 2e-14)
    kw.setdefault('amp', float(np.exp(rng.uniform(np.log(300), np.log(8000)))))
    m = 89.9 if rng.random() < .2 else 70
    kw.setdefault('lat', round(float(rng.uniform(-m, m)), 3) or 1.0)
    kw.setdefault('lon', round(float(rng.uniform(-179.9, 179.9)), 3) or 1.0)
    x0 = kw.pop('x0', None)
    if x0 is None:
        x0 = float(rng.choice([rng.uniform(100, 8000), rng.uniform(8150, 8250), rng.uniform(0, 5e5),
                               rng.uniform(65000, 66000)]))
    return Logger(rng, SN, version, start_time(rng) if t0 is None else t0, x0=x0, **kw)


def gap_list(rng, dur, n, lo=0.07, hi=0.9):
    """n lapses inside a file, apart from each other and from the ends."""
    out = []
    slots = np.linspace(1.0, dur - 2.5, n + 1)
    for i in range(n):
        w = float(rng.uniform(lo, hi))
        a = float(rng.uniform(slots[i], max(slots[i] + 0.01, slots[i + 1] - w - 0.7)))
        out.append((a, a + w))
    return out


def pause(rng, kind, lg):
    if kind == 'none':
        return 0.0
    s = {'short': lambda: float(rng.uniform(0.08, 7.9)),
         'tens': lambda: float(rng.uniform(8, 150)),
         'hours': lambda: float(rng.uniform(1800, 30000)),
         'days': lambda: float(rng.uniform(90000, 260000))}[kind]()
    lg.skip(s)
    return s


def deploy(rng, folder, lg, n, dur=(25, 45), p_pause=0.25, p_gap=0.25, p_restart=0.05, p_missing=0.1, num0=None,
           pauses=('short', 'tens', 'hours', 'days'), gps='normal', gap_hi=0.9, **kw):
    """Record n files into folder with random pauses, lapses, restarts and missing file numbers."""
    num = first_number(rng) if num0 is None else num0
    files = []
    for i in range(n):
        d = float(rng.uniform(*dur))
        gaps = gap_list(rng, d, int(rng.integers(1, 4)), hi=gap_hi) if rng.random() < p_gap else ()
        f = lg.record(num, round(d, 2), gps=gps, gaps=gaps, **kw)
        if folder is not None:
            f.write(folder)
        files.append(f)
        num += 1
        if rng.random() < p_missing:
            num += int(rng.integers(1, 6))
        if rng.random() < p_restart:
            lg.skip(float(rng.uniform(2, 5000)), restart=True)
        elif rng.random() < p_pause:
            pause(rng, pauses[int(rng.integers(len(pauses)))], lg)
    return files


def sorted_files(files):
    return sorted(files, key=lambda f: f.t[0])
