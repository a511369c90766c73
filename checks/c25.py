"""C25 directions from lags: inversion for any array, station order, and coordinates."""
import os

import numpy as np
import obspy
import pandas as pd
import scipy.fft
import scipy.interpolate
import gemlog.xcorr as xc
from obspy.core.inventory import Channel, Inventory, Network, Station
from obspy.geodetics import gps2dist_azimuth

from mon import Check, Stop, pick


def ids(rng, n):
    """distinct net.sta.loc, often sharing parts and looking alike"""
    out = []
    nets = ['', 'XX', 'AB', '1A'][:int(rng.integers(1, 5))]
    stas = ['1', '11', '111', 'A', 'A1', 'A10', 'A2', 'AB', '042', '42', 'STA01', 'STA1', 'Z', '00', 'HDF', 'GEM']
    locs = ['', '00', '01', '1', '10'][:int(rng.integers(1, 6))]
    while len(out) < n:
        i = (str(rng.choice(nets)), str(rng.choice(stas)), str(rng.choice(locs)))
        if i not in out:
            out.append(i)
    return out


def array(rng, n):
    """x, y in km; not collinear, for every three stations when n == 3, as a whole otherwise"""
    while True:
        ap = float(np.exp(rng.uniform(np.log(0.02), np.log(8))))
        kind = rng.integers(4)
        if kind == 0:
            r = rng.uniform(-ap, ap, (n, 2))
        elif kind == 1:                       # regular figure with a centre
            a = np.arange(n) * 2 * np.pi / max(n - 1, 3)
            r = ap * np.c_[np.sin(a), np.cos(a)]
            r[-1] = 0
        elif kind == 2:                       # thin
            r = rng.uniform(-ap, ap, (n, 2)) * [1, .15]
        else:                                 # on a grid: equal coordinates
            r = rng.integers(-2, 3, (n, 2)) * ap
        r = r + rng.uniform(-3, 3, 2) * (rng.random() < .5)
        c = r - r.mean(0)
        s = np.linalg.svd(c, compute_uv=False)
        if s[1] > 0.05 * s[0] and s[1] > 1e-3 and len({tuple(np.round(q, 9)) for q in r}) == n:
            return r


def lag_table(rng, names, pos, svecs, present, extras=True):
    """What xcorr_all gives for exact lags: per window, lags between neighbours of the sorted stations present, cyclically;
    columns appear in the order in which they first occur."""
    out = {'t_mid': []}
    nw = len(svecs)
    for w in range(nw):
        st = sorted(i for i in range(len(names)) if present[w][i])
        st = sorted(st, key=lambda i: names[i])
        d = {'mean_coef': 1.0} if extras else {}
        for a, i in enumerate(st):
            j = st[(a + 1) % len(st)]
            n1, n2 = '.'.join(names[i]), '.'.join(names[j])
            d['rms_' + n1] = 1.0 + i
            d['lag_%s_%s' % (n1, n2)] = float(svecs[w] @ (pos[i] - pos[j]))
            d['r_%s_%s' % (n1, n2)] = 0.9
        if extras:
            d['consistency'] = True
        for k in d:
            if k not in out:
                out[k] = [np.nan] * w
            out[k].append(d[k])
        for k in out:
            if k not in d and k != 't_mid':
                out[k].append(np.nan)
        out['t_mid'].append(obspy.UTCDateTime(2021, 3, 4) + 10 * w)
    return pd.DataFrame(out)


def directions(rng, n):
    az = rng.uniform(-180, 180, n)
    k = rng.random(n) < .3
    az[k] = rng.choice([0, 45, 90, 180, -90, -45, 135, 30], k.sum())
    s = np.exp(rng.uniform(np.log(0.02), np.log(6), n))
    # a wave from back-azimuth az moves towards az + 180
    v = -np.c_[s * np.sin(np.deg2rad(az)), s * np.cos(np.deg2rad(az))]
    return az, s, v


def judge(ctx, res, tab, az, s, full, what, ta=1e-5, ts=1e-6):
    if not ctx.check(isinstance(res, pd.DataFrame) and len(res) == len(az), 'rows', '%r rows for %d windows %s' % (
            getattr(res, 'shape', res), len(az), what)):
        raise Stop()
    for c in tab.columns:
        same = c in res.columns and (list(res[c].astype(str)) == list(tab[c].astype(str)))
        if not ctx.check(same, 'columns', 'column %s was lost or changed %s' % (c, what)):
            return
    b, q = res['backazimuth'].to_numpy(float), res['slowness'].to_numpy(float)
    for i in range(len(az)):
        if not full[i]:                       # a lag is missing: no value, or the right one
            ctx.obs('windows_with_missing_stations')
            if np.isnan(b[i]) or np.isnan(q[i]):
                continue
        ctx.obs('directions_checked')
        ctx.check(abs(q[i] - s[i]) <= ts * (1 + s[i]), 'slowness', 'window %d: slowness %r, true %r %s' % (i, q[i], s[i], what))
        d = (b[i] - az[i] + 180) % 360 - 180
        if s[i] > 1e-9:
            ctx.check(abs(d) <= ta, 'backazimuth', 'window %d: back-azimuth %r, true %r %s' % (i, b[i], az[i], what))
        if ctx.viol:
            return


def case_invert(ctx, kind):
    rng = ctx.rng
    for rep in range(pick(60, 400)):
        n = int(rng.integers(3, 11)) if kind != 'three' else 3
        names, pos = ids(rng, n), array(rng, n)
        nw = int(rng.choice([1, 2, 3, 7, 30]))
        az, s, v = directions(rng, nw)
        present = np.ones((nw, n), bool)
        if kind == 'missing' and nw > 1:
            for w in range(nw):
                if rng.random() < .5:
                    present[w, rng.integers(n)] = False
            if rng.random() < .5:             # the first window lacks one
                present[0] = True
                present[0, rng.integers(n)] = False
            present[rng.integers(nw)] = True  # and one has them all
        tab = lag_table(rng, names, pos, v, present)
        order = rng.permutation(n)
        rows = [(pos[i][0], pos[i][1], 100.0) + names[i] for i in order]
        others = [i for i in ids(rng, 3) if i not in names] if rng.random() < .5 else []
        for i in others:
            rows.insert(int(rng.integers(len(rows) + 1)), tuple(rng.uniform(-9, 9, 2)) + (0.0,) + i)
        loc = pd.DataFrame(rows, columns=['x', 'y', 'z', 'network', 'station', 'location'])
        if rng.random() < .4:
            loc.index = rng.permutation(len(loc)) + int(rng.integers(4))
        if kind == 'filtered':                # the user keeps some windows only, or puts them in another order
            keep = rng.permutation(nw)[:int(rng.integers(1, nw + 1))]
            if rng.random() < .5:
                keep = np.sort(keep)
            tab = tab.iloc[keep].copy()
            az, s, present = az[keep], s[keep], present[keep]
        loc0, tab0 = loc.copy(), tab.copy()
        what = '[%s: %d stations %s listed as %s, %d windows, index %s, %d other stations]' % (
            kind, n, ['.'.join(i) for i in names], ['.'.join(names[i]) for i in order], len(tab), list(tab.index[:4]), len(others))
        res = ctx.must('invert-failed', xc.invert_for_slowness, tab, loc)
        judge(ctx, res, tab0, az, s, present.all(1), what)
        ctx.check(loc.equals(loc0), 'locations-changed', 'the locations table was changed ' + what)
        ctx.sig(kind, n, len(tab), len(others))
        if ctx.viol:
            return


def inventory(rng, names, lat, lon, z, split):
    """stations of several locations share a Station element or not"""
    nets = {}
    for k, (i, a, o, h) in enumerate(zip(names, lat, lon, z)):
        chans = [Channel('HDF', i[2], latitude=a, longitude=o, elevation=h, depth=0)]
        st = nets.setdefault(i[0], {})
        key = (i[1], k) if split else i[1]
        if key in st:
            st[key].channels += chans
        else:
            st[key] = Station(i[1], latitude=a, longitude=o, elevation=h, channels=chans)
    return Inventory([Network(n, stations=list(s.values())) for n, s in nets.items()])


def geo(lat, lon):
    """east and north of every point from every other, by geodesics"""
    n = len(lat)
    E, N = np.zeros((n, n)), np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            d, a, _ = gps2dist_azimuth(lat[i], lon[i], lat[j], lon[j])
            E[i, j], N[i, j] = d / 1000 * np.sin(np.deg2rad(a)), d / 1000 * np.cos(np.deg2rad(a))
    return E, N


def case_coords(ctx, source):
    rng = ctx.rng
    for rep in range(pick(25, 150)):
        n = int(rng.integers(3, 9))
        names = ids(rng, n)
        ap = float(np.exp(rng.uniform(np.log(0.02), np.log(5))))
        lat0, lon0 = float(rng.uniform(-72, 72)), float(rng.uniform(-170, 170))
        xy = rng.uniform(-ap, ap, (n, 2))
        lat = np.round(lat0 + xy[:, 1] / 111.2, 6)
        lon = np.round(lon0 + xy[:, 0] / 111.2 / np.cos(np.deg2rad(lat0)), 6)
        z = np.round(rng.uniform(-100, 4000, n), 1)
        split = rng.random() < .5
        if source == 'inventory':
            arg = inventory(rng, names, lat, lon, z, split)
            if rng.random() < .5:
                p = os.path.join(ctx.dir, 'inv.xml')
                arg.write(p, format='STATIONXML')
                arg = obspy.read_inventory(p)
        else:
            st = obspy.Stream()
            for i, a, o, h, q in zip(names, lat, lon, z, xy):
                tr = obspy.Trace(np.zeros(10, 'int32'))
                tr.stats.network, tr.stats.station, tr.stats.location = i
                tr.stats.coordinates = obspy.core.AttribDict(
                    dict(longitude=o, latitude=a, elevation=h) if source == 'lonlat' else dict(x=q[0], y=q[1], elevation=h))
                st += tr
            arg = st
        what = '[%s: %d stations near %.3f, %.3f, aperture %.3f km]' % (source, n, lat0, lon0, ap)
        c = ctx.must('coords-failed', xc.get_coordinates, arg)
        got = {(r.network, r.station, r.location): (float(r.x), float(r.y), float(r.z)) for r in c.itertuples()}
        if not ctx.check(sorted(got) == sorted(names) and len(c) == n, 'coords-stations', 'coordinates of %s, stations are %s %s' % (
                sorted(got), sorted(names), what)):
            return
        X = np.array([got[i] for i in names])
        if source == 'xy':
            E, N = xy[None, :, 0] - xy[:, None, 0], xy[None, :, 1] - xy[:, None, 1]
            tol = 1e-9
        else:
            E, N = geo(lat, lon)
            tol = 2e-3 * ap + 2e-3 * ap * abs(np.tan(np.deg2rad(lat0))) * ap / 10 + 2e-4
        dE, dN = X[None, :, 0] - X[:, None, 0], X[None, :, 1] - X[:, None, 1]
        ctx.obs('distances_checked', n * (n - 1))
        e = max(np.abs(dE - E).max(), np.abs(dN - N).max())
        ctx.check(e <= tol, 'coords', 'east/north distances are wrong by %.4f km (tolerance %.4f) %s' % (e, tol, what))
        dz = np.abs((X[:, 2] - X[0, 2]) - (z - z[0])).max()
        ctx.check(dz < 1e-3, 'coords-z', 'relative elevations are wrong by %.4f m %s' % (dz, what))
        ctx.sig(source, n, round(lat0 / 30), split)
        # and inverting with them gives the direction
        pos = np.c_[E[0], N[0]]
        if np.linalg.svd(pos - pos.mean(0), compute_uv=False)[1] < 0.2 * ap:
            continue
        az, s, v = directions(rng, 2)
        tab = lag_table(rng, names, pos, v, np.ones((2, n), bool))
        res = ctx.must('invert-failed', xc.invert_for_slowness, tab.copy(), c)
        judge(ctx, res, tab, az, s, [True, True], what, ta=6.0 * 180 / np.pi * 1e-2, ts=0.08)
        if ctx.viol:
            return


def case_terminal(ctx):
    rng = ctx.rng
    for rep in range(pick(8, 40)):
        n = int(rng.integers(3, 7))
        names = ids(rng, n)
        lat0, lon0 = float(rng.uniform(-60, 60)), float(rng.uniform(-170, 170))
        xy = array(rng, n)
        xy = (xy - xy.mean(0)) / np.abs(xy - xy.mean(0)).max() * float(rng.uniform(.05, 2))
        lat = np.round(lat0 + xy[:, 1] / 111.2, 6)
        lon = np.round(lon0 + xy[:, 0] / 111.2 / np.cos(np.deg2rad(lat0)), 6)
        E, N = geo(lat, lon)
        pos = np.c_[E[0], N[0]]
        nw = int(rng.integers(1, 6))
        az, s, v = directions(rng, nw)
        tab = lag_table(rng, names, pos, v, np.ones((nw, n), bool))
        others = [i for i in ids(rng, 2) if i not in names]
        order = rng.permutation(n)
        al = [names[i] for i in order] + others
        inv = inventory(rng, al, list(lat[order]) + [lat0] * len(others), list(lon[order]) + [lon0] * len(others),
                        [0.0] * len(al), rng.random() < .5)
        inv.write('loc.xml', format='STATIONXML')
        tab.to_csv('lags.csv', index=False)
        what = '[waveform_calc_directions: %s]' % ['.'.join(i) for i in names]
        _, e = ctx.call(xc.calculate_direction_terminal, ['-i', 'lags.csv', '-l', 'loc.xml', '-o', 'dir.csv'])
        if not ctx.check(e is None, 'terminal-failed', '%r %s' % (e, what)):
            return
        res, back = pd.read_csv('dir.csv'), pd.read_csv('lags.csv')
        cond = np.linalg.svd(pos - pos.mean(0), compute_uv=False)
        f = cond[0] / cond[1]
        judge(ctx, res, back, az, s, [True] * nw, what, ta=0.5 * f, ts=0.01 * f)
        ctx.obs('terminal_runs')
        ctx.sig('terminal', n, nw)
        if ctx.viol:
            return


def case_whole(ctx):
    """From waveform files to the direction: the error is what the sampling interval allows."""
    rng = ctx.rng
    for rep in range(pick(3, 12)):
        n = int(rng.integers(3, 6))
        names = sorted(ids(rng, n))
        while True:
            pos = rng.uniform(-.1, .1, (n, 2))
            sv = np.linalg.svd(pos - pos.mean(0), compute_uv=False)
            if sv[1] > .3 * sv[0]:
                break
        az, s, v = directions(rng, 1)
        s[:] = rng.uniform(1.5, 3.5)
        v = v / np.linalg.norm(v) * s[0]
        fs, dur, up = 100.0, 60.0, int(rng.choice([1, 4]))
        m = scipy.fft.next_fast_len(int((dur + 4) * fs * 4))
        F = np.fft.rfftfreq(m, 1 / fs / 4)
        sp = (rng.normal(size=len(F)) + 1j * rng.normal(size=len(F))) * ((F > 3) & (F < 25))
        y = np.fft.irfft(sp, m)
        f = scipy.interpolate.CubicSpline(np.arange(m) / fs / 4 - 2, y / y.std() * 3000)
        t0 = obspy.UTCDateTime(2022, 5, 6, 1, 2, 3)
        t = np.arange(int(dur * fs)) / fs
        folder = ctx.sub('d%d' % rep)
        files = []
        for i, (a, b, c) in enumerate(names):
            tr = obspy.Trace(np.round(f(t - v[0] @ pos[i])).astype('int32'))
            tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = a, b, c, 'HDF'
            tr.stats.starttime, tr.stats.delta = t0, 1 / fs
            p = os.path.join(folder, '%d.mseed' % i)
            tr.write(p, format='MSEED')
            files.append(p)
        tab = ctx.must('xcorr-failed', xc.xcorr_all, [str(q) for q in rng.permutation(files)], fl=4, fh=20, win_length_sec=10,
                       upsample_ratio=up)
        order = rng.permutation(n)
        loc = pd.DataFrame([(pos[i][0], pos[i][1], 0.0) + names[i] for i in order],
                           columns=['x', 'y', 'z', 'network', 'station', 'location'])
        res = ctx.must('invert-failed', xc.invert_for_slowness, tab, loc)
        # lags may be wrong by 0.6 of a (refined) sample each
        G = np.array([pos[i] - pos[(i + 1) % n] for i in range(n)])[:-1]
        H = np.abs(np.linalg.inv(G.T @ G) @ G.T)
        es = float(np.linalg.norm(H.sum(1))) * .6 / fs / up
        ea = np.rad2deg(np.arcsin(min(1, es / s[0]))) if es < s[0] else 180
        nw = len(res)
        what = '[whole chain: %d stations, slowness %.2f s/km from %.1f, upsampled %d]' % (n, s[0], az[0], up)
        ctx.check(nw >= 5, 'windows', '%d windows %s' % (nw, what))
        judge(ctx, res, tab[[]], np.repeat(az, nw), np.repeat(s, nw), [True] * nw, what, ta=ea, ts=es / (1 + s[0]))
        ctx.sig('whole', n, up)
        ctx.obs('whole_chain_windows', nw)
        if ctx.viol:
            return


def make():
    c = Check('C25', 'random arrays (3-10 stations, 20 m - 8 km, look-alike codes), directions and slownesses; exact lags laid out as '
              'xcorr_all lays them out, with missing stations and filtered windows; coordinates from inventories and streams '
              'against geodesics; the terminal command; whole chain from waveform files',
              need=['directions_checked', 'distances_checked', 'terminal_runs', 'whole_chain_windows', 'windows_with_missing_stations'],
              assumptions=['arrays do not straddle the 180th meridian or a pole', 'stations are not collinear'])
    for k in ('three', 'any', 'missing', 'filtered'):
        c.add('invert_' + k, case_invert, kind=k)
    for k in ('inventory', 'lonlat', 'xy'):
        c.add('coords_' + k, case_coords, source=k)
    c.add('terminal', case_terminal)
    for i in range(pick(2, 6)):
        c.add('whole_%d' % i, case_whole)
    return c
