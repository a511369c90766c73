"""C16 renaming and inventories: every logger gets its own codes and coordinates."""
import contextlib
import glob
import io
import os

import numpy as np
import obspy
import pandas as pd
import gemlog
from obspy import UTCDateTime as UTC

import gl
from mon import Check, pick
from tables import give_table, make_table

def write_files(rng, d, sns, fmt='mseed', pieces=False):
    """files as convert writes them (pieces: or with gaps, in any order) -> {name: (SN, Stream)}"""
    out = {}
    for SN in sns:
        t = UTC(2019, 12, 31, 23) + float(rng.uniform(0, 86400 * 3))
        for _ in range(int(rng.integers(1, 5))):
            t = UTC(round(float(t), 2))
            n = int(rng.integers(2, 4000))
            tr = obspy.Trace(np.cumsum(rng.integers(-30, 31, n)).astype('int32'),
                             {'sampling_rate': 100., 'starttime': t, 'station': SN, 'channel': 'HDF'})
            name = '%s..%s..HDF.%s' % (t.strftime('%Y-%m-%dT%H_%M_%S'), SN, fmt)
            if name in out:
                name = name.replace('.', '_%02d.' % (t.microsecond // 10000), 1)
            if name in out:
                continue
            st = obspy.Stream([tr])
            for _ in range(int(rng.integers(1, 4)) if pieces and rng.random() < .4 else 0):
                q = st[-1].copy()
                q.stats.starttime = UTC(round(float(st[-1].stats.endtime) + float(rng.choice([0.2, 3, 70])), 2))
                q.data = q.data[::-1][:max(2, q.stats.npts // 2)]
                st += q
            end = max(q.stats.endtime for q in st)
            st = obspy.Stream([st[i] for i in rng.permutation(len(st))])
            st.write(os.path.join(d, name), fmt, **({'encoding': 10} if fmt == 'mseed' else {}))
            out[name] = (SN, obspy.read(os.path.join(d, name)))
            t = end + float(rng.choice([0.02, 0.3, 5, 4000, 90000]))
    return out


PATTERNS = [None, None, '{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}',
            '{year}.{jd}.{hour}.{min}.{sec}.{net}.{sta}.{loc}.{chan}.{fmt}',
            '{net}.{sta}.{loc}.{chan}.{year}{mon}{day}_{hour}{min}{sec}.{fmt}',
            '{sta}_{loc}_{net}_{year}_{jd}_{hour}_{min}_{sec}.{fmt}',
            '{fmt}.{chan}.{sta}.{net}.{loc}.{day}.{mon}.{year}.{sec}.{min}.{hour}']


def name_for(pat, t, r, fmt, hs=None):
    pat = pat or PATTERNS[2]
    v = {'year': '%04d' % t.year, 'mon': '%02d' % t.month, 'day': '%02d' % t.day, 'hour': '%02d' % t.hour,
         'min': '%02d' % t.minute, 'sec': '%02d' % t.second, 'jd': '%03d' % t.julday, 'net': r['network'],
         'sta': r['station'], 'loc': r['location'], 'chan': 'HDF', 'fmt': fmt}
    for k, x in v.items():
        pat = pat.replace('{%s}' % k, x)
    return pat


def case_rename(ctx):
    rng = ctx.rng
    for rep in range(pick(16, 80)):
        n = int(rng.integers(1, 7))
        sns = ['%03d' % q for q in rng.choice(np.arange(3, 400), n + 3, replace=False)]
        known, unknown = sns[:n], sns[n:n + int(rng.integers(0, 3))]
        d = ctx.sub('in%d' % rep)
        rows = make_table(rng, known + sns[n + 2:])
        rows = [rows[i] for i in rng.permutation(len(rows))]
        table, rows, how = give_table(rng, rows, ctx.sub('t%d' % rep))
        byfn = {r['SN']: r for r in rows}
        ifmt = 'mseed' if rng.random() < .8 else 'sac'
        fmt = ['mseed', 'mseed', 'sac', 'tspair'][int(rng.integers(4))]
        files = write_files(rng, d, known + unknown, ifmt, pieces=ifmt == fmt == 'mseed')
        pat = PATTERNS[int(rng.integers(len(PATTERNS)))]
        o = os.path.join(ctx.dir, 'out%d' % rep, *(['deep'] if rng.random() < .3 else []))
        kw = {} if (fmt == 'mseed' and rng.random() < .5) else {'output_format': fmt}
        kw.update({} if pat is None else {'outfile_pattern': pat})
        what = '[table %s, %d known, %d unknown loggers, %s -> %s, pattern %s]' % (how, n, len(unknown), ifmt, fmt, pat)
        before = gl.md5_tree(d)
        frame = table.copy() if isinstance(table, pd.DataFrame) else None
        _, exc = ctx.call(gemlog.rename_files, d + '/*', table, o, **kw)
        if not ctx.check(exc is None, 'rename-failed', 'rename_files raised %r %s' % (exc, what)):
            return
        ctx.check(gl.md5_tree(d) == before, 'input-changed', 'rename_files changed its input files %s' % what)
        if frame is not None:
            ctx.check(list(frame.columns) == list(table.columns) and frame.equals(table), 'table-changed',
                      'rename_files changed the table it was given %s' % what)
        got = {p: os.path.join(o, p) for p in os.listdir(o)}
        want = {}
        for name, (SN, st) in files.items():
            if SN in byfn:
                start = min(tr.stats.starttime for tr in st)
                want.setdefault(name_for(pat, start, byfn[SN], fmt), []).append((name, SN, st, start))
        nwant = sum(len(v) for v in want.values())
        if not ctx.check(len(got) == nwant, 'number', '%d files of known loggers were renamed into %d files %s' % (
                nwant, len(got), what)):
            return
        for wn, lst in want.items():
            if not ctx.check(wn in got, 'name', '%s (%s) should have become %s; output has %s %s' % (
                    lst[0][0], byfn[lst[0][1]], wn, sorted(got)[:4], what)):
                return
        left = [obspy.read(p) for _, p in sorted(got.items())]
        for wn, lst in want.items():
            for name, SN, st, start in lst:
                r = byfn[SN]
                hit = None
                for i, got_st in enumerate(left):
                    if len(got_st) == len(st) and all(
                            abs(q.stats.starttime - tr.stats.starttime) < 2e-3 and q.stats.npts == tr.stats.npts and
                            (q.stats.network, q.stats.station, q.stats.location, q.stats.channel) ==
                            (r['network'], r['station'], r['location'], 'HDF') and
                            abs(q.stats.sampling_rate - 100) < 1e-3 and np.abs(q.data - tr.data.astype(float)).max() < .6
                            for q, tr in zip(sorted(got_st, key=lambda q: q.stats.starttime),
                                             sorted(st, key=lambda q: q.stats.starttime))):
                        hit = i
                        break
                ctx.obs('files_with_gaps', int(len(st) > 1))
                ctx.obs('files_renamed')
                if not ctx.check(hit is not None, 'content', 'no output file holds the samples of %s under the codes %s (%s) %s' % (
                        name, (r['network'], r['station'], r['location']), [str(s[0]) for s in left[:2]], what)):
                    return
                left.pop(hit)
                if len(lst) == 1:               # the name and the content belong together
                    q = min(obspy.read(got[wn]), key=lambda q: q.stats.starttime)
                    if not ctx.check(q.stats.station == r['station'] and abs(q.stats.starttime - start) < 2e-3,
                                     'name-content', '%s holds %s %s' % (wn, q, what)):
                        return
        ctx.sig('rename', how, ifmt, fmt, PATTERNS.index(pat), bool(unknown))


def case_inventory(ctx):
    rng = ctx.rng
    for rep in range(pick(40, 200)):
        n = int(rng.integers(1, 9))
        sns = ['%03d' % q for q in rng.choice(np.arange(3, 400), n + 2, replace=False)]
        rows = make_table(rng, sns[:n])
        rows = [rows[i] for i in rng.permutation(n)]
        table, rows, how = give_table(rng, rows, ctx.sub('t%d' % rep))
        have = [r for r in rows if rng.random() < .75] or rows[:1]
        if rng.random() < .2:                   # a whole network without coordinates
            keep = [r for r in have if r['network'] != rows[0]['network']]
            have = keep or have
        co = []
        for r in have + [{'SN': s} for s in sns[n:] if rng.random() < .5]:
            t = UTC(2020, 1, 1) + float(rng.uniform(0, 4e7))
            co.append({'SN': r['SN'], 'lat': float(rng.uniform(-80, 80)), 'lon': float(rng.uniform(-180, 180)),
                       'lat_SE': 1e-6, 'lon_SE': 1e-6, 'starttime': t, 'endtime': t + float(rng.uniform(0, 1e7)),
                       'num_samples': 3, 'elevation': float(rng.uniform(0, 3000)),
                       'network': r.get('network', 'QQ'), 'station': r.get('station', 'QQQ'), 'location': r.get('location', '')})
        co = [co[i] for i in rng.permutation(len(co))]
        coords = pd.DataFrame(co)
        kind = ['sn', 'codes', 'both', 'int'][int(rng.integers(4))]
        if kind in ('sn', 'int'):
            coords = coords.drop(columns=['network', 'station', 'location'])
        if kind == 'codes':
            coords = coords.drop(columns=['SN'])
        if kind == 'int':
            coords['SN'] = coords['SN'].astype(int)
        eternal = rng.random() < .25
        if eternal:
            coords = coords.drop(columns=['starttime', 'endtime'])
        if rng.random() < .3:
            coords.index = rng.permutation(len(coords))
        resp = gemlog.get_gem_response() if rng.random() < .3 else None
        what = '[table %s of %d, coordinates of %d by %s]' % (how, n, len(have), kind)
        args = (table, coords) + ((resp,) if resp is not None else ())
        c0 = coords.copy()
        inv, exc = ctx.call(gemlog.make_gem_inventory, *args)
        if not ctx.check(exc is None, 'inventory-failed', 'make_gem_inventory raised %r %s' % (exc, what)):
            return
        ctx.check(coords.equals(c0), 'coords-changed', 'make_gem_inventory changed the coordinates it was given')
        chans = {}
        for net in inv:
            ctx.check(len(net) > 0, 'empty-network', 'network %r has no stations %s' % (net.code, what))
            for sta in net:
                for cha in sta:
                    k = (net.code, sta.code, cha.location_code)
                    if not ctx.check(k not in chans, 'repeated', '%s is listed more than once %s' % (k, what)):
                        return
                    chans[k] = cha
                ok = all(abs(getattr(sta, a) - np.mean([getattr(c, a) for c in sta])) < 1e-6 for a in
                         ('latitude', 'longitude', 'elevation'))
                if not ctx.check(ok and len(sta) > 0, 'station-mean', 'coordinates of station %s.%s are not the mean of its '
                                 'channels %s' % (net.code, sta.code, what)):
                    return
            codes = [s.code for s in net]
            ctx.check(len(set(codes)) == len(codes), 'repeated-station', 'stations %s %s' % (codes, what))
        nets = [q.code for q in inv]
        ctx.check(len(set(nets)) == len(nets), 'repeated-network', 'networks %s %s' % (nets, what))
        want = {(r['network'], r['station'], r['location']): r for r in have}
        ctx.obs('inventory_channels', len(chans))
        if not ctx.check(set(chans) == set(want), 'channels', 'inventory has %s, loggers with coordinates are %s %s' % (
                sorted(set(chans) - set(want)), sorted(set(want) - set(chans)), what)):
            return
        for k, r in want.items():
            q = [x for x in co if x['SN'] == r['SN']][0]
            c = chans[k]
            w = '%s (SN %s) %s' % ('.'.join(k), r['SN'], what)
            ctx.check(abs(float(c.latitude) - q['lat']) < 1e-6 and abs(float(c.longitude) - q['lon']) < 1e-6 and
                      abs(float(c.elevation) - q['elevation']) < 1e-6, 'coordinates', 'channel at %s %s %s, logger at %s: %s' % (
                          c.latitude, c.longitude, c.elevation, (q['lat'], q['lon'], q['elevation']), w))
            eq = c.equipments if not isinstance(c.equipments, list) else c.equipments[0]
            ctx.check(str(eq.serial_number) == r['SN'] and str(c.sensor.serial_number) == r['SN'], 'serial',
                      'serial number %s: %s' % (eq.serial_number, w))
            ctx.check(c.code == 'HDF' and c.sample_rate == 100, 'channel', 'channel %s, %s Hz: %s' % (c.code, c.sample_rate, w))
            if not eternal:
                ctx.check(abs(c.start_date - (q['starttime'] - 3600)) < 1 and abs(c.end_date - (q['endtime'] + 3600)) < 1,
                          'time-span', 'channel spans %s..%s, GPS %s..%s: %s' % (c.start_date, c.end_date, q['starttime'],
                                                                                q['endtime'], w))
            else:
                ctx.check(c.start_date <= UTC(1971, 1, 1) and c.end_date > UTC(2100, 1, 1), 'time-span', 'not eternal: ' + w)
        if not ctx.viol:
            for sta in [s for n_ in inv for s in n_]:
                ctx.check(abs(sta.start_date - min(c.start_date for c in sta)) < 1 and
                          abs(sta.end_date - max(c.end_date for c in sta)) < 1, 'station-span', 'span of station %s %s' % (
                              sta.code, what))
        # an inventory is for writing: StationXML and back
        if rep % 8 == 0 and all(k[0] for k in want):
            buf = io.BytesIO()
            _, exc = ctx.call(inv.write, buf, 'STATIONXML')
            if ctx.check(exc is None, 'not-writable', 'the inventory cannot be written as StationXML: %r %s' % (exc, what)):
                buf.seek(0)
                back = obspy.read_inventory(buf)
                n2 = [(a.code, b.code, c.location_code) for a in back for b in a for c in b]
                ctx.check(sorted(n2) == sorted(want), 'not-readable', 'StationXML holds %s %s' % (n2, what))
                for a in back:
                    for b in a:
                        for c in b:
                            s = c.response.instrument_sensitivity.value
                            ctx.check(abs(s - 225.2) < 1, 'response', 'channel response has sensitivity %s %s' % (s, what))
                ctx.obs('stationxml')
        if ctx.viol:
            return
        ctx.sig('inventory', how, kind, eternal, len(nets))


def make():
    c = Check('C16', 'random station tables (with and without header, any column order and capitalisation, optional columns '
              'left out, blanks, DataFrames with any index) against random converted files (starts in the same second, unknown '
              'loggers, name patterns, formats) and random coordinates (missing loggers, whole networks missing, keyed by '
              'serial number or by codes); distinct = (table form, formats or key, pattern)',
              assumptions=['no two loggers of a table have the same network.station.location',
                           'serial numbers are written as three digits'],
              need=['files_renamed', 'inventory_channels', 'stationxml'])
    for i in range(pick(6, 12)):
        c.add('rename_%d' % i, case_rename)
        c.add('inventory_%d' % i, case_inventory)
    return c
