"""C17 GPS summaries give the site of each logger despite outliers."""
import os

import numpy as np
import obspy
import pandas as pd
import gemlog
import gemlog.gem_network as net
from obspy import UTCDateTime as UTC

import gl
import scen
from mon import Check, pick
from tables import give_table, make_table


def table(rng, lat, lon, t0, n, outliers=True, scatter=None, k=None, lon_scale=1.):
    """GPS fixes of one stay at one site -> DataFrame with a hidden 'good' column"""
    s = scatter if scatter is not None else float(np.exp(rng.uniform(np.log(2e-6), np.log(3e-5))))
    t = np.sort(rng.choice(np.arange(0, max(2 * n, int(rng.integers(2 * n, 60 * n)))), n, replace=False)) + int(float(t0))
    la = lat + np.clip(rng.normal(0, s, n), -2 * s, 2 * s)
    s *= lon_scale                              # satellite geometry, high latitudes
    lo = lon + np.clip(rng.normal(0, s, n), -2 * s, 2 * s)
    good = np.ones(n, bool)
    if outliers:
        kmax = int(n / 40)
        k = int(rng.integers(0, kmax + 1)) if k is None else min(k, kmax)
        for i in rng.choice(n, k, replace=False):
            d = float(np.exp(rng.uniform(np.log(.01), np.log(40)))) * rng.choice([-1, 1])
            w = int(rng.integers(3))
            if w != 1:
                la[i] += d
            if w != 0:
                lo[i] += d
            good[i] = False
    u = [UTC(int(q)) for q in t]
    return pd.DataFrame({'year': [q.year for q in u], 'date': [q.julday + (q.timestamp % 86400) / 86400 for q in u],
                         'lat': np.round(la, 8), 'lon': np.round(lo, 8), 't': u, 'good': good})


def write(df, fn):
    df.drop(columns='good').to_csv(fn, index=False)


def expected(tabs, t1, t2):
    """tabs: the tables read for one logger"""
    df = pd.concat(tabs, ignore_index=True)
    df = df[[t1 <= q <= t2 for q in df['t']]]
    if len(df) == 0:
        return None
    g = df[df['good']]
    return dict(lat=g.lat.mean(), lon=g.lon.mean(), lat_SE=g.lat.std(ddof=0) / np.sqrt(len(g)),
                lon_SE=g.lon.std(ddof=0) / np.sqrt(len(g)), starttime=min(g['t']), endtime=max(g['t']), num_samples=len(g))


def make_project(rng, root, sns, sites=1):
    """folders root/gpsN with tables per logger, several versions each; -> {SN: [newest table per folder]}"""
    truth, place = {}, {}
    nf = int(rng.integers(1, 4))
    for SN in sns:
        place[SN] = (float(rng.uniform(-75, 75)), float(rng.uniform(-175, 175)))
        truth[SN] = []
    scale = {SN: float(rng.choice([1, 1, .05, 20])) for SN in sns}
    t = {SN: float(UTC(2020, 12, 20) + float(rng.uniform(0, 1e6))) for SN in sns}
    for i in range(nf):
        d = os.path.join(root, 'gps%d' % i)
        os.makedirs(d)
        for SN in sns:
            if nf > 1 and rng.random() < .2 and (truth[SN] or i < nf - 1):
                continue
            nv = int(rng.choice([1, 1, 2, 3]))
            for v in range(nv):
                last = v == nv - 1
                pl = place[SN] if last else (place[SN][0] + 1., place[SN][1] - 2.)    # an outdated table
                n = int(rng.choice([45, 120, 400, 900]))
                df = table(rng, *pl, t[SN], n, lon_scale=scale[SN], scatter=None if scale[SN] == 1 else 1.2e-5)
                write(df, os.path.join(d, '%sgps_%03d.txt' % (SN, v)))
                if last:
                    truth[SN].append(df)
            t[SN] = float(truth[SN][-1]['t'].iloc[-1]) + float(rng.uniform(10, 1e5))
            if rng.random() < .3:               # other files lying around
                open(os.path.join(d, '%smetadata_000.txt' % SN), 'w').write('millis,batt\n1,2\n')
    return truth, place


def compare(ctx, c, truth, t1, t2, want_sn, what, csv=False):
    want = {s: e for s in want_sn for e in [expected(truth[s], t1, t2)] if e is not None}
    got = [('%03d' % s if csv else str(s)) for s in c['SN']]
    if not ctx.check(sorted(got) == sorted(want), 'rows', 'summary lists %s, expected %s %s' % (got, sorted(want), what)):
        return False
    for (_, r), SN in zip(c.iterrows(), got):
        e = want[SN]
        w = 'SN %s %s' % (SN, what)
        ctx.obs('summaries')
        ok = ctx.check(int(r['num_samples']) == e['num_samples'], 'number', '%s fixes used, %d are not outliers: %s' % (
            r['num_samples'], e['num_samples'], w))
        for k, tol in (('lat', 2e-7), ('lon', 2e-7), ('lat_SE', 1e-9 + 1e-4 * e['lat_SE']), ('lon_SE', 1e-9 + 1e-4 * e['lon_SE'])):
            ok &= ctx.check(abs(float(r[k]) - e[k]) < tol, 'position', '%s is %r, fixes give %r: %s' % (k, r[k], e[k], w))
        for k in ('starttime', 'endtime'):
            ok &= ctx.check(abs(UTC(str(r[k])) - e[k]) < 0.01, 'times', '%s is %s, fixes give %s: %s' % (k, r[k], e[k], w))
        if not ok:
            return False
    return True


def select(rng, sns):
    inc = exc = None
    if rng.random() < .4:
        inc = list(rng.choice(sns, int(rng.integers(1, len(sns) + 1)), replace=False)) + (['999'] if rng.random() < .3 else [])
    if rng.random() < .4:
        exc = list(rng.choice(sns, int(rng.integers(0, len(sns))), replace=False)) + (['998'] if rng.random() < .3 else [])
    inc = None if inc is None else [str(q) for q in inc]
    exc = None if exc is None else [str(q) for q in exc]
    return inc, exc, [s for s in sns if (inc is None or s in inc) and (exc is None or s not in exc)]


def case_api(ctx):
    rng = ctx.rng
    for rep in range(pick(40, 150)):
        sns = ['%03d' % q for q in rng.choice(np.arange(3, 400), int(rng.integers(1, 6)), replace=False)]
        root = ctx.sub('p%d' % rep)
        truth, place = make_project(rng, root, sns)
        nf = len(os.listdir(root))
        form = int(rng.integers(4))
        if form == 0 or (form == 3 and nf > 1):
            arg = root + '/gps*'
        elif form == 1:
            arg = [os.path.join(root, 'gps%d' % i) for i in range(nf)]
        elif form == 2:                         # one table per logger and folder, named directly
            arg = []
            for i in range(nf):
                d = os.path.join(root, 'gps%d' % i)
                for s in sns:
                    v = sorted(f for f in os.listdir(d) if f.startswith(s + 'gps'))
                    if v:
                        arg.append(os.path.join(d, v[-1]))
            arg = [arg[i] for i in rng.permutation(len(arg))]
        else:
            arg = root + '/gps0'
        allt = [q for s in sns for df in truth[s] for q in df['t']]
        kw, t1, t2 = {}, UTC(1970, 1, 1), UTC(9999, 12, 31)
        if rng.random() < .4:
            t1 = UTC(int(float(rng.choice([float(q) for q in allt]))))
            kw['t1'] = t1 if rng.random() < .5 else str(t1)
        if rng.random() < .4:
            t2 = UTC(int(float(rng.choice([float(q) for q in allt]))))
            kw['t2'] = t2 if rng.random() < .5 else t2.strftime('%Y-%m-%d_%H:%M:%S')
            if kw['t2'] != t2:
                kw['t2'] = t2.strftime('%Y-%m-%dT%H:%M:%S')
        # a window holding too few fixes cannot tell outliers from others
        few = []
        for s in sns:
            df = pd.concat(truth[s])
            ins = np.array([t1 <= q <= t2 for q in df['t']])
            k = int((~df['good'].to_numpy()[ins]).sum())
            if 0 < ins.sum() < 30 * k:
                few.append(s)
        inc, exc, want = select(rng, sns)
        exc2 = few and [s for s in few] or []
        want = [s for s in want if s not in few]
        if exc2:
            exc = (exc or []) + exc2
        if inc is not None:
            kw['include_SN'] = inc
        if exc is not None:
            kw['exclude_SN'] = exc
        st = None
        if rng.random() < .5:
            rows = make_table(rng, [s for s in sns if rng.random() < .8] or sns[:1])
            st, rows, how = give_table(rng, rows, root, 'table.csv')
            kw['station_info'] = st
        ofn = None
        if rng.random() < .5:
            kw['output_file'] = ofn = os.path.join(root, 'sum.csv')
        before = gl.md5_tree(os.path.join(root, 'gps0'))
        what = '[%d folders given as %s, window %s..%s, include %s, exclude %s%s]' % (
            nf, type(arg).__name__, kw.get('t1'), kw.get('t2'), inc, exc, '' if st is None else ', station table ' + how)
        c, e = ctx.call(gemlog.summarize_gps, arg, **kw)
        if not ctx.check(e is None, 'failed', 'summarize_gps raised %r %s' % (e, what)):
            return
        ctx.check(gl.md5_tree(os.path.join(root, 'gps0')) == before, 'gps-changed', 'GPS files were changed')
        if not compare(ctx, c, truth, t1, t2, want, what):
            return
        frames = [(c, False)]
        if ofn is not None:
            q = pd.read_csv(ofn, dtype={'SN': str, 'network': str, 'station': str, 'location': str}, keep_default_na=False)
            if not compare(ctx, q, truth, t1, t2, want, 'output file ' + what):
                return
            frames.append((q, True))
        for q, csv in frames:
            if st is not None:
                by = {r['SN']: r for r in rows}
                for _, r in q.iterrows():
                    w = by.get(r['SN'], dict(network='', station='', location='', elevation=None))
                    el = -9999 if w['elevation'] is None else w['elevation']
                    if not ctx.check((r['network'], r['station'], r['location']) == (w['network'], w['station'], w['location'])
                                     and abs(float(r['elevation']) - el) < 1e-6, 'codes',
                                     'SN %s labelled %s, table says %s %s' % (r['SN'], (r['network'], r['station'], r['location'],
                                                                                      r['elevation']), w, what)):
                        return
        for SN in sns:                          # and the tables themselves
            g, e = ctx.call(gemlog.read_gps, arg, SN)
            if not ctx.check(e is None, 'read-gps-failed', 'read_gps raised %r for SN %s %s' % (e, SN, what)):
                return
            ref = pd.concat(truth[SN], ignore_index=True).sort_values('t') if arg != root + '/gps0' else None
            if ref is not None:
                g = g.sort_values('t')
                if not ctx.check(len(g) == len(ref) and np.allclose(g.lat.astype(float), ref.lat, atol=1e-7) and
                                 np.allclose(g.lon.astype(float), ref.lon, atol=1e-7) and
                                 all(abs(a - b) < 1e-3 for a, b in zip(g['t'], ref['t'])), 'read-gps',
                                 'read_gps returns %d rows for SN %s, its newest tables have %d %s' % (len(g), SN, len(ref), what)):
                    return
            ctx.obs('tables_read', 1)
        ctx.sig('api', form, nf, bool(inc), bool(exc), 't1' in kw, 't2' in kw, st is not None)


def case_window(ctx):
    """preliminary or subsequent recordings elsewhere, cut away by t1 and t2"""
    rng = ctx.rng
    for rep in range(pick(40, 150)):
        root = ctx.sub('w%d' % rep)
        os.makedirs(root + '/gps')
        SN = '%03d' % rng.integers(3, 300)
        site = (float(rng.uniform(-70, 70)), float(rng.uniform(-170, 170)))
        n = int(rng.choice([50, 200, 500]))
        t0 = UTC(2021, 6, 1) + int(rng.integers(0, 10 ** 6))
        dep = table(rng, *site, t0, n)
        parts = [dep]
        ta, tb = dep['t'].iloc[0], dep['t'].iloc[-1]
        far = lambda: (site[0] + float(rng.choice([-1, 1])) * float(rng.uniform(.01, 10)), site[1] + float(rng.uniform(.01, 10)))
        if rng.random() < .7:
            pre = table(rng, *far(), t0 - 10 ** 7, int(n * rng.choice([.2, 1, 30])), outliers=False)
            pre = pre[[q < ta for q in pre['t']]]
            parts.insert(0, pre)
        if rng.random() < .5:
            parts.append(table(rng, *far(), float(tb) + 5000, int(n * rng.choice([.2, 1, 30])), outliers=False))
        df = pd.concat(parts, ignore_index=True)
        write(df, '%s/gps/%sgps_000.txt' % (root, SN))
        t1, t2 = ta - float(rng.integers(0, 2)), tb + float(rng.integers(0, 2))
        c, e = ctx.call(gemlog.summarize_gps, root + '/gps', t1=t1, t2=t2)
        what = '[window around the deployment, %s fixes in all]' % [len(p) for p in parts]
        if not ctx.check(e is None, 'failed', 'summarize_gps raised %r %s' % (e, what)):
            return
        if not compare(ctx, c, {SN: [dep]}, t1, t2, [SN], what):
            return
        ctx.sig('window', tuple(int(np.log10(len(p) + 1) * 2) for p in parts))


def case_terminal(ctx):
    rng = ctx.rng
    for rep in range(pick(20, 60)):
        sns = ['%03d' % q for q in rng.choice(np.arange(3, 400), int(rng.integers(1, 5)), replace=False)]
        root = ctx.sub('p%d' % rep)
        truth, place = make_project(rng, root, sns)
        nf = len([d for d in os.listdir(root) if d.startswith('gps')])
        argv = [os.path.join(root, 'gps%d' % i) for i in range(nf)]
        inc, exc, want = select(rng, sns)
        if not want:
            continue
        if inc is not None:
            argv += ['-i' if rng.random() < .5 else '--include_SNs', ','.join(inc)]
        if exc:
            argv += ['-x' if rng.random() < .5 else '--exclude_SNs', ','.join(exc)]
        t1, t2 = UTC(1970, 1, 1), UTC(9999, 12, 31)
        rows = None
        if rng.random() < .6:
            rows = make_table(rng, sns)
            for r in rows:
                r['network'] = r['network'] or 'XX'
            st, rows, how = give_table(rng, rows, root, 'table.csv', abbreviate=False)
            if not isinstance(st, str):
                p = os.path.join(root, 'table.csv')
                st.to_csv(p, index=False)
                st = p
            argv += ['-s', st]
        out = os.path.join(root, 'my_network')
        argv += ['-o', out]
        what = '[summarize_gps_terminal %s]' % ' '.join(argv).replace(root, '')
        _, e = ctx.call(net.summarize_gps_terminal, argv)
        if not ctx.check(e is None, 'terminal-failed', 'raised %r %s' % (e, what)):
            return
        q = pd.read_csv(out + '.csv', dtype={'SN': str, 'network': str, 'station': str, 'location': str}, keep_default_na=False)
        if not compare(ctx, q, truth, t1, t2, want, what):
            return
        inv = obspy.read_inventory(out + '.xml')
        by = {r['SN']: r for r in rows or []}
        wantc = {}
        for s in want:
            r = by.get(s, dict(network='', station=s, location=''))
            wantc[(r['network'], r['station'], r['location'])] = expected(truth[s], t1, t2)
        got = {(a.code, b.code, c.location_code): c for a in inv for b in a for c in b}
        if not ctx.check(set(got) == set(wantc), 'terminal-codes', 'StationXML lists %s, expected %s %s' % (
                sorted(got), sorted(wantc), what)):
            return
        for k, e in wantc.items():
            ctx.check(abs(float(got[k].latitude) - e['lat']) < 1e-5 and abs(float(got[k].longitude) - e['lon']) < 1e-5,
                      'terminal-position', '%s at %s %s, expected %s %s' % (k, got[k].latitude, got[k].longitude, e['lat'], e['lon']))
        ctx.check(os.path.getsize(out + '.kml') > 0, 'terminal-kml', 'no KML file')
        ctx.obs('terminal_runs')
        ctx.sig('terminal', nf, bool(inc), bool(exc), rows is not None)


def case_converted(ctx):
    """the whole path: recordings -> convert -> summarize_gps"""
    rng = ctx.rng
    for rep in range(pick(2, 8)):
        raw = ctx.sub('raw%d' % rep)
        want = {}
        for SN in rng.choice(np.arange(10, 300), 3, replace=False):
            SN = '%03d' % SN
            lg = scen.logger(rng, ['0.91', '1.10', '0.85C'][int(rng.integers(3))], SN=SN)
            want[SN] = scen.deploy(rng, raw, lg, 3, p_pause=0.2, p_restart=0)
        for SN in want:
            ctx.must('convert', gemlog.convert, raw, SN=SN, convertedpath=ctx.dir + '/c', metadatapath=ctx.dir + '/m',
                     gpspath=ctx.dir + '/gps%d' % rep)
        c = ctx.must('summarize', gemlog.summarize_gps, ctx.dir + '/gps%d' % rep)
        if not ctx.check(sorted(c.SN) == sorted(want), 'converted-rows', 'summary lists %s, recorded %s' % (list(c.SN), list(want))):
            return
        for _, r in c.iterrows():
            g = [q for f in want[r['SN']] for q in f.gps if q[3]]
            ctx.check(abs(r['lat'] - np.mean([q[1] for q in g])) < 2e-6 and abs(r['lon'] - np.mean([q[2] for q in g])) < 2e-6,
                      'converted-position', 'SN %s at %s %s, fixes give %s %s' % (
                          r['SN'], r['lat'], r['lon'], np.mean([q[1] for q in g]), np.mean([q[2] for q in g])))
            ctx.obs('converted_loggers')
        ctx.sig('converted', rep)


def make():
    c = Check('C17', 'random GPS projects (several folders, outdated tables, other files alongside, a few far outliers, stays at '
              'other sites outside the window, include/exclude lists, station tables in every form, folder/list/glob/file '
              'arguments, the terminal command) compared with statistics computed from the generated fixes; distinct = (argument '
              'form, folders, selection, window, table)',
              assumptions=['outliers are at most one fix in 40 of the selected window and at least 0.01 degrees off'],
              need=['summaries', 'terminal_runs', 'converted_loggers'])
    for i in range(pick(3, 8)):
        c.add('api_%d' % i, case_api)
        c.add('window_%d' % i, case_window)
    c.add('terminal', case_terminal)
    c.add('terminal_2', case_terminal)
    c.add('converted', case_converted)
    return c
