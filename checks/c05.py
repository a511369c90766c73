"""C05 the same recording in every raw format."""
import os

import numpy as np
import gemlog

import gl
import scen
from gemsim import Logger, NEW, VERSIONS, utc
from mon import CaseSkip, Check, pick


def render(seed, d, version, par, mix=1.0):
    """The same logger, clock, waveform and GPS, written in another format."""
    lg = Logger(np.random.default_rng(seed), par['SN'], version, par['t0'], drift=par['drift'], quad=par['quad'],
                lat=par['lat'], lon=par['lon'], x0=par['x0'], amp=par['amp'], config=par['config'])
    files = []
    for i, p in enumerate(par['files']):
        lg.rng = np.random.default_rng(seed + 1 + i)
        f = lg.record(p['num'], p['dur'], gps=p['gps'], gaps=p['gaps'], compact_mix=mix)
        f.write(d)
        files.append(f)
        if p['pause']:
            lg.rng = np.random.default_rng(seed + 500 + i)
            lg.skip(p['pause'], restart=p['restart'])
    return lg, files


def params(rng, amp=None, SN=None):
    n = int(rng.integers(2, 6))
    fs, num = [], scen.first_number(rng)
    for i in range(n):
        dur = round(float(rng.uniform(24, 50)), 2)
        fs.append(dict(num=num, dur=dur, gps='normal', gaps=scen.gap_list(rng, dur, int(rng.integers(0, 3))),
                       pause=float(rng.choice([0, 0, 0, 3.3, 40, 4000])), restart=bool(rng.random() < 0.3)))
        num += int(rng.integers(1, 3))
    return dict(SN=SN or '%03d' % rng.integers(3, 300), t0=scen.start_time(rng), drift=float(rng.uniform(-3e-5, 3e-5)),
                quad=0.0, lat=round(float(rng.uniform(-70, 70)), 3), lon=round(float(rng.uniform(-179, 179)), 3),
                x0=float(rng.uniform(500, 1e5)), amp=amp or float(np.exp(rng.uniform(np.log(60), np.log(30000)))),
                config=(1, 15, 20, int(rng.integers(2)), 0, 0), files=fs)


def convert(ctx, tag, d, SN):
    out = ctx.sub(tag)
    ctx.must('convert-failed', gemlog.convert, d, SN=SN, convertedpath=out + '/c', metadatapath=out + '/m',
             gpspath=out + '/g', file_length_hour=1)
    return out, [tr for _, tr in gl.read_folder(out + '/c')]


def identical(ctx, key, what, a, b, tol=0):
    a = sorted(a, key=lambda t: t.stats.starttime.ns)
    b = sorted(b, key=lambda t: t.stats.starttime.ns)
    ok = ctx.check([(t.stats.starttime.ns, t.stats.npts) for t in a] == [(t.stats.starttime.ns, t.stats.npts) for t in b],
                   key, '%s: stretches differ: %s against %s' % (what, [str(t) for t in a][:4], [str(t) for t in b][:4]))
    if ok:
        for x, y in zip(a, b):
            n = int((np.abs(np.asarray(x.data, float) - y.data) > tol).sum())
            ctx.obs('rounding_differences', (x.data != y.data).sum())
            ok &= ctx.check(n == 0, key, '%s: %d of %d samples differ by up to %g' % (what, n, len(x), np.abs(np.asarray(x.data, float) - y.data).max()))
            ctx.obs('samples_compared', len(x))
    return ok


def close(ctx, key, what, a, b, wave):
    """Same samples up to GPS rounding (a fraction of a millisecond)."""
    ca, da, oa, dup = gl.same_data(a, b)
    ctx.obs('samples_compared', ca)
    n = sum(len(t) for t in a)
    ctx.check(oa <= 6 * (len(a) + len(b)) and ca > 0.98 * n, key, '%s: %d samples are only in one of the two' % (what, oa))
    worst = 0
    for x in a:
        t = gl.tr_times(x)
        for y in b:
            k = int(round((y.stats.starttime.ns - x.stats.starttime.ns) / 1e7))
            lo, hi = max(0, k), min(len(x), k + len(y))
            if hi - lo > 30:
                r = np.asarray(x.data[lo:hi], float) - np.asarray(y.data[lo - k:hi - k], float)
                s = wave.deriv(t[lo:hi])
                dt = abs(float((r * s).sum() / (s * s).sum()))
                se = 0.6 / np.sqrt((s * s).sum())
                worst = max(worst, dt)
                ctx.check(dt < 0.6e-3 + 6 * se, key, '%s: shifted by %.3f ms' % (what, dt * 1e3))
                ctx.check(np.median(np.abs(r)) <= 0.7 + np.median(np.abs(s)) * 0.6e-3, key,
                          '%s: samples differ by %.1f counts' % (what, np.median(np.abs(r))))
    return worst


def case_formats(ctx, k):
    rng = ctx.rng
    for rep in range(pick(2, 6)):
        seed = int(rng.integers(2 ** 40))
        par = params(rng, amp=[None, 25.0, 40000.0, 8.0][(k + rep) % 4])
        res = {}
        todo = [('0.85C', 1.0), ('0.9', 1.0), ('0.91', 1.0), ('1.10', 1.0), ('1.10', 0.0), ('1.10', 0.5)]
        for v, mix in todo:
            d = ctx.sub('raw_%d_%s_%s' % (rep, v, mix))
            lg, files = render(seed, d, v, par, mix)
            out, trs = convert(ctx, 'o_%d_%s_%s' % (rep, v, mix), d, par['SN'])
            gl.judge(ctx, 'format-%s' % v, trs, files, lg.wave, lo=np.ceil(files[0].t[0] - 0.006), joints=10 ** 9)
            R = ctx.must('read_gem-failed', gemlog.read_gem, d, SN=par['SN'])
            meta = R['metadata'].reset_index(drop=True)
            res[(v, mix)] = (trs, meta, R['gps'].reset_index(drop=True), R['header'], list(R['data']))
            ctx.obs('compact_lines', sum(1 for f in files for q in f.lines if 'a' <= q[:1] <= 'z'))
        ref = res[('0.91', 1.0)]
        for key in todo:
            what = '%s (%.0f%% compact) against 0.91' % (key[0], 100 * key[1])
            trs, meta, gps, head, data = res[key]
            if key[0] == '1.10':
                identical(ctx, 'format-differs', what, trs, ref[0])
                identical(ctx, 'format-differs', what + ' (read_gem)', data, ref[4])
            elif key[0] != '0.91':
                close(ctx, 'format-differs', what, trs, ref[0], lg.wave)
            ctx.check(len(meta) == len(ref[1]), 'metadata-differs', '%s: %d metadata rows, %d' % (what, len(meta), len(ref[1])))
            ctx.check(len(gps) == len(ref[2]) and (gps[['year', 'date', 'lat', 'lon']].astype(float).values ==
                      ref[2][['year', 'date', 'lat', 'lon']].astype(float).values).all(), 'gps-differs',
                      '%s: GPS tables differ' % what)
            cols = ['batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag',
                    'unusedStack1', 'unusedStackIdle']
            if len(meta) == len(ref[1]):
                ctx.check(np.allclose(meta[cols].astype(float), ref[1][cols].astype(float)), 'metadata-differs',
                          '%s: metadata differ' % what)
                ctx.check(np.abs(meta['t'].astype(float) - ref[1]['t'].astype(float)).max() < 2e-3, 'metadata-differs',
                          '%s: metadata times differ' % what)
            ctx.check(list(head['num_data_pts'].astype(int)) == list(ref[3]['num_data_pts'].astype(int)), 'header-differs',
                      '%s: sample counts differ' % what)
        identical(ctx, 'format-differs', '0.85C against 0.9', res[('0.85C', 1.0)][0], res[('0.9', 1.0)][0])
        ctx.sig(k, rep, seed)
        ctx.note('%d files, amplitude %.0f counts, formats %s give the same %d samples' % (
            len(par['files']), par['amp'], sorted(set(v for v, _ in todo)), sum(len(t) for t in ref[0])))


def case_old(ctx, k):
    """0.8 and 0.85 carry the same recording as 0.9."""
    rng = ctx.rng
    for rep in range(pick(2, 5)):
        seed = int(rng.integers(2 ** 40))
        par = params(rng)
        res = {}
        for v in ('0.8', '0.85', '0.9'):
            d = ctx.sub('raw_%d_%s' % (rep, v))
            lg, files = render(seed, d, v, par)
            out, res[v] = convert(ctx, 'o_%d_%s' % (rep, v), d, par['SN'])
        identical(ctx, 'format-differs', '0.8 against 0.85', res['0.8'], res['0.85'])
        identical(ctx, 'format-differs', '0.85 against 0.9', res['0.85'], res['0.9'],
                  tol=1 + 3e-5 * np.abs(lg.wave.deriv(files[0].t)).max())   # conditioning of the clock fit differs
        ctx.sig('old', k, rep, seed)


def case_transcode(ctx, version, k):
    import gemlog.gemlog_aux as aux
    f110 = getattr(aux, '_convert_raw_091_110', None)
    if f110 is None:
        raise CaseSkip('no transcoder')
    rng = ctx.rng
    for rep in range(pick(3, 8)):
        seed = int(rng.integers(2 ** 40))
        par = params(rng, amp=[None, 20.0, 300.0, 20000.0][(k + rep) % 4])
        a = ctx.sub('a%d' % rep)
        b = ctx.sub('b%d' % rep)
        lg, files = render(seed, a, version, par)
        before = gl.md5_tree(a)
        for f in files:
            ctx.must('transcoder-failed', f110, os.path.join(a, f.name), os.path.join(b, f.name))
            short = sum(len(q) <= 3 for q in open(os.path.join(b, f.name)))
            ctx.obs('compact_lines', short)
        ctx.check(gl.md5_tree(a) == before, 'transcoder-input', 'the transcoder changed its input')
        _, ta = convert(ctx, 'oa%d' % rep, a, par['SN'])
        res, exc = ctx.call(gemlog.convert, b, SN=par['SN'], convertedpath=ctx.dir + '/ob%d/c' % rep,
                            metadatapath=ctx.dir + '/ob%d/m' % rep, gpspath=ctx.dir + '/ob%d/g' % rep, file_length_hour=1)
        if not ctx.check(exc is None, 'transcoded-unreadable', 'converting the transcoded files raised %r' % exc):
            return
        tb = [tr for _, tr in gl.read_folder(ctx.dir + '/ob%d/c' % rep)]
        identical(ctx, 'transcoder-differs', 'transcoded files', tb, ta)
        ctx.sig('transcode', version, k, rep, seed)


def make():
    c = Check('C05', 'one random recording (waveform, clock, GPS, lapses, pauses) rendered in every raw format and compact '
              'mixture, converted and read; outputs compared with each other and with the truth; transcoded files compared '
              'with their originals; distinct = seed of the recording',
              assumptions=['formats other than 0.91/1.10 store GPS pulses as whole milliseconds, so agreement is up to '
                           '0.6 ms there and exact among formats with the same resolution'],
              need=['samples_compared', 'compact_lines'])
    for k in range(pick(8, 24)):
        c.add('formats_%d' % k, case_formats, k=k)
    for k in range(pick(3, 8)):
        c.add('old_%d' % k, case_old, k=k)
    for v in ('0.85C', '0.9', '0.91'):
        for k in range(pick(2, 6)):
            c.add('transcode_%s_%d' % (v, k), case_transcode, version=v, k=k)
    return c
