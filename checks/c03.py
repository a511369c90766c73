"""C03 names, codes, windows and encoding of every output file."""
import re

import numpy as np
import obspy
from scipy.io import wavfile
import gemlog

import gl
import scen
from gemsim import VERSIONS
from mon import Check, pick

NAME = re.compile(r'^(\d{4}-\d\d-\d\dT\d\d_\d\d_\d\d)(_\d\d)?\.([^.]*)\.([^.]*)\.([^.]*)\.([^.]*)\.([a-z]+)$')
LENGTHS = [24, 12, 1, 2, 0.5, 0.25, 0.1, 0.05, 0.01, 0.005, 1 / 7, 0.013, 1 / 360, '1', '0.25', '0.02', 5, 7]
CODES = [('', '', ''), ('XP', '', ''), ('', 'STA1', ''), ('', '', '01'), ('XX', 'ABCDE', '10'), ('9A', 'A', 'HH'),
         ('Z', 'B2', '7'), ('', 'LONGS', '00')]


def check_file(ctx, fn, trs, lg, fl, codes, fmt, seen):
    net, sta, loc = codes
    sta = sta or lg.SN
    m = NAME.match(fn)
    if not ctx.check(m, 'name', 'output file is called %r' % fn):
        return
    stamp, suf, n, s, l, cha, ext = m.groups()
    ctx.check((n, s, l, cha) == (net, sta, loc, 'HDF'), 'name-codes',
              'file %s, asked for %s.%s.%s' % (fn, net, sta, loc))
    ctx.check(ext == fmt.lower(), 'name-format', 'file %s, asked for format %s' % (fn, fmt))
    ctx.check(len(trs) == 1, 'one-trace', '%s holds %d traces' % (fn, len(trs)))
    tr = trs[0]
    ns = tr.stats.starttime.ns
    want = obspy.UTCDateTime(ns=int(round(ns / 1e6)) * 10 ** 6)
    ctx.check(want.strftime('%Y-%m-%dT%H_%M_%S') == stamp, 'name-time',
              '%s starts at %s' % (fn, tr.stats.starttime))
    if suf:
        ctx.check(int(suf[1:]) == (want.microsecond + 500) // 10000, 'name-suffix', '%s starts at %s' % (fn, want))
        ctx.check(stamp in seen, 'name-suffix', '%s carries a suffix without an earlier file' % fn)
        ctx.obs('suffixed_names')
    seen.add(stamp)
    if fmt.upper() != 'WAV':
        ctx.check((tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel) == (net, sta, loc, 'HDF'),
                  'codes', '%s carries %s, asked for %s' % (fn, tr.id, codes))
        ctx.check(abs(tr.stats.sampling_rate - 100) < 1e-4, 'rate', '%s: rate %r' % (fn, tr.stats.sampling_rate))
        L = float(fl) * 3600
        a, b = gl.span(tr)
        k = np.floor((a + 1e-3) / L)
        if not ctx.check(b <= (k + 1) * L - 0.01 + 0.011 and np.floor((b - 1e-3) / L) in (k, k - 1), 'window',
                         '%s spans %s .. %s with windows of %s h' % (fn, tr.stats.starttime, tr.stats.endtime, fl)):
            return
        # a sample exactly on the next boundary belongs to the next window
        ctx.check(b < (k + 1) * L - 1e-4, 'window-end', '%s ends at %s with windows of %s h' % (fn, tr.stats.endtime, fl))
        ctx.obs('files_on_a_boundary', abs(a / L - round(a / L)) < 1e-9)
        if fmt.upper() == 'MSEED':
            ctx.check(tr.data.dtype == np.int32, 'encoding', '%s: samples are %s' % (fn, tr.data.dtype))
        d = np.asarray(tr.data, float)
        ctx.check(np.all(d == np.round(d)), 'integer', '%s: samples are not integer counts' % fn)
        if len(d) > 40:
            t = a + np.arange(len(d)) * 0.01
            w = lg.wave(t)
            # coarse: these samples are the logger's counts (exact comparison is C01/C02)
            ctx.check(np.sqrt(np.mean((d - w) ** 2)) < 0.1 * np.std(w) + 5 or lg.lapsed, 'counts',
                      '%s: samples are not the recorded counts (rms difference %.1f, signal %.1f)' % (
                          fn, np.sqrt(np.mean((d - w) ** 2)), np.std(w)))
    ctx.obs('files_checked')
    return True


def case_files(ctx, version, fmt, k):
    rng = ctx.rng
    for rep in range(pick(6, 20)):
        lg = scen.logger(rng, version, t0=scen.start_time(rng, near_midnight=rng.random() < 0.6))
        lg.lapsed = True
        d = ctx.sub('raw%d' % rep)
        files = scen.deploy(rng, d, lg, int(rng.integers(2, 8)), dur=(22, 60), p_pause=0.4, p_gap=0.3,
                            pauses=('short', 'tens', 'hours'))
        lg.lapsed = any(len(f.seg_starts) > 1 for f in files)
        fl = LENGTHS[int(rng.integers(len(LENGTHS)))]
        codes = CODES[int(rng.integers(len(CODES)))]
        kw = {}
        for key, v in zip(('network', 'station', 'location'), codes):
            if v or rng.random() < .5:
                kw[key] = v
        if fmt != 'MSEED' or rng.random() < .5:
            kw['output_format'] = fmt
        out = ctx.sub('o%d' % rep)
        ctx.must('convert-failed', gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                 gpspath=out + '/g', file_length_hour=fl, **kw)
        if fmt.upper() == 'WAV':
            group = gl.md5_tree(out + '/c')
            if not ctx.check(group, 'no-output', 'conversion wrote nothing'):
                return
            order = sorted(group)
            for fn in order:
                m = NAME.match(fn)
                ctx.check(m and m.group(3, 4, 5, 6, 7) == (codes[0], codes[1] or lg.SN, codes[2], 'HDF', 'wav'), 'name',
                          'output file is called %r' % fn)
                ctx.check(wavfile.read(out + '/c/' + fn)[0] == 100, 'rate', '%s is not at 100 Hz' % fn)
                ctx.obs('files_checked')
            ctx.sig(version, fmt, str(fl), codes, len(group))
            continue
        seen, group = set(), {}
        for fn, tr in gl.read_folder(out + '/c'):
            group.setdefault(fn, []).append(tr)
        if not ctx.check(group, 'no-output', 'conversion wrote nothing'):
            return
        ctx.check(len(group) == len(gl.md5_tree(out + '/c')), 'unreadable', 'an output file is unreadable')
        order = sorted(group, key=lambda g: group[g][0].stats.starttime.ns)
        for fn in order:
            check_file(ctx, fn, group[fn], lg, fl, codes, fmt, seen)
        ctx.sig(version, fmt, str(fl), codes, len(group))
        ctx.note('%s %s length %s codes %s: %s ...' % (version, fmt, fl, codes, order[:2]))


def case_collide(ctx, version):
    """Several pieces starting in one second: distinct names, each right."""
    rng = ctx.rng
    for rep in range(pick(4, 12)):
        d = ctx.sub('raw%d' % rep)
        lg = scen.logger(rng, version)
        lg.lapsed = True
        gaps, a = [], float(rng.uniform(3, 6))
        for _ in range(int(rng.integers(5, 10))):
            w = float(rng.uniform(0.08, 0.25))
            gaps.append((a, a + w))
            a += w + float(rng.uniform(0.1, 0.4))
        lg.record(0, 40.0, gaps=gaps).write(d)
        out = ctx.sub('o%d' % rep)
        fl = [1, 24, 0.005, 1 / 7][rep % 4]
        fmt = ['MSEED', 'SAC', 'MSEED', 'TSPAIR'][rep % 4]
        ctx.must('convert-failed', gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                 gpspath=out + '/g', file_length_hour=fl, output_format=fmt)
        seen, group = set(), {}
        for fn, tr in gl.read_folder(out + '/c'):
            group.setdefault(fn, []).append(tr)
        for fn in sorted(group, key=lambda g: group[g][0].stats.starttime.ns):
            check_file(ctx, fn, group[fn], lg, fl, ('', '', ''), fmt, seen)
        ctx.sig(version, fl, fmt, len(group))


def case_edge(ctx, edge):
    """Recordings placed so that samples fall exactly on a window, midnight, month or year boundary."""
    rng = ctx.rng
    from gemsim import utc
    bound = {'midnight': utc(2021, 5, 18), 'month': utc(2021, 3, 1), 'leapday': utc(2020, 3, 1), 'year': utc(2022, 1, 1),
             'hour': utc(2021, 5, 18, 7), 'century': utc(2024, 2, 29)}[edge]
    for rep, off in enumerate([-30.0, -0.3, -0.005, 0.004, 0.3, -5.0, -0.0151, -59.99][:pick(5, 8)]):
        lg = scen.logger(rng, '0.91', t0=bound + off)
        lg.lapsed = False
        d = ctx.sub('raw%d' % rep)
        f = lg.record(0, 75.0)
        f.write(d)
        for fl in (24, 1, 1 / 360, 0.005):
            out = ctx.sub('o%d_%s' % (rep, str(fl)[:5]))
            ctx.must('convert-failed', gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                     gpspath=out + '/g', file_length_hour=fl)
            seen, group = set(), {}
            for fn, tr in gl.read_folder(out + '/c'):
                group.setdefault(fn, []).append(tr)
            L = fl * 3600
            for fn in sorted(group, key=lambda g: group[g][0].stats.starttime.ns):
                check_file(ctx, fn, group[fn], lg, fl, ('', '', ''), 'MSEED', seen)
            # contiguous data: exactly one file per window touched
            t_lo, t_hi = np.ceil(f.t[0] - 0.006), f.t[-1]
            n = int(np.floor((t_hi - 0.05) / L) - np.floor(t_lo / L) + 1)
            ctx.check(n <= len(group) <= n + 1, 'windows', '%d files for %d windows (continuous data, length %g h, start %s)'
                      % (len(group), n, fl, lg.t0))
            ctx.sig(edge, off, fl)


def make():
    c = Check('C03', 'random recordings converted with random window lengths, codes and formats, plus recordings placed '
              'around midnight, month, leap-day and year ends; every output file name and header is checked against its '
              'own samples and the request; distinct = (format version, output format, length, codes, number of files)',
              assumptions=['ObsPy reads back headers faithfully'], need=['files_checked', 'files_on_a_boundary', 'suffixed_names'])
    for v in VERSIONS:
        for k in range(pick(2, 5)):
            c.add('%s_mseed_%d' % (v, k), case_files, version=v, fmt='MSEED', k=k)
    for fmt in ('mseed', 'SAC', 'sac', 'TSPAIR', 'tspair', 'WAV', 'wav'):
        for k in range(pick(1, 3)):
            c.add('%s_%d' % (fmt, k), case_files, version='0.91', fmt=fmt, k=k)
    for v in ('0.8', '0.91', '1.10'):
        c.add('%s_collide' % v, case_collide, version=v)
    for e in ('midnight', 'month', 'leapday', 'year', 'hour', 'century'):
        c.add('edge_%s' % e, case_edge, edge=e)
    return c
