"""C21 merging files into days keeps every sample of every channel."""
import os

import numpy as np
import obspy
import gemlog
from obspy import UTCDateTime as UTC

import gl
import scen
from mon import Check, pick


def case_merge(ctx, fmt):
    rng = ctx.rng
    for rep in range(pick(14, 60) if fmt != 'tspair' else pick(6, 20)):
        d = ctx.sub('in%d' % rep)
        base = [('', '077', ''), ('XX', '077', ''), ('1X', '077', ''), ('', 'X.077'[2:], '00'), ('XX', 'AB', ''), ('', 'AB', ''),
                ('', 'B', ''), ('X', 'AB', '01'), ('XX', 'AB', '1'), ('', '7', ''), ('', '177', '')]
        chans = [base[i] for i in rng.choice(len(base), int(rng.integers(1, 6)), replace=False)]
        chans = sorted(set(chans))
        rng.shuffle(chans)
        chans = [tuple(str(x) for x in c) for c in chans]
        truth = {}
        for ch in chans:
            t = UTC(2020, 12, 30) + round(float(rng.uniform(0, 86400 * 2.5)), 2)
            if rng.random() < .3:
                t = UTC(2020, 12, 31) - round(float(rng.uniform(.01, 60)), 2)
            used = set()
            for _ in range(int(rng.integers(1, 8))):
                t = UTC(round(float(t) * 100) / 100)
                n = int(np.exp(rng.uniform(np.log(1), np.log(9000))))
                x = (np.cumsum(rng.integers(-40, 41, n)) + int(rng.integers(-30000, 30000))).astype('int32')
                tr = obspy.Trace(x, {'sampling_rate': 100., 'starttime': t, 'network': ch[0], 'station': ch[1],
                                     'location': ch[2], 'channel': 'HDF'})
                stem = t.strftime('%Y-%m-%dT%H_%M_%S')
                suffix = '%s.%s.%s.HDF.%s' % (*ch, fmt)
                if stem in used:
                    stem += '_%02d' % (t.microsecond // 10000)
                if stem in used:
                    t += 1
                    continue
                used.add(stem)
                tr.write(os.path.join(d, stem + '.' + suffix), fmt, **({'encoding': 10} if fmt == 'mseed' else {}))
                truth.setdefault((stem[:10], suffix), []).append(tr)
                t = tr.stats.endtime + float(rng.choice([.01, .01, .02, .05, .5, 3] + ([8, 40] if fmt == 'tspair' else [700, 20000, 80000])))
        form = int(rng.integers(3))
        o = os.path.join(d, 'merge_file_output') if rng.random() < .2 else os.path.join(ctx.dir, 'out%d' % rep)
        kw = {'infile_pattern': ['*', '*HDF.' + fmt, '*.' + fmt][form]}
        if form == 0 and rng.random() < .5:
            kw = {}
        if rng.random() < .25 and len(chans) > 1:       # only one channel asked for
            ch = chans[0]
            suf = '%s.%s.%s.HDF.%s' % (*ch, fmt)
            kw['infile_pattern'] = '????-??-??T*[0-9].' + suf
            truth = {k: v for k, v in truth.items() if k[1] == suf}
        before = {k: v for k, v in gl.md5_tree(d).items()}
        what = '[%s, channels %s, pattern %s, %d files]' % (fmt, chans, kw.get('infile_pattern'), len(before))
        arg = d if rng.random() < .8 else d + '/'
        if rng.random() < .3 and o != os.path.join(d, 'merge_file_output'):
            os.makedirs(o)
        _, e = ctx.call(gemlog.merge_files_day, arg, outfile_dir=o, **kw)
        if not ctx.check(e is None, 'failed', 'merge_files_day raised %r %s' % (e, what)):
            return
        after = {k: v for k, v in gl.md5_tree(d).items() if not k.startswith('merge_file_output')}
        ctx.check(after == before, 'inputs-changed', 'input files were changed %s' % what)
        got = set(os.listdir(o))
        want = {k[0] + 'T00_00_00.' + k[1]: v for k, v in truth.items()}
        if not ctx.check(got == set(want), 'files', 'output has %s, expected %s %s' % (
                sorted(got - set(want))[:4], sorted(set(want) - got)[:4], what)):
            return
        for fn, trs in sorted(want.items()):
            st = obspy.read(os.path.join(o, fn))
            w = '%s of %d files %s' % (fn, len(trs), what)
            ctx.obs('days_checked')
            if not ctx.check(len(st) == 1 and st[0].id == trs[0].id, 'channel', '%s holds %s' % (w, [q.id for q in st])):
                return
            q = st[0]
            k0 = int(round(q.stats.starttime.ns / 1e7))
            lo = min(int(round(tr.stats.starttime.ns / 1e7)) for tr in trs)
            hi = max(int(round(tr.stats.endtime.ns / 1e7)) for tr in trs)
            if not ctx.check(k0 == lo and q.stats.npts == hi - lo + 1 and abs(q.stats.sampling_rate - 100) < 1e-3, 'span',
                             '%s spans %s .. %s, %d samples; inputs %s .. %s' % (
                                 w, q.stats.starttime, q.stats.endtime, q.stats.npts, trs[0].stats.starttime, trs[-1].stats.endtime)):
                return
            filled = np.ones(len(q.data), bool)
            for tr in trs:
                k = int(round(tr.stats.starttime.ns / 1e7)) - k0
                s = slice(k, k + tr.stats.npts)
                filled[s] = False
                ctx.obs('samples_compared', tr.stats.npts)
                if not ctx.check(np.array_equal(np.asarray(q.data[s], float), tr.data.astype(float)), 'samples',
                                 'samples of %s differ from the input in %s' % (tr, w)):
                    return
            if filled.any():                     # gap samples stay between the values on either side
                ctx.obs('gaps_checked', int((np.diff(filled.astype(int)) == 1).sum()))
                allv = np.concatenate([tr.data for tr in trs])
                g = np.asarray(q.data[filled], float)
                if not ctx.check(np.isfinite(g).all() and g.min() >= allv.min() and g.max() <= allv.max(), 'gap-fill',
                                 'gaps are filled with values %g..%g outside the data %g..%g: %s' % (
                                     g.min(), g.max(), allv.min(), allv.max(), w)):
                    return
        ctx.sig(fmt, len(chans), form, len(want), arg.endswith('/'))


def case_converted(ctx):
    """real output of convert, merged into days"""
    rng = ctx.rng
    for rep in range(pick(2, 8)):
        raw, c = ctx.sub('raw%d' % rep), ctx.dir + '/c%d' % rep
        for SN in ('%03d' % rng.integers(10, 99), '1%02d' % rng.integers(0, 99)):
            lg = scen.logger(rng, '0.91', SN=SN, t0=scen.start_time(rng, True))
            scen.deploy(rng, raw, lg, int(rng.integers(3, 7)), p_gap=.5, p_pause=.5, pauses=('short', 'tens', 'hours'))
            ctx.must('convert', gemlog.convert, raw, SN=SN, convertedpath=c, metadatapath=ctx.dir + '/m', gpspath=ctx.dir + '/g',
                     file_length_hour=float(rng.choice([1, .01, .003])))
        o = ctx.dir + '/o%d' % rep
        ctx.must('merge', gemlog.merge_files_day, c, outfile_dir=o)
        days = {}
        for fn, tr in gl.read_folder(c):
            days.setdefault((fn[:10], tr.id), []).append(tr)
        merged = {(fn[:10], tr.id): tr for fn, tr in gl.read_folder(o)}
        if not ctx.check(set(days) == set(merged), 'converted-days', 'converted days %s merged into %s' % (sorted(days), sorted(merged))):
            return
        for k, trs in days.items():
            q = merged[k]
            k0 = int(round(q.stats.starttime.ns / 1e7))
            for tr in trs:
                i = int(round(tr.stats.starttime.ns / 1e7)) - k0
                ctx.obs('converted_files_merged')
                if not ctx.check(i >= 0 and np.array_equal(q.data[i:i + tr.stats.npts], tr.data), 'converted-samples',
                                 'samples of %s are not in the merged day %s' % (tr, q)):
                    return
        ctx.sig('converted', len(days))


def make():
    c = Check('C21', 'random day folders: channels with nested names, gaps, lapses, files across midnight and starting in the same '
              'second, patterns, subfolders, three formats, and real output of convert; every input sample is looked up in the '
              'merged day; distinct = (format, channels, pattern, days)',
              assumptions=['files of one channel do not overlap', 'samples lie on the 10-ms grid, as convert writes them'],
              need=['days_checked', 'gaps_checked', 'converted_files_merged'])
    for i in range(pick(2, 6)):
        for f in ('mseed', 'sac', 'tspair'):
            c.add('%s_%d' % (f, i), case_merge, fmt=f)
    c.add('converted', case_converted)
    return c
