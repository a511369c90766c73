"""C22 gemconvert_single agrees with the main reader."""
import os

import numpy as np
import obspy
import gemlog
from gemlog import gemconvert_single

import gl
import scen
from gemsim import VERSIONS, iso, tr_times
from mon import Check, pick


def one_file(rng, lg, kind, num):
    dur = float(rng.uniform(22, 60))
    if kind == 'good':
        return lg.record(num, round(dur, 2))
    if kind == 'gaps':
        return lg.record(num, round(dur, 2), gaps=scen.gap_list(rng, dur, int(rng.integers(1, 4))))
    if kind == 'cycles':
        return lg.record(num, 200.0, gps='cycles')
    if kind == 'none':
        return lg.record(num, round(dur, 2), gps='none')
    if kind == 'few':
        return lg.record(num, round(dur, 2), gps=[(0.0, 3.0), (dur - 4, dur)])
    if kind == 'one':
        return lg.record(num, round(dur, 2), gps=[(4.0, 5.0)])
    if kind == 'short':
        return lg.record(num, round(dur, 2), gps=[(0.0, dur * 0.3)])
    if kind == 'step':
        k = int(dur / 2)
        return lg.record(num, round(dur, 2), gps_bad={i: 1.0 for i in range(k, 200)})
    raise ValueError(kind)


ADEQUATE = ('good', 'gaps', 'cycles')


def nominal_ok(ctx, st, f, what):
    """All samples of f, in order, at the nominal rate (stretches between lapses apart)."""
    trs = sorted(st, key=lambda tr: tr.stats.starttime)
    segs = np.split(np.arange(len(f.x)), f.seg_starts[1:])
    if not ctx.check(len(trs) == len(segs), 'forced:pieces', 'forced conversion gives %d traces for %d stretches %s' % (
            len(trs), len(segs), what)):
        return
    t0 = tr_times(trs[0])[0]
    for tr, s in zip(trs, segs):
        ctx.check(abs(tr.stats.sampling_rate - 100) < 1e-6, 'forced:rate', 'rate %g %s' % (tr.stats.sampling_rate, what))
        n, m = tr.stats.npts, len(s)
        if not ctx.check(m - 3 <= n <= m + 3, 'forced:missing', 'forced conversion gives %d of %d samples %s' % (n, m, what)):
            return
        # sample i of the file is at nominal time (x - x0) * 1.024 ms; the output is on the 10-ms grid
        tn = (f.x[s] - f.x[0]) * 0.001024
        to = tr_times(tr) - t0
        best = None
        for sh in np.arange(-0.02, 0.0201, 0.0005):
            v = np.interp(to, tn + sh, f.counts[s].astype(float))
            r = float(np.sqrt(np.mean((v - np.asarray(tr.data, float))[3:-3] ** 2)))
            best = r if best is None else min(best, r)
        lim = 2 + 0.1 * float(np.sqrt(np.mean(np.diff(f.counts[s]) ** 2)))
        if not ctx.check(best < lim, 'forced:data', 'forced conversion changes the waveform: rms %.1f (steps %.1f) %s' % (
                best, lim, what)):
            return
    ctx.obs('forced_conversions_checked')


def case_single(ctx, version, via):
    rng = ctx.rng
    kinds = ['good', 'gaps', 'cycles', 'none', 'few', 'one', 'short', 'step']
    for rep in range(pick(40, 160)):
        d = ctx.sub('raw%d' % rep)
        work = ctx.sub('work%d' % rep)
        os.chdir(work)
        kind = kinds[rep % len(kinds)]
        gain = int(rng.integers(2)) if version in ('0.9', '0.91', '1.10') else 0
        lg = scen.logger(rng, version, config=(1, 15, 20, gain, 0, 0))
        f = one_file(rng, lg, kind, int(rng.integers(0, 9999)))
        path = f.write(d)
        before = gl.md5_tree(d)
        force = bool(rng.random() < 0.45)
        named = [None, 'out.mseed', os.path.join(ctx.sub('named%d' % rep), 'x.y.mseed'), 'out.MSEED', 'plain'][
            int(rng.integers(5))]
        target = named or f.name + '.mseed'
        src = path if rng.random() < 0.6 else os.path.relpath(path)
        what = '[%s %s force %s output %s]' % (version, kind, force, named)
        if via == 'main':
            lo = rng.random() < 0.5
            argv = ['--input_file' if lo else '-i', src]
            if named:
                argv += ['--output_file' if lo else '-o', named]
            if force:
                argv += ['--force-conversion' if lo else '-f']
            _, exc = ctx.call(gemconvert_single.main, argv)
            if not ctx.check(exc is None, 'main-failed', 'gemconvert_single %s raised %r %s' % (argv, exc, what)):
                return
        else:
            _, exc = ctx.call(gemlog.core._convert_one_file, src, output_filename=named, require_gps=not force)
        out = ctx.out
        ctx.check(gl.md5_tree(d) == before, 'raw-changed', 'the raw folder changed %s' % what)
        here = sorted(gl.md5_tree(work))
        if kind in ADEQUATE or force:
            if not ctx.check(os.path.isfile(target), 'no-output', 'no output file %s (%s; said %s) %s' % (
                    target, here, (repr(exc) + out)[-300:], what)):
                return
            if not os.path.isabs(target):
                ctx.check(here == [target], 'other-files', 'files written: %s %s' % (here, what))
            st = obspy.read(target)
            ctx.obs('files_converted')
            if kind in ADEQUATE:
                a = obspy.Stream([tr for tr in st])
                if not gl.judge(ctx, 'single', list(st), [f], lg.wave):
                    ctx.viol[-1]['msg'] += ' ' + what
                    return
                b = ctx.must('read-failed', gemlog.read_gem, d, SN=lg.SN)['data']
                n, diff, only, dup = gl.same_data(a, b)
                if not ctx.check(diff == 0 and only == 0 and not dup, 'differs-from-read_gem',
                                 '%d of %d samples differ, %d at other times %s' % (diff, n, only, what)):
                    return
                ctx.obs('samples_compared_with_read_gem', n)
            else:
                nominal_ok(ctx, st, f, what)
        else:
            ctx.check(here == [] and not os.path.exists(target), 'not-refused',
                      'a file with inadequate GPS (%s) was converted: %s %s' % (kind, here, what))
            said = out if via == 'main' else str(exc)
            ctx.check(f.name in said and ('GPS' in said or 'ail' in said), 'no-message', 'refused without a message: %r %s' % (
                said[-200:], what))
            if via != 'main':
                ctx.check(isinstance(exc, gemlog.exceptions.CorruptRawFile), 'exception-type', 'refused with %r %s' % (exc, what))
            ctx.obs('files_refused')
        ctx.sig(version, via, kind, force, named)


def case_bad(ctx):
    """Missing, empty and garbage input: a message, no output, no traceback; help works."""
    rng = ctx.rng
    d = ctx.sub('raw')
    work = ctx.sub('work')
    os.chdir(work)
    blobs = {'empty': b'', 'garbage': bytes(rng.integers(0, 256, 5000, dtype=np.uint8)), 'text': b'hello\n' * 200,
             'header': b'#GemCSV1.10\n#x\n', 'unknown': b'#GemCSV7.77\nD1,1\nD11,2\n'}
    for k, v in list(blobs.items()) + [('missing', None)]:
        p = os.path.join(d, 'FILE0001.' + k[:3])
        if v is not None:
            with open(p, 'wb') as f:
                f.write(v)
        for argv in (['-i', p], ['-i', p, '-f'], ['-f', '-i', p, '-o', 'o.mseed']):
            _, exc = ctx.call(gemconvert_single.main, argv)
            ctx.check(exc is None, 'main-failed', 'gemconvert_single on a %s file raised %r' % (k, exc))
            ctx.check(len(ctx.out.strip().splitlines()) > 2, 'no-message', 'nothing said about a %s file' % k)
            ctx.check(not os.listdir(work), 'output', 'output for a %s file: %s' % (k, os.listdir(work)))
            ctx.obs('bad_inputs')
        ctx.sig('bad', k)


def make():
    c = Check('C22', 'single raw files of every format with good, interrupted, cycled, absent, scarce, short or stepping GPS '
              'converted by gemconvert_single (options in short and long form) and _convert_one_file, with and without '
              'force; output compared sample by sample with the true recording and with read_gem, or with the recorded '
              'counts at nominal rate when forced; refusals watched for output and message; distinct = (format, entry '
              'point, kind of GPS, force, output name)',
              assumptions=['forced output may be placed at any time, with at most 3 samples lost at each stretch'],
              need=['files_converted', 'files_refused', 'forced_conversions_checked', 'samples_compared_with_read_gem',
                    'bad_inputs'])
    for v in VERSIONS:
        for via in ('main', 'function'):
            for k in range(pick(1, 4)):
                c.add('%s_%s%s' % (v, via, k or ''), case_single, version=v, via=via)
    c.add('bad', case_bad)
    return c
