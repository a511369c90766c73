"""C24 every output format carries the same data."""
import glob
import os

import numpy as np
import obspy
import scipy.io.wavfile
import gemlog

import gl
import scen
from gemsim import VERSIONS, iso
from mon import Check, pick

AVCC = lambda v: 3.1 if v >= 0.9 else 3.373


def bitweight_pa(SN, gain):
    """Pascals per count, from the documented hardware table (independent of gemlog)."""
    SN = int(SN)
    table = [(3, 7, .5), (8, 14, .7), (15, 19, .8), (20, 37, .82), (38, 40, .9), (41, 43, .91), (44, 46, .92),
             (47, 49, .98), (50, 51, .99), (52, 54, .991), (55, 57, .992), (58, 107, 1.0), (108, 999, 1.01)]
    v = [q[2] for q in table if q[0] <= SN <= q[1]][0]
    g = 1 + (50 if v >= 0.98 else 49.4) / 0.470
    return 0.256 / 2 ** 15 / g / (AVCC(v) / 7.0 * 45.13e-6) * (2 if gain == 1 else 1)


def case_formats(ctx, version, shape):
    rng = ctx.rng
    for rep in range(pick(8, 30)):
        d = ctx.sub('raw%d' % rep)
        gain = int(rng.integers(2)) if version in ('0.9', '0.91', '1.10') else 0
        SN = '%03d' % [3, 7, 8, 19, 20, 38, 46, 47, 52, 54, 57, 58, 107, 108, 300][int(rng.integers(15))]
        lg = scen.logger(rng, version, SN=SN, config=(1, 15, 20, gain, 0, 0))
        kw = {'p_gap': 0.6, 'p_pause': 0.4} if shape == 'gaps' else {'p_gap': 0, 'p_pause': 0.05}
        files = scen.deploy(rng, d, lg, int(rng.integers(2, 5)), pauses=('short', 'tens', 'hours'), **kw)
        fl = [1, 0.01, 0.004, 24, 0.0037, 1 / 90][int(rng.integers(6))]
        net, sta, loc = [('', '', ''), ('XX', 'ABCDE', '01'), ('1A', 'G5', ''), ('', 'A', '9')][int(rng.integers(4))]
        args = dict(SN=SN, file_length_hour=fl, network=net, station=sta, location=loc,
                    blockdays=[1, 1 / 12][int(rng.integers(2))])
        if rng.random() < 0.4:
            a, b = files[0].t[0], files[-1].t[-1]
            args['t1'] = obspy.UTCDateTime(round(float(rng.uniform(a, (a + b) / 2)), 2))
        what = '[%s SN %s gain %d file_length_hour %g %s]' % (version, SN, gain, fl, (net, sta, loc))
        out = {}
        for fmt in ('mseed', 'sac', 'tspair', 'wav'):
            o = ctx.sub('o%d%s' % (rep, fmt))
            name = fmt.upper() if rng.random() < 0.5 else fmt
            _, exc = ctx.call(gemlog.convert, d, convertedpath=o + '/c', metadatapath=o + '/m', gpspath=o + '/g',
                              output_format=name, **args)
            if not ctx.check(exc is None, 'convert-failed', 'convert to %s raised %r %s' % (name, exc, what)):
                return
            out[fmt] = {os.path.basename(f): f for f in glob.glob(o + '/c/*')}
        ref = {k[:-len('mseed')]: v for k, v in out['mseed'].items()}
        ctx.obs('reference_files', len(ref))
        for fmt in ('sac', 'tspair', 'wav'):
            got = {k[:-len(fmt)]: v for k, v in out[fmt].items() if k.endswith('.' + fmt)}
            if not ctx.check(set(got) == set(ref) and len(got) == len(out[fmt]), 'file-set',
                             '%s output has files %s, miniSEED has %s %s' % (
                                 fmt, sorted(set(out[fmt]) - {k + fmt for k in ref})[:3],
                                 sorted(k for k in set(ref) - set(got))[:3], what)):
                return
            for k in sorted(ref):
                tr = obspy.read(ref[k])[0]
                x = np.asarray(tr.data, float)
                w = '%s %s' % (os.path.basename(got[k]), what)
                if fmt == 'wav':
                    rate, y = scipy.io.wavfile.read(got[k])
                    if not ctx.check(rate == 100 and y.ndim == 1 and len(y) == len(x), 'wav-shape',
                                     'WAV has rate %s, %s samples, miniSEED %d: %s' % (rate, y.shape, len(x), w)):
                        return
                    z = x - x.mean()
                    if np.abs(z).max() > 0:
                        z /= np.abs(z).max()
                    if not ctx.check(np.abs(y - z).max() < 1e-6, 'wav-data', 'WAV differs from the mean-removed, scaled '
                                     'waveform by %.3g: %s' % (np.abs(y - z).max(), w)):
                        return
                else:
                    st = obspy.read(got[k])
                    if not ctx.check(len(st) == 1, 'pieces', '%s holds %d traces: %s' % (fmt, len(st), w)):
                        return
                    q = st[0]
                    ok = ctx.check(abs(q.stats.starttime - tr.stats.starttime) < 1.1e-3 and q.stats.npts == tr.stats.npts
                                   and abs(q.stats.sampling_rate - 100) < 1e-3, 'span',
                                   '%s starts %s, %d samples, %g Hz; miniSEED %s, %d: %s' % (
                                       fmt, q.stats.starttime, q.stats.npts, q.stats.sampling_rate, tr.stats.starttime,
                                       tr.stats.npts, w))
                    # SAC stores float32: integers above 2^24 are rounded
                    tol = 0.5 + (np.abs(x).max() * 2 ** -23 if fmt == 'sac' else 0)
                    ok = ok and ctx.check(np.abs(np.asarray(q.data, float) - x).max() < tol, 'data',
                                          '%s samples differ from miniSEED by up to %g: %s' % (
                                              fmt, np.abs(np.asarray(q.data, float) - x).max(), w))
                    code = lambda s: (s.network, s.station, s.location, s.channel)
                    ok = ok and ctx.check(code(q.stats) == code(tr.stats), 'codes', '%s has codes %s, miniSEED %s: %s' % (
                        fmt, code(q.stats), code(tr.stats), w))
                    if fmt == 'sac':
                        cal = bitweight_pa(SN, gain)
                        ok = ok and ctx.check(abs(q.stats.calib / cal - 1) < 1e-5, 'calib',
                                              'SAC calibration is %g Pa per count, logger has %g: %s' % (q.stats.calib, cal, w))
                    if not ok:
                        return
                ctx.obs('files_compared_' + fmt)
                ctx.obs('samples_compared', len(x))
            ctx.sig(version, shape, fmt, fl, len(ref), gain)
        # the reference itself is the recording
        if 't1' not in args:
            if not gl.judge(ctx, 'mseed', [tr for _, tr in gl.read_folder(os.path.dirname(next(iter(ref.values()))))],
                            files, lg.wave, joints=10 ** 9, lo=np.ceil(np.round(files[0].t[0], 2) - 1e-9)):
                return


def make():
    c = Check('C24', 'random recordings (all raw formats, with and without lapses, several window lengths, codes, gains and '
              'hardware versions) converted to miniSEED, SAC, TSPAIR and WAV; file sets, start times, samples, codes and '
              'calibration are compared; the miniSEED is compared with the true recording; distinct = (raw format, shape, '
              'output format, window length, number of files, gain)',
              assumptions=['SAC times are compared to 1 ms and SAC samples to single precision'],
              need=['files_compared_sac', 'files_compared_tspair', 'files_compared_wav', 'windows_compared_with_truth'])
    for v in VERSIONS:
        for s in ('plain', 'gaps'):
            for k in range(pick(1, 3)):
                c.add('%s_%s%s' % (v, s, k or ''), case_formats, version=v, shape=s)
    return c
