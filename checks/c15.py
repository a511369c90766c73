"""C15 instrument constants are consistent for every serial number, gain and reader."""
import numpy as np
import obspy
import gemlog
import gemlog.core as core

import scen
from gemsim import NEW, VERSIONS
from mon import CaseSkip, Check, pick

TABLE = [(3, 7, .5), (8, 14, .7), (15, 19, .8), (20, 37, .82), (38, 40, .9), (41, 43, .91), (44, 46, .92),
         (47, 49, .98), (50, 51, .99), (52, 54, .991), (55, 57, .992), (58, 107, 1.0), (108, 10 ** 9, 1.01)]
# per hardware version: reference voltage and amplifier feedback resistance (kOhm, R_g = 0.470)
AVCC = lambda v: 3.1 if v >= 0.9 else 3.373
RF = lambda v: 50. if v >= 0.98 else 49.4


def truth(SN, low=False):
    v = [q[2] for q in TABLE if q[0] <= int(SN) <= q[1]][0]
    bv = 0.256 / 2 ** 15 / (1 + RF(v) / 0.470)
    return v, bv * (2 if low else 1), bv * (2 if low else 1) / (45.13e-6 * AVCC(v) / 7)


def close(a, b, rel=1e-6):
    return abs(float(a) / b - 1) < rel


def case_table(ctx, lo, hi):
    """every serial number of the range, in every form a user can give it"""
    byver = {}
    for n in range(lo, hi):
        v, bv, bp = truth(n)
        for SN in (n, '%03d' % n, np.int64(n), str(n)):
            s = ctx.must('specs', gemlog.get_gem_specs, SN)
            ctx.obs('spec_lookups')
            if not (ctx.check(s['version'] == v, 'version', 'SN %r: version %r, documented %r' % (SN, s['version'], v)) and
                    ctx.check(close(s['bitweight_V'], bv), 'volts', 'SN %r: %r V per count, expected %r' % (SN, s['bitweight_V'], bv)) and
                    ctx.check(close(s['bitweight_Pa'], bp), 'pascals', 'SN %r: %r Pa per count, expected %r' % (
                        SN, s['bitweight_Pa'], bp))):
                return
        k = byver.setdefault(float(s['version']), (s['bitweight_V'], s['bitweight_Pa']))
        if not ctx.check(k == (s['bitweight_V'], s['bitweight_Pa']), 'not-constant',
                         'resolution changes within version %s at SN %d' % (v, n)):
            return
        ctx.sig('sn', v)
        if not hasattr(core, 'get_bitweight_info'):
            continue
        for gain in (0, 1):
            for units in ('Pa', 'V', 'counts', 'PA', 'v', 'pa', 'Counts'):
                cfg = {'gps_mode': 1, 'gps_cycle': 15, 'gps_quota': 20, 'adc_range': gain, 'led_shutoff': 0,
                       'serial_output': 0}
                q = ctx.must('bitweight-info', core.get_bitweight_info, '%03d' % n, cfg, units)
                ctx.obs('bitweight_lookups')
                want = {'p': truth(n, gain)[2], 'v': truth(n, gain)[1], 'c': 1.}[units.lower()[0]]
                if not (ctx.check(close(q['bitweight'], want), 'bitweight', 'SN %03d gain %d units %s: bitweight %r, expected %r' % (
                        n, gain, units, q['bitweight'], want)) and
                        ctx.check(close(q['bitweight_V'], truth(n, gain)[1]) and close(q['bitweight_Pa'], truth(n, gain)[2]),
                                  'gain-factor', 'SN %03d gain %d: %r V, %r Pa per count, expected %r %r' % (
                                      n, gain, q['bitweight_V'], q['bitweight_Pa'], *truth(n, gain)[1:]))):
                    return


def paz(stage, f):
    s = 2j * np.pi * np.asarray(f, float) if 'RADIANS' in stage.pz_transfer_function_type else 1j * np.asarray(f, float)
    h = np.full(s.shape, stage.normalization_factor, complex)
    for z in stage.zeros:
        h = h * (s - z)
    for p in stage.poles:
        h = h / (s - p)
    return h


def stages(resp, f):
    """complex response at frequencies f, evaluated stage by stage"""
    f = np.asarray(f, float)
    h = np.ones(f.shape, complex)
    for st in resp.response_stages:
        kind = type(st).__name__
        if kind == 'PolesZerosResponseStage' and (len(st.poles) or len(st.zeros)):
            h = h * paz(st, f) / abs(paz(st, [st.normalization_frequency]))[0] * st.stage_gain
        elif kind == 'CoefficientsTypeResponseStage' and len(st.numerator) > 1:
            c = np.array([float(x) for x in st.numerator])
            fs = float(st.decimation_input_sample_rate)
            e = np.exp(-2j * np.pi * np.outer(f, np.arange(len(c)) - (len(c) - 1) / 2) / fs) @ c
            h = h * e / c.sum() * st.stage_gain
        else:
            h = h * (st.stage_gain or 1)
    return h


def case_response(ctx):
    rng = ctx.rng
    for gain in ('high', 'low', 'HIGH', 'Low', None):
        resp = ctx.must('response', gemlog.get_gem_response, *([] if gain is None else [gain]))
        low = gain is not None and gain.lower() == 'low'
        sens = resp.instrument_sensitivity
        ctx.obs('responses')
        prod = float(np.prod([st.stage_gain or 1 for st in resp.response_stages]))
        # documented sensor: first-order high pass at 0.039 Hz
        hp = abs(1j * sens.frequency / (0.039 + 1j * sens.frequency))
        ctx.check(close(sens.value, prod * hp, 2e-3), 'sensitivity-product', 'gain %s: overall sensitivity %g, product of the '
                  'stage gains at %g Hz is %g' % (gain, sens.value, sens.frequency, prod * hp))
        ctx.check(close(sens.value, abs(stages(resp, [sens.frequency]))[0], 1e-2), 'sensitivity-stages',
                  'gain %s: overall sensitivity %g, stages give %g at %g Hz' % (
                      gain, sens.value, abs(stages(resp, [sens.frequency]))[0], sens.frequency))
        ratio = prod * gemlog.get_gem_specs(108)['bitweight_Pa'] * (2 if low else 1)
        if abs(ratio / 1.03971 - 1) < 1e-3:     # known: 46.92 uV/Pa in the response, 45.13 uV/Pa in get_gem_specs
            ctx.bad('sensitivity-4-percent', 'gain %s: the response has %g counts per Pa but get_gem_specs %g' % (
                gain, prod, prod / ratio))
        else:
            ctx.check(abs(ratio - 1) < 1e-3, 'sensitivity-resolution', 'gain %s: the response has %g counts per Pa but '
                      'get_gem_specs %g' % (gain, prod, prod / ratio))
        ctx.check(close(prod, (0.5 if low else 1) / 0.0035012, 2e-3), 'sensitivity-datasheet',
                  'gain %s: response has %g counts per Pa, documented 1/0.0035012 at high gain' % (gain, prod))
        ctx.check(str(sens.input_units).upper().startswith('PA') and 'COUNT' in str(sens.output_units).upper(), 'units',
                  'response goes from %s to %s' % (sens.input_units, sens.output_units))
        for bad in ('medium', 'h', ''):
            _, exc = ctx.call(gemlog.get_gem_response, bad)
            ctx.check(exc is not None, 'bad-gain', 'gain %r was accepted' % bad)
        ctx.sig('response', gain)


def case_remove(ctx, kind):
    """pressure -> counts by the documented instrument -> deconvolve_gem_response -> pressure again"""
    rng = ctx.rng
    for rep in range(pick(6, 30)):
        low = bool(rng.integers(2))
        n = int(rng.choice([6000, 12001, 20000]))
        f0 = rng.uniform(0.15, 8, 6)
        amp = np.exp(rng.uniform(np.log(.05), np.log(30), 6))
        ph = rng.uniform(0, 2 * np.pi, 6)
        t = np.arange(n) * 0.01
        win = np.sin(np.pi * np.arange(n) / (n - 1)) ** 2
        press = sum(a * np.cos(2 * np.pi * f * t + p) for a, f, p in zip(amp, f0, ph)) * win
        m = 1 << (2 * n - 1).bit_length()
        f = np.fft.rfftfreq(m, 0.01)
        resp = gemlog.get_gem_response()
        P = np.fft.rfft(press, m)
        # sensor poles and zeros as shipped, amplitude from the documented 0.0035012 Pa per count
        s0 = resp.response_stages[0]
        hs = paz(s0, f) / abs(paz(s0, [1.0]))[0] * abs(1j / (0.039 + 1j))
        counts = np.fft.irfft(P * hs / (0.0035012 * (2 if low else 1)), m)[:n]
        trs = [obspy.Trace(np.round(counts * 64) / 64, {'sampling_rate': 100., 'station': '%03d' % i}) for i in range(2)]
        arg = trs[0] if kind == 'trace' else obspy.Stream(trs)
        kw = {'gain': 'low' if low else 'high'} if (low or rng.random() < .5) else {}
        out = ctx.must('deconvolve', gemlog.deconvolve_gem_response, arg, **kw)
        for tr in ([out] if kind == 'trace' else out):
            d = tr.data[n // 10:-n // 10] - press[n // 10:-n // 10]
            d = d - d.mean()
            err = np.sqrt((d * d).mean()) / np.sqrt((press ** 2).mean())
            ctx.obs('signals_recovered')
            if not ctx.check(err < 0.03, 'not-recovered', 'removing the response does not recover the pressure: error %.1f%% '
                             '(gain %s, frequencies %s)' % (100 * err, 'low' if low else 'high', np.round(np.sort(f0), 2))):
                return
        ctx.sig('remove', kind, low, n)


def case_readers(ctx, version):
    """headers of read_gem: per-file values, with the gain changing between files"""
    rng = ctx.rng
    sns = [3, 7, 8, 14, 15, 19, 20, 37, 38, 40, 43, 44, 46, 47, 49, 50, 54, 57, 58, 107, 108, 300]
    rng.shuffle(sns)
    for rep in range(pick(8, 22)):
        SN = '%03d' % sns[rep % len(sns)]
        d = ctx.sub('r%d' % rep)
        lg = scen.logger(rng, version, SN=SN, config=(1, 15, 20, 0, 0, 0))
        files, cfgs = [], []
        num = int(rng.integers(5))
        for i in range(int(rng.integers(2, 6))):
            cfg = (int(rng.integers(0, 3)), int(rng.integers(10, 30)), int(rng.integers(15, 40)), int(rng.integers(2)),
                   int(rng.integers(2)), int(rng.integers(2)))
            has_c = version in ('0.9', '0.91', '1.10')
            lg.config = cfg
            f = lg.record(num, round(float(rng.uniform(25, 35)), 2))
            f.write(d)
            files.append(f)
            cfgs.append(cfg if has_c else (1, 15, 20, 0, 0, 0))
            num += 1
            lg.skip(float(rng.uniform(0.02, 100)))
        L = ctx.must('read', gemlog.read_gem, d, SN=SN)
        h = L['header']
        ctx.obs('headers', len(h))
        if not ctx.check(len(h) == len(files), 'rows', 'header has %d rows for %d files' % (len(h), len(files))):
            return
        for f, cfg in zip(files, cfgs):
            r = h[[str(q).endswith(f.name) for q in h['file']]].iloc[0]
            v, bv, bp = truth(SN, cfg[3])
            w = '%s (format %s, SN %s, configuration %s)' % (f.name, version, SN, cfg)
            ok = ctx.check(str(r['SN']) == SN, 'header-sn', 'serial number %r reported for %s' % (r['SN'], w))
            ok &= ctx.check(close(r['bitweight_V'], bv) and close(r['bitweight_Pa'], bp), 'header-bitweight',
                            '%r V, %r Pa per count reported (expected %r, %r) for %s' % (r['bitweight_V'], r['bitweight_Pa'], bv, bp, w))
            ok &= ctx.check(float(r['version']) == v, 'header-version', 'hardware version %r reported for %s' % (r['version'], w))
            ok &= ctx.check(str(r['file_format_version']) == version, 'header-format', 'format %r reported for %s' % (
                r['file_format_version'], w))
            for name, x in zip(('gps_mode', 'gps_cycle', 'gps_quota', 'adc_range', 'led_shutoff', 'serial_output'), cfg):
                ok &= ctx.check(int(r[name]) == x, 'header-config', '%s = %r reported for %s' % (name, r[name], w))
            if not ok:
                return
        ctx.sig('reader', version, truth(SN)[0])


def make():
    c = Check('C15', 'every serial number 3..%d in four spellings with both gains and all units; the responses of both gains '
              'evaluated stage by stage; random band-limited pressure signals passed through the documented instrument and '
              'deconvolved; headers of read_gem for random configurations that change between files; distinct = (hardware '
              'version / gain / signal class / raw format)' % pick(1200, 10000),
              assumptions=['the hardware table (serial numbers, reference voltage, amplifier gain, 45.13 uV/Pa at 7 V) in '
                           'checks/c15.py is the documented one', 'response removal is judged in 0.15-8 Hz'],
              need=['spec_lookups', 'responses', 'signals_recovered', 'headers'])
    top = pick(1200, 10000)
    for i in range(3, top, pick(400, 2000)):
        c.add('table_%d' % i, case_table, lo=i, hi=min(i + pick(400, 2000), top))
    c.add('response', case_response)
    for k in ('trace', 'stream'):
        c.add('remove_' + k, case_remove, kind=k)
    for v in VERSIONS:
        c.add('readers_' + v, case_readers, version=v)
    return c
