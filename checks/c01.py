"""C01 read_gem against the simulator's ground truth."""
import numpy as np
import gemlog

import gl
import scen
from gemsim import VERSIONS, LATENCY
from mon import Check, pick


def case_read(ctx, version, mode):
    rng = ctx.rng
    for rep in range(pick(2, 8)):
        d = ctx.sub('raw%d' % rep)
        kw = {}
        if mode == 'fast':                 # strong slow signal, accurate timing test
            kw['amp'] = 6000.0
        if mode == 'drift':
            kw.update(drift=float(rng.choice([-1, 1]) * rng.uniform(5e-5, 1.5e-4)), quad=float(rng.choice([-1, 1]))
                      * 1.5e-13)
        if mode == 'dc':
            kw.update(amp=2000.0)
        lg = scen.logger(rng, version, **kw)
        if mode == 'dc':
            lg.wave.dc = float(rng.choice([-1, 1]) * rng.uniform(20000, 2e6))
        if mode == 'single':
            files = scen.deploy(rng, d, lg, 1, dur=(60, 150), p_gap=0.5)
        elif mode == 'gaps':
            files = scen.deploy(rng, d, lg, 4, dur=(30, 50), p_gap=1.0, p_pause=0, p_restart=0)
        elif mode == 'pauses':
            files = scen.deploy(rng, d, lg, 5, dur=(22, 40), p_pause=0.9, p_gap=0.2, p_restart=0.2)
        elif mode == 'cycles':
            files = scen.deploy(rng, d, lg, 2, dur=(150, 260), gps='cycles', p_pause=0.5)
        elif mode == 'jitter':
            files = scen.deploy(rng, d, lg, 3, dur=(30, 60), jitter=1.2, p_pause=0.3)
        elif mode == 'quiet':
            lg.wave.a *= 200.0 / lg.wave.a.sum()
            files = scen.deploy(rng, d, lg, 3, dur=(30, 60), p_pause=0.3)
        else:
            files = scen.deploy(rng, d, lg, 4, dur=(25, 60))
        nums = np.arange(10000)
        R = ctx.must('read_gem-failed', gemlog.read_gem, d, nums=nums, SN=lg.SN)
        kw = {}
        if mode == 'jitter':
            kw['wave_kw'] = dict(noise=0.8, rel=2e-3)
        if mode == 'quiet':
            kw['max_dt'] = 2e-3
        gl.judge(ctx, 'read_gem', list(R['data']), files, lg.wave, **kw)
        for tr in R['data']:
            ctx.check(tr.data.dtype == np.int32, 'read_gem:dtype', 'samples are %s' % tr.data.dtype)
        # header: one row per file, with the right start and end
        h = R['header']
        ctx.check(len(h) == len(files), 'header-rows', '%d header rows for %d files' % (len(h), len(files)))
        ctx.check(len(R.get('problems', [])) == 0, 'spurious-problem', 'good files reported: %s' % R.get('problems'))
        for f, (_, row) in zip(scen.sorted_files(files), h.iterrows()):
            ctx.check(abs(float(row['t1']) - f.t[0]) < 2e-3 and abs(float(row['t2']) - f.t[-1]) < 2e-3,
                      'header-times', '%s: header says %.4f..%.4f, recorded %.4f..%.4f' % (
                          f.name, row['t1'], row['t2'], f.t[0], f.t[-1]))
            ctx.check(int(row['num_data_pts']) == len(f.t), 'header-num_data_pts',
                      '%s: header counts %s samples, recorded %d' % (f.name, row['num_data_pts'], len(f.t)))
            ctx.check(str(row['file']).endswith(f.name) and row['SN'] == lg.SN, 'header-file',
                      'row of %s says %s %s' % (f.name, row['file'], row['SN']))
            ctx.check(abs(row['lat'] - lg.lat) < 1e-4 and abs(row['lon'] - lg.lon) < 1e-4, 'header-position',
                      '%s: header position %s %s, logger at %s %s' % (f.name, row['lat'], row['lon'], lg.lat, lg.lon))
            ctx.obs('file_headers_checked')
        for tr in R['data']:
            ctx.check(tr.stats.channel == 'HDF' and tr.stats.station == lg.SN and tr.stats.network == '' and
                      tr.stats.location == '', 'codes', 'trace is %s' % tr.id)
        ctx.sig(version, mode, rep, len(gl.truth_segments(files)), len(files))
        ctx.note('%s %s: %d files, %d stretches, %d samples; all within limits' % (
            version, mode, len(files), len(R['data']), sum(len(tr) for tr in R['data'])))


def case_nums(ctx, version):
    """Reading a chosen subset of file numbers gives exactly those files."""
    rng = ctx.rng
    d = ctx.sub('raw')
    lg = scen.logger(rng, version)
    files = scen.deploy(rng, d, lg, 6, dur=(22, 30), num0=int(rng.choice([0, 7, 95, 998, 9900])))
    other = scen.logger(rng, version if version != '0.8' else '0.91', SN='%03d' % ((int(lg.SN) + 1) % 1000), t0=lg.t0)
    scen.deploy(rng, d, other, 3, dur=(22, 30), num0=files[0].num + (0 if version != '0.8' else 0))
    for _ in range(pick(3, 10)):
        k = int(rng.integers(1, 5))
        sub = [files[i] for i in sorted(rng.choice(6, k, replace=False))]
        nums = np.array([f.num for f in sub])
        if rng.random() < .5:
            rng.shuffle(nums)
        if rng.random() < .3:
            nums = [int(q) for q in nums]
        if k == 1:
            nums = int(sub[0].num)
        R = ctx.must('read_gem-failed', gemlog.read_gem, d, nums=nums, SN=lg.SN)
        gl.judge(ctx, 'read_gem-nums', list(R['data']), sub, lg.wave)
        ctx.sig(version, tuple(f.num for f in sub))


def case_long(ctx, version):
    """A file of realistic length (many counter rollovers)."""
    rng = ctx.rng
    d = ctx.sub('raw')
    lg = scen.logger(rng, version, quad=float(rng.choice([-1, 1]) * 1.5e-14), meta_period=10.0)
    files = [lg.record(i, 3600.0, gps='cycles') for i in range(1)]
    files.append(lg.record(1, 600.0, gps='cycles'))
    for f in files:
        f.write(d)
    R = ctx.must('read_gem-failed', gemlog.read_gem, d, nums=np.arange(10), SN=lg.SN)
    gl.judge(ctx, 'read_gem-long', list(R['data']), files, lg.wave)
    ctx.sig(version)


def make():
    c = Check('C01', 'random recordings (format x scenario: drift, rollover, lapses, pauses, restarts, jitter, DC offset, '
              'GPS duty cycle) read by read_gem; every 20-s window of every output trace is compared with the true '
              'waveform (timing, value, offset) and coverage with the true recording intervals; distinct = '
              '(format, scenario, number of stretches and files)',
              assumptions=['the simulator (gemsim.py) models the logger: counts are the wave at the sample instant, '
                           'latency 8.93 gem-ms, GPS pulses exact up to file rounding',
                           'waves are band-limited below 6 Hz so cubic interpolation error is bounded'],
              need=['windows_compared_with_truth', 'recorded_stretches_checked', 'file_headers_checked'])
    for v in VERSIONS:
        for m in ('mixed', 'gaps', 'pauses', 'drift', 'dc', 'cycles', 'single', 'jitter', 'quiet'):
            c.add('%s_%s' % (v, m), case_read, version=v, mode=m)
        c.add('%s_nums' % v, case_nums, version=v)
    for v in pick(('0.91', '0.8'), VERSIONS):
        c.add('%s_long' % v, case_long, version=v)
    return c
