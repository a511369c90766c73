"""C12 gemconvert converts the loggers asked for, with their own codes, as the options say."""
import os
import shutil

import numpy as np
import obspy
import gemlog

import gcli
import gl
import scen
import tables
from gemsim import VERSIONS
from mon import Check, pick

LONG = {'-i': 'inputdir', '-s': 'serialnumbers', '-x': 'exclude_serialnumbers', '-o': 'outputdir', '-f': 'format',
        '-l': 'length', '-p': 'parallel', '-t': 'test', '-c': 'codesfile'}
CLUTTER = ['README.md', 'notes.txt', 'gemconvert_logfile.txt', '.DS_Store', 'FILE0001.077.bak', 'file0003.118', 'FILE12.200',
           'station_info.csv', 'FILEABCD.150', 'config.txt', 'FILE0000_copy.171', 'IMG_0012.JPG', 'x', 'FILE0000']


def style(rng, o, v=None, long_names=True):
    if long_names and rng.random() < .45:
        if v is None:
            return ['--' + LONG[o]]
        return ['--%s=%s' % (LONG[o], v)] if rng.random() < .5 else ['--' + LONG[o], v]
    if v is None:
        return [o]
    return [o + v] if rng.random() < .3 else [o, v]


def case_select(ctx, codes, fmt):
    rng = ctx.rng
    for rep in range(pick(7, 20)):
        cwd = ctx.sub('w%d' % rep)
        rawname = ['raw', 'raw', 'in/put folder', 'data'][int(rng.integers(4))]
        raw = os.path.join(cwd, rawname)
        os.makedirs(raw)
        n = int(rng.integers(2, 6))
        sns = ['%03d' % s for s in rng.choice(np.arange(3, 300), n, replace=False)]
        if rng.random() < .5:                   # loggers whose names are easily confused
            a = int(rng.integers(30, 99))
            sns = list(dict.fromkeys(['%03d' % a, '%03d' % (a + 100), '%03d' % (a // 10)] + sns))[:max(n, 3)]
        data, wave, old = {}, {}, 0
        for SN in sns:
            v = VERSIONS[int(rng.integers(len(VERSIONS)))]
            lg = scen.logger(rng, v, SN=SN)
            files = scen.deploy(rng, None, lg, int(rng.integers(1, 4)), num0=old * 300 if v == '0.8' else None)
            old += v == '0.8'
            for f in files:
                f.write(raw)
            data[SN], wave[SN] = files, lg.wave
        for x in CLUTTER:
            if rng.random() < .3:
                with open(os.path.join(raw, x), 'w') as f:
                    f.write('#GemCSV0.91\nsome text\n' if rng.random() < .5 else '')
        if rng.random() < .3:
            os.makedirs(os.path.join(raw, 'old'))
        if rng.random() < .3:                   # a logger with nothing but an empty file
            open(os.path.join(raw, 'FILE0000.%s' % sns[0].translate(str.maketrans('0123456789', '9876543210'))), 'w').close()
        stray = None
        if rng.random() < .4:                   # a file of one logger under the name of another
            a, b = sns[0], sns[1]
            f = data[a][0]
            if not f.name.endswith('TXT') and not data[b][0].name.endswith('TXT'):
                num = max(q.num for q in data[b]) + 1 + int(rng.integers(3))
                with open(os.path.join(raw, 'FILE%04d.%s' % (num, b)), 'w') as g:
                    g.write(f.text())
                stray = b
        # the selection -----------------------------------------------------------------------
        args, want = [], set(sns)
        how = ['all', 's', 'x', 'sx'][int(rng.integers(4))]
        if 's' in how:
            k = int(rng.integers(1, len(sns) + 1))
            pickd = [str(s) for s in rng.permutation(sns)[:k]]
            want &= set(pickd)
            if rng.random() < .3:
                pickd.insert(int(rng.integers(len(pickd) + 1)), '998')       # not there
            if rng.random() < .2:
                pickd.append(pickd[0])
            args.append(('-s', ','.join(pickd)))
        if 'x' in how:
            k = int(rng.integers(1, max(2, len(sns))))
            ex = [str(s) for s in rng.permutation(sns)[:k]]
            want -= set(ex)
            args.append(('-x', ','.join(ex + (['997'] if rng.random() < .3 else []))))
        rows = {}
        form = ''
        if codes:
            have = [s for s in sns if rng.random() < .8] or sns[:1]
            extra = ['%03d' % s for s in rng.choice(np.arange(300, 400), 2, replace=False)] if rng.random() < .5 else []
            order = [str(s) for s in rng.permutation(have + extra)]
            while True:
                t, rr, form = tables.give_table(rng, tables.make_table(rng, order), cwd, 'codes %d.csv' % rep)
                if isinstance(t, str):
                    break
            rows = {r['SN']: (r['network'], r['station'], r['location']) for r in rr}
            args.append(('-c', t))
            want &= set(have)
        fl = None
        if rng.random() < .6:
            fl = ['1', '0.01', '0.005', '24', '0.5', '12'][int(rng.integers(6))]
            args.append(('-l', fl))
        spell = fmt
        if fmt != 'mseed' or rng.random() < .5:
            spell = [fmt, fmt.upper()][int(rng.integers(2))]
            args.append(('-f', spell))
        outdir = fmt
        if rng.random() < .6:
            outdir = ['out', 'a/b', 'converted data', os.path.join(cwd, 'abs')][int(rng.integers(4))]
            args.append(('-o', outdir))
        if rawname != 'raw' or rng.random() < .3:
            args.append(('-i', rawname if rng.random() < .6 else raw))
        if rng.random() < .4:
            args.append(('-p', str(int(rng.integers(1, 5)))))
        test = rng.random() < .15
        if test:
            args.append(('-t', None))
        argv = []
        for i in rng.permutation(len(args)):
            argv += style(rng, *args[i])
        what = '[gemconvert %s; loggers %s%s; codes %s %s]' % (' '.join(argv), sns, ' stray file for ' + stray if stray else '',
                                                        form, rows)
        before = gl.md5_tree(raw)
        had = set(gcli.tree(cwd))
        r = gcli.gemconvert(ctx, argv, cwd)
        if not ctx.check(r.code == 0, 'exit-status', 'gemconvert exits %r: %s %s' % (r.code, r.out[-500:], what)):
            return
        ctx.check(gl.md5_tree(raw) == before, 'raw-changed', 'the raw folder was changed ' + what)
        out = os.path.join(cwd, outdir)
        new = {k: v for k, v in gcli.tree(cwd).items() if k not in had and v is not None}
        rel = os.path.relpath(out, cwd)
        ctx.sig(how, bool(codes), form, fmt, fl, test, len(want), stray is not None)
        if test:
            ctx.obs('test_mode_runs')
            ctx.check(set(new) <= {'gemconvert_logfile.txt'}, 'test-mode', '-t wrote %s %s' % (sorted(new)[:4], what))
            for s in sns:
                ctx.check((s in r.out.split('outputdir')[0].split('serial numbers')[-1].split('SN-[')[0]) == (s in want),
                          'test-mode-list', '-t lists %r %s' % (r.out[:600], what))
            continue
        odd = sorted(k for k in new if not k.startswith((rel + '/', 'metadata/', 'gps/')) and k != 'gemconvert_logfile.txt')
        ctx.check(not odd, 'stray-output', 'files written elsewhere: %s %s' % (odd[:4], what))
        log = os.path.join(cwd, 'gemconvert_logfile.txt')
        text = open(log, errors='replace').read() if os.path.exists(log) else ''
        for s in want:
            ctx.check(s in text, 'log', 'the log does not mention %s %s' % (s, what))
        # what each logger's own conversion gives ---------------------------------------------
        exp = {}
        kw = dict(file_length_hour=float(fl)) if fl else {}
        if fmt != 'mseed':
            kw['output_format'] = spell
        ref = os.path.join(ctx.dir, 'ref%d' % rep)
        owner = {}
        for s in sorted(want):
            net, sta, loc = rows.get(s, ('', '', ''))
            a = os.path.join(ref, s)
            ctx.must('convert-failed', gemlog.convert, raw, SN=s, convertedpath=a + '/c', metadatapath=a + '/m',
                     gpspath=a + '/g', network=net, station=sta, location=loc, **kw)
            for x, y in (('c', rel), ('m', 'metadata'), ('g', 'gps')):
                for k, v in gl.md5_tree(os.path.join(a, x)).items():
                    k = '%s/%s' % (y, k)
                    if k in exp:
                        raise AssertionError('two loggers share the file name ' + k)
                    exp[k] = v
                    if x == 'c':
                        owner[k] = s
        got = {k: v for k, v in new.items() if k != 'gemconvert_logfile.txt'}
        miss = sorted(k for k in exp if k not in got)
        extra = sorted(k for k in got if k not in exp)
        diff = sorted(k for k in exp if k in got and exp[k] != got[k])
        ctx.obs('files_compared', len(exp))
        ctx.check(not miss, 'not-converted', 'missing %s; log %s %s' % (miss[:4], text[-400:], what))
        ctx.check(not extra, 'not-asked-for', 'unexpected %s %s' % (extra[:4], what))
        ctx.check(not diff, 'differs', 'different from the logger\'s own conversion: %s %s' % (diff[:4], what))
        ctx.obs('loggers_converted', len(want)), ctx.obs('loggers_left_out', len(sns) - len(want))
        # the samples in the files named for a logger are that logger's -----------------------
        if fmt == 'mseed':
            by = {}
            for k in got:
                if k in owner:
                    for tr in obspy.read(os.path.join(cwd, k)):
                        by.setdefault(owner[k], []).append(tr)
                        net, sta, loc = rows.get(owner[k], ('', owner[k], ''))
                        ctx.check((tr.stats.network, tr.stats.station, tr.stats.location) == (net, sta or owner[k], loc), 'codes',
                                  '%s holds %s, codes file gives %s %s' % (k, tr.id, (net, sta, loc), what))
            for s in want:
                files = data[s]
                t0 = min(f.t[0] for f in files)
                lo = np.ceil(np.round(t0, 2) - 1e-9)
                gl.judge(ctx, 'convert', by.get(s, []), files, wave[s], lo=lo, edge=0.06, joints=10 ** 9)
                if ctx.viol:
                    ctx.viol[-1]['msg'] += ' ' + what
                    return
        shutil.rmtree(cwd), shutil.rmtree(ref, ignore_errors=True)


def case_help(ctx):
    """Help and refusals: nothing is converted or written where nothing was asked for."""
    rng = ctx.rng
    for argv in (['-h'], ['--help'], ['-i', 'absent'], ['--inputdir=absent'], ['-c', 'absent.csv'], ['--nosuchoption'], ['-z']):
        cwd = ctx.sub('h%d' % rng.integers(1 << 30))
        lg = scen.logger(rng, '0.91', SN='123')
        lg.record(0, 25.0).write(os.path.join(cwd, 'raw'))
        r = gcli.gemconvert(ctx, argv, cwd)
        ctx.check('-i' in r.out and '-s' in r.out, 'help', 'no usage message for %s: %s' % (argv, r.out[-300:]))
        left = set(os.listdir(cwd)) - {'raw', 'gemconvert_logfile.txt'}
        ctx.check(not left, 'help-wrote', '%s wrote %s' % (argv, left))
        ctx.check(r.code is not None and r.code not in (96, 97), 'help-crash', '%s: %s' % (argv, r.out[-500:]))
        ctx.sig(tuple(argv), r.code)
        ctx.obs('help_runs')


def make():
    c = Check('C12', 'random loggers of all formats with clutter, empty and misnamed files in the folder; random selections (-s, '
              '-x, -c), codes tables in every accepted form, formats, lengths, folders, option spellings; output tree compared '
              'byte by byte with what each selected logger\'s own conversion gives, and sample by sample with the true '
              'recording of the logger the file is named for',
              need=['loggers_converted', 'loggers_left_out', 'files_compared', 'windows_compared_with_truth'],
              assumptions=['codes tables give each logger a distinct network.station.location'])
    for codes in (0, 1):
        for fmt in ('mseed', 'sac', 'wav', 'tspair'):
            for i in range(pick(4 if fmt == 'mseed' else 1, 14 if fmt == 'mseed' else 4)):
                c.add('%s_%s_%d' % ('codes' if codes else 'plain', fmt, i), case_select, codes=codes, fmt=fmt)
    c.add('help', case_help)
    return c
