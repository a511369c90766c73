"""C08 a bad file costs only itself, and is reported."""
import copy
import os

import numpy as np
import obspy
import gemlog
from gemlog.exceptions import CorruptRawFile, MissingRawFiles

import gl
import scen
from gemsim import VERSIONS, iso
from mon import Check, pick

# kind -> may the file still be usable in part?
KINDS = ['empty', 'tiny', 'header_only', 'garbage', 'garbage_tail', 'garbage_mid', 'no_header', 'no_S', 'bad_S', 'bad_version',
         'no_version', 'order', 'repeat', 'jump', 'no_gps', 'no_M', 'text', 'nul', 'truncated', 'truncated_early', 'crlf',
         'first_lines_cut', 'other_sn', 'zero_lat']


def damage(rng, f, kind, path):
    """Overwrite path with a damaged version of f. -> truth still in the file (complete lines) or None."""
    L = list(f.lines)
    data = f.text().encode()
    H = f.header_len
    if kind == 'empty':
        data = b''
    elif kind == 'tiny':
        data = bytes(rng.integers(0, 256, int(rng.integers(1, 11)), dtype=np.uint8))
    elif kind == 'header_only':
        data = ('\n'.join(L[:H]) + '\n').encode()
    elif kind == 'garbage':
        data = bytes(rng.integers(0, 256, int(rng.integers(11, 20000)), dtype=np.uint8))
    elif kind == 'nul':
        data = b'\0' * int(rng.integers(11, 50000))
    elif kind == 'text':
        data = b'This is not a raw file.\nNothing to see here, 1,2,3\n' * int(rng.integers(1, 50))
    elif kind == 'garbage_tail':
        k = int(rng.integers(len(data) // 3, len(data)))
        data = data[:k] + bytes(rng.integers(0, 256, int(rng.integers(5, 5000)), dtype=np.uint8))
    elif kind == 'garbage_mid':
        k = int(rng.integers(len(data) // 10, len(data) - 300))
        n = int(rng.integers(1, 250))
        data = data[:k] + bytes(rng.integers(0, 256, n, dtype=np.uint8)) + data[k + n:]
    elif kind == 'no_header':
        data = ('\n'.join(L[H:]) + '\n').encode()
    elif kind == 'no_S':
        data = ('\n'.join(q for q in L if not q.startswith('S,')) + '\n').encode()
    elif kind == 'bad_S':
        data = data.replace(b'S,' + f.name[-3:].encode() if not f.name.endswith('TXT') else b'\nS,', b'\nS,?', 1)
    elif kind == 'bad_version':
        data = ('\n'.join(['#GemCSV9.99'] + L[1:]) + '\n').encode()
    elif kind == 'no_version':
        data = ('\n'.join(L[1:]) + '\n').encode()
    elif kind in ('order', 'repeat', 'jump'):
        b = [i for i, q in enumerate(f.kinds) if q == 'D' and L[i][0] == 'D' and i > H + 50]
        if kind == 'repeat' and not b:
            L = L[:H] + L[H:][::-1]
        elif kind == 'repeat':
            i = b[int(rng.integers(len(b) // 2))]
            L[i:i] = [L[i]] * 2
            if ',' not in L[i]:
                L = L[:H] + L[H:][::-1]
        elif kind == 'order':
            body = L[H:]
            q = len(body) // 4
            L = L[:H] + body[2 * q:3 * q] + body[:2 * q] + body[3 * q:]
        else:
            q = len(L) // 2
            L = L[:q] + L[q + 800:] if len(L) > 2400 else L[:H] + L[H:][::-1]
        data = ('\n'.join(L) + '\n').encode()
    elif kind == 'no_gps':
        data = ('\n'.join(q for q in L if q[:1] != 'G' or q.startswith('#')) + '\n').encode()
    elif kind == 'zero_lat':
        data = ('\n'.join(','.join(q.split(',')[:9] + ['0.0', '0.0']) if q[:2] == 'G,' else q for q in L) + '\n').encode()
    elif kind == 'no_M':
        data = ('\n'.join(q for q in L if q[:2] != 'M,') + '\n').encode()
    elif kind == 'truncated':
        data = data[:int(rng.integers(int(len(data) * 0.55), len(data)))]
    elif kind == 'truncated_early':
        data = data[:int(rng.integers(60, len(data) // 4))]
    elif kind == 'crlf':
        data = data.replace(b'\n', b'\r\n')
    elif kind == 'first_lines_cut':
        data = data[int(rng.integers(1, 2000)):]
    elif kind == 'other_sn':
        data = data.replace(b'\nS,' + os.path.basename(path)[-3:].encode(), b'\nS,999', 1) if not path.endswith('TXT') \
            else data
    with open(path, 'wb') as q:
        q.write(data)
    return len(data)


def head(d, f):
    return b'\n'.join(open(os.path.join(d, f.name), 'rb').read(4000).split(b'\n')[:8])


def case_bad_files(ctx, version, via, group):
    rng = ctx.rng
    reps = pick(24, 120)
    kinds = KINDS[group::3]
    for rep in range(reps):
        d, out = ctx.sub('raw%d' % rep), ctx.sub('out%d' % rep)
        lg = scen.logger(rng, version)
        n = int(rng.integers(2, 8))
        nbad = int(rng.integers(1, n))
        files, num = [], scen.first_number(rng)
        for i in range(n):
            files.append(lg.record(num, round(float(rng.uniform(24, 34)), 2)))
            num += 1 + (int(rng.integers(1, 14)) if rng.random() < 0.15 else 0)
            if rng.random() < 0.2:
                scen.pause(rng, ['short', 'tens', 'hours'][int(rng.integers(3))], lg)
        bad = sorted(rng.choice(n, nbad, replace=False).tolist())
        if rng.random() < 0.35:
            bad = sorted(set(bad) | {0})             # the first file of the set is special to readers
            if len(bad) == n:
                bad = bad[:-1]
        size, how = {}, {}
        for i, f in enumerate(files):
            p = f.write(d)
            if i in bad:
                how[i] = kinds[(rep + i) % len(kinds)]
                size[i] = damage(rng, f, how[i], p)
        good = [f for i, f in enumerate(files) if i not in bad]
        spans = [(files[i].t[0] - 0.02, files[i].t[-1] + 0.02) for i in bad]
        what = '[%s %s: %s]' % (version, via, ['%s %s' % (f.name, how.get(i, 'good')) for i, f in enumerate(files)])
        before = gl.md5_tree(d)
        if via == 'convert':
            bd = [1, 1 / 12, 0.25][int(rng.integers(3))]
            probs, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                                  gpspath=out + '/g', blockdays=bd, file_length_hour=[1, 0.02][int(rng.integers(2))])
            what += ' blockdays %.3g' % bd
        else:
            L, exc = ctx.call(gemlog.read_gem, d, SN=lg.SN)
            probs = L and L['problems']
        if not ctx.check(exc is None, 'aborted', '%s raised %s: %s although %d files are good %s' % (
                via, type(exc).__name__, str(exc)[:300], len(good), what)):
            return
        ctx.check(gl.md5_tree(d) == before, 'raw-changed', 'raw folder changed %s' % what)
        trs = [tr for _, tr in gl.read_folder(out + '/c')] if via == 'convert' else list(L['data'])
        for tr in trs:
            a, b = gl.span(tr)
            if not ctx.check(files[0].t[0] - 0.5 < a and b < files[-1].t[-1] + 0.5, 'misplaced',
                             'samples at %s .. %s, outside the recording %s .. %s %s' % (
                                 iso(a), iso(b), iso(files[0].t[0]), iso(files[-1].t[-1]), what)):
                return
        rest = gl.exclude(trs, spans)
        first = good[0]
        lo = -np.inf
        if via == 'convert' and rest:                # convert starts at a whole second
            a0, sec = min(gl.span(t)[0] for t in rest), np.ceil(first.t[0])
            if abs(first.t[0] - round(first.t[0])) < 0.015:
                sec = round(first.t[0]) + 1
            if abs(a0 - round(a0)) < 0.02 and first.t[0] - 0.02 < a0 < sec + 0.02:
                lo = a0 - 1e-3
        if not gl.judge(ctx, 'good-files', rest, good, lg.wave, lo=lo, joints=10 ** 9):
            ctx.viol[-1]['msg'] += ' ' + what
            return
        for i in bad:
            f = files[i]
            ctx.obs('bad_files')
            core = [1 for tr in trs if gl.span(tr)[0] < f.t[-1] - 0.5 and gl.span(tr)[1] > f.t[0] + 0.5]
            kept = bool(core)
            ctx.obs('bad_files_partly_used', kept)
            if kept:
                ctx.check(how[i] not in ('empty', 'tiny', 'header_only', 'garbage', 'nul', 'text', 'no_gps', 'zero_lat'),
                          'invented', 'samples from a file that holds none (%s) %s' % (how[i], what))
                if how[i] in ('crlf', 'truncated', 'no_M', 'bad_version', 'no_S'):
                    ex = gl.exclude([t for t in trs], [(-1e18, f.t[0] - 0.001), (f.t[-1] + 0.001, 1e18)])
                    for tr in ex:
                        if tr.stats.npts > 100:
                            t = gl.tr_times(tr)
                            if not gl.wave_ok(ctx, 'partial', t, tr.data, lg.wave, max_dt=5e-3):
                                ctx.viol[-1]['msg'] += ' ' + what
                                return
            elif version == '0.8' and how[i] in ('bad_S', 'other_sn'):
                pass                     # a TXT file with another serial number is another logger's
            elif version == '0.8' and via == 'read' and (how[i] in ('first_lines_cut', 'no_version') or ('\nS,%s' % lg.SN).encode() not in head(d, f)):
                pass                     # read_gem cannot know whose file it is
            elif size[i] > 10:
                ctx.obs('problem_reports_checked')
                ctx.check(any(f.name in str(p) for p in probs), 'not-reported',
                          'dropped file %s (%s) is not among the problems %s %s' % (f.name, how[i], probs, what))
            ctx.sig(version, via, how[i], i == 0, kept)
        for p in probs:
            for f in good:
                ctx.check(f.name not in str(p) or 'Inadequate' in str(p), 'false-report', 'good file %s reported: %s %s' % (
                    f.name, p, what))


def case_all_bad(ctx, version):
    rng = ctx.rng
    for rep, kind in enumerate(k for k in KINDS if k not in ('crlf', 'truncated', 'garbage_mid', 'garbage_tail', 'repeat',
                                                             'bad_version', 'no_M', 'no_S', 'first_lines_cut', 'other_sn',
                                                             'bad_S', 'no_version')):
        for via in ('convert', 'read'):
            d, out = ctx.sub('raw%d%s' % (rep, via)), ctx.sub('out%d%s' % (rep, via))
            lg = scen.logger(rng, version)
            n = int(rng.integers(1, 4))
            num = scen.first_number(rng)
            for i in range(n):
                f = lg.record(num, round(float(rng.uniform(24, 30)), 2))
                damage(rng, f, kind, f.write(d))
                num += 1 + int(rng.integers(0, 3))
            what = '[all %d files %s, %s %s]' % (n, kind, version, via)
            if via == 'convert':
                _, exc = ctx.call(gemlog.convert, d, SN=lg.SN, convertedpath=out + '/c', metadatapath=out + '/m',
                                  gpspath=out + '/g', blockdays=[1, 1 / 12][int(rng.integers(2))])
            else:
                _, exc = ctx.call(gemlog.read_gem, d, SN=lg.SN)
            ctx.check(isinstance(exc, (CorruptRawFile, MissingRawFiles)), 'exception-type',
                      'with no usable file %s raised %r %s' % (via, exc, what))
            ctx.check(gl.md5_tree(out + '/c') == {}, 'converted', 'something was converted %s' % what)
            ctx.obs('all_bad_sets')
            ctx.sig(version, 'all', kind, via)
    for name, path in (('missing', 'nowhere'), ('empty', ctx.sub('nofiles'))):
        for via in ('convert', 'read'):
            if via == 'convert':
                _, exc = ctx.call(gemlog.convert, path, SN='123', convertedpath='cc')
            else:
                _, exc = ctx.call(gemlog.read_gem, path, SN='123')
            ctx.check(isinstance(exc, MissingRawFiles), 'exception-type', '%s on a %s folder raised %r' % (via, name, exc))
            ctx.obs('all_bad_sets')


def make():
    c = Check('C08', 'fault injection: %d kinds of damage applied to 1 or more of 2-8 files (first, last or any), converted or '
              'read with various block sizes; the good files\' samples are judged against the true recording, damaged files '
              'must be dropped and reported or agree with the recording as far as they go; sets with no usable file must '
              'raise the documented types; distinct = (format, entry point, damage, first?, partly used?)' % len(KINDS),
              level='fault_enumeration',
              assumptions=['a damaged file that is still read may be used in part; its own samples are judged only for damage '
                           'that leaves its lines intact'],
              need=['bad_files', 'bad_files_partly_used', 'problem_reports_checked', 'all_bad_sets',
                    'windows_compared_with_truth'])
    for v in VERSIONS:
        for via in ('convert', 'read'):
            for g in range(3):
                c.add('%s_%s_%d' % (v, via, g), case_bad_files, version=v, via=via, group=g)
        c.add('all_bad_' + v, case_all_bad, version=v)
    return c
