"""C10 gem_cat merges files without changing the recording."""
import importlib
import os
import re

import numpy as np
import gemlog

import gl
import scen
from gemsim import VERSIONS, iso
from mon import Check, pick

gc = importlib.import_module('gemlog.gem_cat')

FULL = re.compile(r'^D(\d+),(-?\d+)$')
ONE = re.compile(r'^D(-?\d+)$')
OLD = re.compile(r'^D,(\d+),(-?\d+)$')
SHORT = re.compile(r'^[a-y]{1,2}$')


def samples(lines, version):
    """(ms, count) of every data line; an independent reading of the format description."""
    roll = 2 ** 16 if version in ('0.8', '0.85') else 2 ** 13
    ms, n, out = None, 0, []
    for q in lines:
        if version in ('0.8', '0.85'):
            m = OLD.match(q)
            if m:
                out.append((int(m[1]), int(m[2])))
            continue
        m = FULL.match(q)
        if m:
            ms, n = int(m[1]), n + int(m[2])
        elif ONE.match(q):
            ms, n = (ms + 10) % roll, n + int(ONE.match(q)[1])
        elif SHORT.match(q):
            d = 10 + (ord(q[0]) - 109 if len(q) == 2 else 0)
            ms, n = (ms + d) % roll, n + ord(q[-1]) - 109
        else:
            continue
        out.append((ms, n))
    return np.array(out, dtype=np.int64).reshape(-1, 2)


def is_data(q, version):
    return q[:1] == 'D' or (version == '1.10' and bool(SHORT.match(q)))


def text_lines(path):
    b = open(path, 'rb').read().decode('latin1')
    full = b.split('\n')
    return full[:-1], full[-1]            # complete lines, unterminated rest


def case_cat(ctx, version, via):
    rng = ctx.rng
    for rep in range(pick(8, 40)):
        d, out = ctx.sub('raw%d' % rep), os.path.join(ctx.dir, 'out%d' % rep, 'x')
        lg = scen.logger(rng, version, drift=float(rng.uniform(-2e-5, 2e-5)), quad=0)
        n = int(rng.integers(2, 9))
        gps = [bool(q) for q in rng.random(n) < float(rng.choice([0.3, 0.5, 0.8]))]
        if not any(gps):
            gps[int(rng.integers(n))] = True
        trunc = bool(rng.random() < 0.35)
        conv = bool(rng.random() < 0.35)                 # a pattern whose merged files can be converted accurately
        if conv:
            gps = [True] + [q for k in range(n // 2) for q in (False, True)]
            n, trunc = len(gps), False
        files, num, cont = [], scen.first_number(rng), [True]
        for i in range(n):
            dur = float(rng.uniform(3, 12)) if not gps[i] else float(rng.uniform(21, 30))
            f = lg.record(num, round(dur, 2), gps='normal' if gps[i] else ['none', 'searching'][int(rng.integers(2))], compact_mix=float(rng.choice([1, .5, 0])))
            files.append(f)
            num += 1 + (int(rng.integers(1, 5)) if rng.random() < 0.1 else 0)
            if rng.random() < 0.2 and not conv:
                lg.skip(float(rng.uniform(0.5, 3000)), restart=bool(rng.random() < 0.4))
        orig = []
        for f in files:
            p = f.write(d)
            if trunc and rng.random() < 0.5:
                b = f.text().encode()
                k = len(b) - int(rng.integers(1, 60))
                open(p, 'wb').write(b[:k])
            orig.append(text_lines(p)[0])
        before = gl.md5_tree(d)
        cat_all = via == 'cat_all'
        what = '[%s %s gps %s%s]' % (version, via, ''.join('01'[q] for q in gps), ' truncated ends' if trunc else '')
        if via == 'main':
            argv = ['-i', d, '-o', out] + (['-e', 'TXT' if version == '0.8' else lg.SN] if rng.random() < 0.5 else [])
            _, exc = ctx.call(gc.main, argv)
            ok = exc is None and 'failed' not in ctx.out
        else:
            ext = ['', 'TXT' if version == '0.8' else lg.SN][int(rng.integers(2))]
            _, exc = ctx.call(gc.gem_cat, d, out, ext, cat_all=cat_all)
            ok = exc is None
        if not ctx.check(ok, 'failed', 'gem_cat failed: %r %s %s' % (exc, ctx.out[-300:], what)):
            return
        ctx.check(gl.md5_tree(d) == before, 'originals', 'the originals were changed %s' % what)
        first = 0 if cat_all else gps.index(True)
        names = sorted(os.listdir(out))
        if cat_all:
            want = ['FILE9999.' + lg.SN]
        else:                   # a new file starts at each file with GPS that follows a file with GPS
            starts = [k for k in range(first, n) if gps[k] and (k == first or gps[k - 1])]
            want = ['FILE%04d.%s' % (k, lg.SN) for k in range(len(starts))]
        ctx.check(names == want, 'names', 'merged files are %s, expected %s %s' % (names, want, what))
        # every data line exactly once and in order: same counts and millisecond steps
        truth = [samples(orig[k], version) for k in range(first, n)]
        got = [samples(text_lines(os.path.join(out, q))[0], version) for q in names]
        a, b = np.concatenate(truth), np.concatenate(got)
        if not ctx.check(len(a) == len(b), 'line-count', '%d data lines merged into %d %s' % (len(a), len(b), what)):
            return
        k = np.flatnonzero((a != b).any(1))
        if not ctx.check(len(k) == 0, 'samples', 'sample %d of %d is (ms, count) %s, was %s %s' % (
                len(k) and k[0], len(a), len(k) and b[k[0]].tolist(), len(k) and a[k[0]].tolist(), what)):
            return
        ctx.obs('samples_compared', len(a))
        ctx.obs('joins', n - first - len(names))
        # the other lines too, and each output begins with a file that has GPS
        body = lambda L: [q for q in L if not q.startswith(('#', 'S,', 'C,')) and not is_data(q, version)]
        la = [q for k in range(first, n) for q in body(orig[k])]
        lb = [q for f in names for q in body(text_lines(os.path.join(out, f))[0])]
        ctx.check(la == lb, 'other-lines', 'GPS or metadata lines lost, changed or reordered (%d -> %d) %s' % (len(la), len(lb), what))
        if not cat_all:
            pos = 0
            for f, g in zip(names, got):
                # which original does it start with?
                L = text_lines(os.path.join(out, f))[0]
                cum = np.cumsum([0] + [len(q) for q in truth])
                i = int(np.searchsorted(cum, pos))
                ctx.check(i < len(truth) and cum[i] == pos and gps[first + i], 'start', '%s does not start with a file that '
                          'had GPS %s' % (f, what))
                ctx.check(L[:files[first + i].header_len] == files[first + i].lines[:files[first + i].header_len],
                          'header', '%s does not keep the header %s' % (f, what))
                pos += len(g)
                # the parser reads the merged file as that many samples
                rd, exc = ctx.call(gemlog.core._read_single, os.path.join(out, f), require_gps=False,
                                   version=version if version in ('0.8', '0.85') else '0.9')
                if ctx.check(exc is None, 'unreadable', 'merged file %s cannot be read: %r %s' % (f, exc, what)):
                    ctx.check(np.array_equal(np.asarray(rd['data'][:, 1]).astype(np.int64), g[:, 1]), 'read-back',
                              '%s reads back differently %s' % (f, what))
        if conv and not cat_all:
            trs = ctx.must('convert-merged', gemlog.read_gem, out, SN=lg.SN)['data']
            if not gl.judge(ctx, 'merged', list(trs), files[first:], lg.wave, max_dt=3e-3, joints=10 ** 9):
                ctx.viol[-1]['msg'] += ' ' + what
                return
            ctx.obs('merged_sets_converted')
        ctx.sig(version, via, gps, trunc)


def make():
    c = Check('C10', 'random sequences of 2-9 raw files with and without GPS (all formats, all line forms, pauses, restarts, '
              'ends cut off in mid-line) merged by gem_cat, its command line and cat_all; data lines before and after are '
              'read by an independent reader of the format and compared one to one; merged files that are well covered by '
              'GPS are converted and judged against the true recording; distinct = (format, entry point, GPS pattern, cut '
              'ends)',
              assumptions=['an unterminated last line is not a data line',
                           'merged files are converted when files with GPS enclose the others'],
              need=['samples_compared', 'joins', 'merged_sets_converted', 'windows_compared_with_truth'])
    for v in VERSIONS:
        for via in ('function', 'main', 'cat_all'):
            for k in range(pick(1, 3)):
                c.add('%s_%s%s' % (v, via, k or ''), case_cat, version=v, via=via)
    return c
