"""Runs in its own process on one build of the parser.

  parsefuzz.py fuzz <so> <seed> <seconds> <dir>     coverage-guided loop; result in <dir>/result.json
  parsefuzz.py digest <so> <listfile> <out>         digest of every listed file, in the listed order
The input being parsed is always in <dir>/cur (and its n_row in <dir>/cur.n) so that a crash can be replayed.
"""
import ctypes
import hashlib
import importlib.machinery
import importlib.util
import json
import os
import resource
import sys
import time

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rawgen


def load(so):
    spec = importlib.util.spec_from_file_location('parsers', so,
                                                  loader=importlib.machinery.ExtensionFileLoader('parsers', so))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def digest(res):
    h = hashlib.sha1()
    for a in res:
        a = np.ascontiguousarray(a)
        h.update(repr((a.dtype.str, a.shape)).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:16]


def one(m, path, n_row=None):
    try:
        res = m.parse_gemfile(path.encode(), n_row) if n_row is not None else m.parse_gemfile(path.encode())
    except SystemError as e:
        return None, 'SystemError %s' % e
    except Exception as e:
        return None, type(e).__name__
    return res, digest(res)


def nfd():
    return len(os.listdir('/proc/self/fd'))


def mutate(rng, s, pool):
    b = bytearray(s)
    for _ in range(int(rng.integers(1, 6))):
        k = int(rng.integers(10))
        n = len(b)
        if n == 0:
            b += rawgen.good_line(rng) + b'\n'
            continue
        i = int(rng.integers(n))
        if k == 0:
            b[i] = int(rng.integers(256))
        elif k == 1:
            b[i] = int(rng.choice([0, 10, 13, 44, 48, 57, 68, 71, 77, 97, 109, 122, 45, 46, 101, 110, 105, 255]))
        elif k == 2:
            j = min(n, i + int(rng.integers(1, 40)))
            del b[i:j]
        elif k == 3:
            b[i:i] = bytes(rng.integers(0, 256, int(rng.integers(1, 20))).astype(np.uint8))
        elif k == 4:
            b[i:i] = rng.choice([b'9' * 30, b'-', b'1e308', b'nan', b'inf', b'0x1p1023', b',,,,', b'99999999999999999999',
                                 b'-9223372036854775809', b'2147483648', b'%d%s%n', b'\n', b'\x00', b'1e-400'])
        elif k == 5:
            o = pool[int(rng.integers(len(pool)))]
            if len(o):
                j = int(rng.integers(len(o)))
                b[i:i] = o[j:j + int(rng.integers(1, 300))]
        elif k == 6:
            b = b[:i]
        elif k == 7:
            j = min(n, i + int(rng.integers(1, 300)))
            b[i:i] = b[i:j] * int(rng.integers(1, 8))
        elif k == 8:
            b[i:i] = rawgen.good_line(rng) + b'\n'
        else:
            b[i:i] = bytes([int(rng.integers(33, 127))]) * int(rng.choice([1, 200, 254, 255, 256, 257, 511, 512]))
        if len(b) > 20000:
            b = b[:20000]
    return bytes(b)


def fuzz(so, seed, seconds, d):
    rng = np.random.default_rng(seed)
    m = load(so)
    lib = ctypes.CDLL(so)
    cov = None
    if hasattr(lib, 'vp_cov'):
        cov = np.ctypeslib.as_array((ctypes.c_uint8 * 65536).in_dll(lib, 'vp_cov'))
        edges = ctypes.c_uint32.in_dll(lib, 'vp_cov_n').value
    seen = np.zeros(65536, np.uint8)
    bucket = np.array([0, 1, 2, 3] + [4] * 4 + [5] * 8 + [6] * 16 + [7] * 96 + [8] * 128, np.uint8)
    pool = [b'', rawgen.build(rng, 20), rawgen.build(rng, 60)]
    kept, problems, execs, raised, rows, rechecks = {}, [], 0, 0, 0, 0
    excs = {}
    cur = os.path.join(d, 'cur')
    t_end = time.time() + seconds
    old = None
    fd0 = None
    rss = []
    while time.time() < t_end and len(problems) < 5:
        u = rng.random()
        if u < 0.3:
            s = rawgen.build(rng, int(rng.integers(0, 60)), p_over=0.1, crlf=rng.random() < .1)
        elif u < 0.34:
            s = bytes(rng.integers(0, 256, int(rng.integers(0, 3000))).astype(np.uint8))
        else:
            s = mutate(rng, pool[int(rng.integers(len(pool)))], pool)
        n_row = int(rng.choice([400, 400, 400, 400, 2000, 50, 7, 1, 0]))
        if execs % 400 == 399:
            n_row = None
        with open(cur, 'wb') as f:
            f.write(s)
        with open(cur + '.n', 'w') as f:
            f.write(str(n_row))
        if cov is not None:
            cov[:] = 0
        res, dg = one(m, cur, n_row)
        execs += 1
        if cov is not None:
            b = bucket[cov]
            if (b > seen).any():
                seen = np.maximum(seen, b)
                if len(s) < 20000:
                    pool.append(s)
        if res is None:
            raised += 1
            excs[dg.split()[0]] = excs.get(dg.split()[0], 0) + 1
            if dg.startswith('SystemError'):
                problems.append(['system-error', dg, s[:300].hex()])
        else:
            rows += len(res[2])
            if len(res[2]) > max(1, len(s)):
                problems.append(['too-many-rows', '%d rows from %d bytes' % (len(res[2]), len(s)), s[:300].hex()])
        # an earlier result must not change when other files are parsed
        if old is not None:
            if digest(old[0]) != old[1]:
                problems.append(['result-changed-later', 'arrays returned by an earlier call changed', old[2][:300].hex()])
                old = None
        if old is None or execs % 7 == 0:
            old = (res, dg, s) if res is not None else old
        # the same bytes must give the same answer whatever was parsed in between
        key = (hashlib.sha1(s).digest(), n_row)
        if key in kept and kept[key][1] != dg:
            problems.append(['not-deterministic', '%s then %s' % (kept[key][1], dg), s[:300].hex()])
        if len(kept) < 3000 and n_row is not None:
            kept[key] = (s, dg)
        if execs % 3 == 0 and kept:
            ks = list(kept)[int(rng.integers(len(kept)))] if execs % 30 == 0 else key
            if ks[1] is not None and ks in kept:
                with open(cur, 'wb') as f:
                    f.write(kept[ks][0])
                with open(cur + '.n', 'w') as f:
                    f.write(str(ks[1]))
                _, dg2 = one(m, cur, ks[1])
                rechecks += 1
                if dg2 != kept[ks][1]:
                    problems.append(['not-deterministic', 'same file parsed twice: %s then %s' % (kept[ks][1], dg2),
                                     kept[ks][0][:300].hex()])
        if fd0 is None and execs > 20:
            fd0 = nfd()
        elif fd0 is not None:
            if nfd() > fd0:
                problems.append(['file-left-open', 'after parsing (result %s) one more file is open' % dg, s[:300].hex()])
                fd0 = nfd()
        if execs % 500 == 0:
            rss.append(int(open('/proc/self/statm').read().split()[1]) * 4096)
    out = dict(execs=execs, raised=raised, exceptions=excs, rows=rows, rechecks=rechecks, pool=len(pool),
               edges=int((seen > 0).sum()), edges_total=int(edges) if cov is not None else 0, problems=problems, rss=rss,
               distinct=len(kept))
    with open(os.path.join(d, 'result.json'), 'w') as f:
        json.dump(out, f)
    with open(os.path.join(d, 'pool.bin'), 'wb') as f:
        import pickle
        pickle.dump(pool[-300:], f)


def misuse(so, d):
    """Arguments that are not a readable raw file: an exception, never a crash."""
    m = load(so)
    out = []
    p = os.path.join(d, 'ok')
    open(p, 'wb').write(b'D1,2\nD2,3\n')
    for args in ((b'/nonexistent/file',), (d.encode(),), (b'',), (p,), (None,), (3,), (p.encode(), -1), (p.encode(), 0),
                 (p.encode(), 1), (p.encode(), 'x'), (p.encode(), None), (p.encode() + b'\x00z',), (), (bytearray(p.encode()),),
                 (p.encode() * 300,), (b'/dev/null',)):
        before = nfd()
        try:
            r = m.parse_gemfile(*args)
            out.append([repr(args)[:80], 'returned %d rows' % len(r[2])])
        except SystemError as e:
            out.append([repr(args)[:80], 'SystemError'])
        except Exception as e:
            out.append([repr(args)[:80], type(e).__name__])
        if nfd() != before:
            out.append([repr(args)[:80], 'LEAK'])
    json.dump(out, open(os.path.join(d, 'result.json'), 'w'))


if __name__ == '__main__':
    mode = sys.argv[1]
    if mode == 'fuzz':
        fuzz(sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5])
    elif mode == 'misuse':
        misuse(sys.argv[2], sys.argv[3])
    elif mode == 'digest':
        m = load(sys.argv[2])
        out = {}
        for line in open(sys.argv[3]):
            path, n = line.rstrip('\n').split('\t')
            _, dg = one(m, path, None if n == 'None' else int(n))
            out['%s\t%s' % (os.path.basename(path), n)] = dg
        json.dump(out, open(sys.argv[4], 'w'))
