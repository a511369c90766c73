"""C07 parser rows against an independent line model."""
import os
import re

import numpy as np
import gemlog.parsers as parsers

import scen
from rawgen import MAXLINE, OTHER, build, damaged_line, good_line, overlong
from gemsim import NEW
from mon import Check, pick

INT = rb'[+-]?\d{1,9}'
NUM = rb'[+-]?(?:\d{1,9}(?:\.\d{0,9})?|\.\d{1,9})'
RE_D2 = re.compile(rb'^D(%s),(%s)$' % (NUM, INT))
RE_D1 = re.compile(rb'^D(%s)$' % NUM)
RE_G = re.compile(rb'^G,' + rb','.join([b'(' + NUM + b')'] * 2 + [b'(' + INT + b')'] * 5 + [b'(' + NUM + b')'] * 3) + rb'$')
RE_M = re.compile(rb'^M,' + rb','.join([b'(' + NUM + b')'] * 5 + [b'(' + INT + b')'] * 7) + rb'$')
RE_C = re.compile(rb'^[a-z]{1,2}$')


def numbers_on(line):
    """Every number that some piece of the line spells."""
    out = set()
    s = line.decode('latin-1')
    for i in range(len(s)):
        if s[i] not in '+-.0123456789inIN':
            continue
        for j in range(i + 1, min(len(s), i + 30) + 1):
            q = s[i:j]
            if '_' in q or ' ' in q:
                continue
            try:
                out.add(float(q))
            except ValueError:
                try:
                    out.add(float.fromhex(q)) if 'x' in q.lower() else None
                except (ValueError, OverflowError):
                    pass
    return out


class Model:
    """Walks the lines of a file; for each, what the parser has to return."""

    def __init__(self):
        self.prev = 0.0

    def classify(self, line):
        """-> ('row', type, [values], millis or None), ('none',) or ('free', letters)"""
        if len(line) > MAXLINE + 4:
            return ('none',)
        if line.endswith(b'\r'):
            line = line[:-1]
        m = RE_D2.match(line)
        if m:
            return ('row', b'D', [float(m.group(2))], float(m.group(1)))
        m = RE_D1.match(line)
        if m:
            return ('row', b'D', [float(m.group(1))], 'next')
        m = RE_G.match(line)
        if m:
            v = [float(q) for q in m.groups()]
            return ('row', b'G', v[1:], v[0])
        m = RE_M.match(line)
        if m:
            v = [float(q) for q in m.groups()]
            return ('row', b'M', v[1:], v[0])
        if RE_C.match(line):
            if len(line) == 1:
                return ('row', b'D', [line[0] - 109.0], 'next')
            return ('row', b'D', [line[1] - 109.0], ('step', 10.0 + line[0] - 109))
        c = line[:1]
        if c in (b'G', b'M') and line[1:2] == b',' and line.count(b',') < (10 if c == b'G' else 12):
            return ('none',)
        if c in (b'D', b'G', b'M') or b'a' <= c <= b'z':
            return ('free', c)
        return ('none',)


def near(a, b):
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def compare(ctx, content, values, types, millis, what):
    """Match actual rows with the lines in order. Free lines may or may not give a row."""
    lines = content.split(b'\n')[:-1]            # the last piece is not a complete line
    model = Model()
    n = len(types)

    def row_ok(i, item, p, k):
        if i >= n or bytes(types[i]) != item[1]:
            return False
        v = values[i]
        if not all(near(v[j], x) for j, x in enumerate(item[2])):
            return False
        if any(q != 0 for q in v[len(item[2]):]):
            return False
        m = item[3]
        if isinstance(m, float):
            return near(millis[i], m)
        if not k:
            return True
        step = 10.0 if m == 'next' else m[1]
        return near(millis[i], (p + step) % 2 ** 13)

    items = [model.classify(q) for q in lines]

    def free_row_ok(i, line, it, p, k):
        """May this row come from this doubtful line?"""
        allowed = numbers_on(line)
        t = bytes(types[i])
        width = {b'D': 1, b'G': 9, b'M': 11}.get(t, 0)
        if t != it[1] and not (t == b'D' and b'a' <= it[1] <= b'z'):
            return False
        if it[1] in (b'D', b'G', b'M'):
            if not all(float(x) in allowed for x in values[i][:width]):
                return False
            if float(millis[i]) in allowed:
                return True
            return it[1] == b'D' and (not k or near(millis[i], (p + 10) % 2 ** 13))
        return len(line.rstrip(b'\r')) <= 2

    # depth-first match; only doubtful lines branch
    best = [-1, '']
    stack = [(0, 0, 0.0, True)]
    seen = set()
    done = False
    steps = 0
    while stack and not done:
        li, r, prev, known = stack.pop()
        while True:
            steps += 1
            if li == len(lines):
                if r == n:
                    done = True
                elif r > best[0]:
                    best = [r, 'extra-row', '%d rows more than lines; first extra %s %s millis %r' % (
                        n - r, bytes(types[r]), values[r].tolist(), millis[r])]
                break
            it, line = items[li], lines[li]
            if it[0] == 'row':
                if not row_ok(r, it, prev, known):
                    if li > best[0]:
                        got = 'no more rows' if r >= n else '%s %s millis %r' % (
                            bytes(types[r]).decode(), values[r].tolist(), millis[r])
                        key = 'row'
                        if li and r < n and items[li - 1][0] != 'row':
                            key = 'stray-row'
                        best = [li, key, 'line %d %r should give %s, parser has %s (previous line %r)' % (
                            li + 1, line[:120], it[1:], got, lines[li - 1][:120] if li else b'')]
                    break
                if it[1] == b'D':
                    prev, known = float(millis[r]), True
                r += 1
            elif it[0] == 'free':
                if (li, r) in seen:
                    break
                seen.add((li, r))
                if r < n and free_row_ok(r, line, it, prev, known):
                    if bytes(types[r]) == b'D':
                        stack.append((li + 1, r + 1, float(millis[r]), True))
                    else:
                        stack.append((li + 1, r + 1, prev, known))
            li += 1
    ctx.obs('well_formed_lines', sum(1 for q in items if q[0] == 'row'))
    ctx.obs('free_lines', sum(1 for q in items if q[0] == 'free'))
    ctx.obs('lines_without_a_row', sum(1 for q in items if q[0] == 'none'))
    if not done:
        ctx.bad(best[1], '%s: %s' % (what, best[2]))
        return False
    ctx.obs('rows_matched', n)
    return True


def parse(ctx, content, **kw):
    p = os.path.join(ctx.dir, 'f')
    with open(p, 'wb') as f:
        f.write(content)
    res, exc = ctx.call(parsers.parse_gemfile, p.encode(), **kw)
    if exc is not None:
        ctx.bad('parser-raised', 'parser raised %r on %d lines' % (exc, content.count(b'\n')))
        return None
    return res


def case_random(ctx, style, k):
    rng = ctx.rng
    for rep in range(pick(120, 600)):
        n = int(rng.integers(1, 120))
        kw = {'clean': dict(p_damaged=0, p_over=0, p_other=0.05), 'damaged': dict(p_damaged=0.4),
              'overlong': dict(p_over=0.2), 'crlf': dict(crlf=True, p_over=0), 'sparse': dict(p_other=0.6),
              'compact': dict(kinds='CcdDCCCC'), 'mixed': {}, 'gps': dict(kinds='GM', p_damaged=0.3)}[style]
        s = build(rng, n, **kw)
        res = parse(ctx, s)
        if res is None or not compare(ctx, s, res[0], np.asarray(res[1]), res[2], style):
            return
        ctx.sig(style, k, rep)
    ctx.note('%s: %d files, e.g. %r' % (style, pick(120, 600), s[:80]))


def case_single(ctx, k):
    """One damaged line at every place among good lines; the rest must not change."""
    rng = ctx.rng
    for rep in range(pick(25, 120)):
        good = [good_line(rng) for _ in range(6)]
        bad = damaged_line(rng) if rng.random() < .6 else overlong(rng) if rng.random() < .4 else \
            OTHER[int(rng.integers(len(OTHER)))]
        for i in range(7):
            s = b'\n'.join(good[:i] + [bad] + good[i:]) + b'\n'
            res = parse(ctx, s)
            if res is None or not compare(ctx, s, res[0], np.asarray(res[1]), res[2], 'inserted line'):
                return
        # and truncation at every byte
        s = b'\n'.join(good[:4]) + b'\n'
        for i in range(len(s) + 1):
            res = parse(ctx, s[:i])
            if res is None or not compare(ctx, s[:i], res[0], np.asarray(res[1]), res[2], 'truncated file'):
                return
        ctx.sig(k, rep, bad[:20])


def case_logger(ctx, version):
    """Whole logger files, undamaged and damaged at random places."""
    rng = ctx.rng
    for rep in range(pick(3, 10)):
        lg = scen.logger(rng, version)
        f = lg.record(0, 25.0, compact_mix=float(rng.random()))
        s = f.text().encode()
        res = parse(ctx, s)
        if res is None or not compare(ctx, s, res[0], np.asarray(res[1]), res[2], version):
            return
        if len([q for q in f.kinds if q in 'DGM']) != len(res[2]):
            ctx.bad('row', '%s: logger wrote %d rows, parser returned %d' % (
                version, len([q for q in f.kinds if q in 'DGM']), len(res[2])))
            return
        for _ in range(6):
            b = bytearray(s)
            for _ in range(int(rng.integers(1, 30))):
                c = int(rng.integers(256))
                b[int(rng.integers(len(b)))] = c if c != 13 else 14
            b = bytes(b)[:int(rng.integers(len(b) // 2, len(b)))]
            res = parse(ctx, b)
            if res is None or not compare(ctx, b, res[0], np.asarray(res[1]), res[2], version + ' damaged'):
                return
        ctx.sig(version, rep)


def case_rows(ctx):
    """Row limit: files up to n_row rows are returned whole, longer ones raise; never cut silently."""
    rng = ctx.rng
    for n in (1, 2, 7, 50, 333):
        s = b'\n'.join(good_line(rng) for _ in range(n)) + b'\n'
        for n_row in (n - 1, n, n + 1, 4 * n):
            p = os.path.join(ctx.dir, 'f')
            open(p, 'wb').write(s)
            res, exc = ctx.call(parsers.parse_gemfile, p.encode(), n_row=n_row)
            if n_row < n:
                ctx.check(exc is not None, 'cut-silently', '%d rows with n_row=%d returned %s rows' % (
                    n, n_row, None if res is None else len(res[2])))
            elif ctx.check(exc is None, 'parser-raised', '%r with %d rows, n_row=%d' % (exc, n, n_row)):
                compare(ctx, s, res[0], np.asarray(res[1]), res[2], 'n_row=%d' % n_row)
            ctx.sig(n, n_row)


def make():
    c = Check('C07', 'generated files of well-formed, damaged, foreign and overlong lines (and whole logger files damaged at '
              'random places or truncated at every byte) parsed by the compiled parser; every returned row is matched in '
              'order with an independent strict line model; lines whose form is neither clearly valid nor clearly '
              'invalid may give a row only with numbers spelled on that line; distinct = generated file',
              assumptions=['line grammar: the D, G, M and compact forms of the format documentation, numbers of up to nine '
                           'digits, lines up to 250 characters'],
              need=['rows_matched', 'well_formed_lines', 'free_lines'])
    for st in ('clean', 'damaged', 'overlong', 'crlf', 'sparse', 'compact', 'mixed', 'gps'):
        for k in range(pick(2, 6)):
            c.add('%s_%d' % (st, k), case_random, style=st, k=k)
    for k in range(pick(4, 12)):
        c.add('single_%d' % k, case_single, k=k)
    for v in NEW:
        c.add('logger_%s' % v, case_logger, version=v)
    c.add('rows', case_rows)
    return c
