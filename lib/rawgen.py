"""Generators of raw-file bytes: well-formed, foreign, damaged and overlong lines."""
import numpy as np

MAXLINE = 250            # longer lines are overlong (the line buffer holds 256)


def rnum(rng, lo, hi, nd=None):
    nd = int(rng.integers(0, 6)) if nd is None else nd
    x = float(rng.uniform(lo, hi))
    return b'%d' % int(x) if nd == 0 else ('%.*f' % (nd, x)).encode()


def good_line(rng, kinds='DGMCcd'):
    k = kinds[int(rng.integers(len(kinds)))]
    if k == 'D':
        return b'D%d,%d' % (rng.integers(0, 8192), rng.choice([rng.integers(-12, 13), rng.integers(-40000, 40000),
                                                              rng.integers(-2 ** 27, 2 ** 27)]))
    if k == 'd':
        return b'D%d' % rng.choice([rng.integers(-30, 30), rng.integers(-10 ** 6, 10 ** 6)])
    if k == 'C':
        return bytes([rng.integers(97, 122), rng.integers(97, 122)])
    if k == 'c':
        return bytes([rng.integers(97, 123)])
    if k == 'G':
        return b'G,%s,%s,%d,%d,%d,%d,%d,%s,%s,%s' % (
            rnum(rng, 0, 8191), rnum(rng, 0, 1000), rng.integers(2000, 2040), rng.integers(0, 13), rng.integers(0, 32),
            rng.integers(0, 24), rng.integers(0, 60), rnum(rng, 0, 60, 1), rnum(rng, -90, 90, 5), rnum(rng, -180, 180, 5))
    return b'M,%s,%s,%s,%s,%s,%d,%d,%d,%d,%d,%d,%d' % (
        rnum(rng, 0, 8191, 0), rnum(rng, 0, 9, 2), rnum(rng, -40, 60, 1), rnum(rng, 0, 3, 3), rnum(rng, 0, 3, 3),
        *rng.integers(0, 500, 7))


OTHER = [b'', b'#GemCSV1.10', b'#comment,1,2,3', b'P,8171.25', b'R,0,$GPRMC,091422.000,A,4331.5,N,11603.8,W,0.35,322.3',
         b'S,123', b'C,1,15,20,0,0,0', b'E', b'0,1,2', b'$GPGGA', b' D10,5', b'\x00', b'\xff\xfe\xfd', b'X' * 100,
         b'Z,1', b',', b'-5', b'{', b'`', b'~', b'\t', b'\x80' * 40, b'\x00' * 30 + b'D5,6', b'd\xe9']


def damaged_line(rng):
    g = good_line(rng, 'DGM' if rng.random() < .8 else 'DGMCcd')
    k = int(rng.integers(6))
    if k == 0 or len(g) < 3:                                     # cut short
        return g[:int(rng.integers(1, max(2, len(g))))]
    if k == 1:                                                   # bytes overwritten
        b = bytearray(g)
        for _ in range(int(rng.integers(1, 4))):
            c = int(rng.integers(256))
            b[int(rng.integers(1, len(b)))] = c if c not in (10, 13) else 33
        return bytes(b)
    if k == 2:                                                   # two lines run together
        h = good_line(rng)
        return g[:int(rng.integers(1, len(g)))] + h
    if k == 3:                                                   # a field lost
        p = g.split(b',')
        if len(p) > 1:
            del p[int(rng.integers(1, len(p)))]
        return b','.join(p)
    if k == 4:                                                   # a field emptied
        p = g.split(b',')
        p[int(rng.integers(len(p) > 1, len(p)))] = b''
        return b','.join(p)
    return g + bytes(rng.integers(33, 127, int(rng.integers(1, 40))).astype(np.uint8))


def overlong(rng):
    n = int(rng.choice([252, 253, 254, 255, 256, 257, 300, 508, 509, 510, 511, 512, 600, 765, 5000]))
    n = max(n, MAXLINE + 5)
    s = b''
    while len(s) < n:
        s += rng.choice([b'x', b',', b'D', b'7', b'm', b'G,1', good_line(rng)])
    s = s[:n]
    if rng.random() < .5:           # pieces that would look like data if the line were split in the buffer
        cut = int(rng.choice([254, 255, 256]))
        if cut < n:
            s = s[:cut] + good_line(rng) + s[cut:]
    return rng.choice([b'#', b'R', b'D', b'G,', b'm']) + s.replace(b'\n', b'')


def build(rng, n, p_other=0.1, p_damaged=0.1, p_over=0.02, crlf=False, kinds='DGMCcd'):
    out = []
    for _ in range(n):
        u = rng.random()
        if u < p_other:
            out.append(OTHER[int(rng.integers(len(OTHER)))])
        elif u < p_other + p_damaged:
            out.append(damaged_line(rng))
        elif u < p_other + p_damaged + p_over:
            out.append(overlong(rng))
        else:
            out.append(good_line(rng, kinds))
    end = b'\r\n' if crlf else b'\n'
    s = end.join(out) + end
    k = rng.random()
    if k < 0.3:
        s = s[:-len(end)]                      # no newline at the end: the last line is not complete
    elif k < 0.6:
        s = s[:int(rng.integers(len(s)))]      # power loss in the middle of a line
    return s.replace(b'\n\r', b'\n')
