"""Small domains gone through completely, block by block: every check that reads or writes values takes all the blocks once."""
import struct
from datetime import datetime, timedelta
from .gen import days_in, utc_in_range
from .model import *


def _ints(i, r):
    return [V(INT, n if sign else -n) for n in range(i * 512, (i + 1) * 512) for sign in (0, 1)]


COEFFICIENTS = list(range(0, 132)) + [254, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 2 ** 31 - 1, 2 ** 31,
                                      2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 19, 10 ** 27, 10 ** 28 - 1, 10 ** 28, 10 ** 28 + 1]


def _decimals(i, r):
    e = i - 70
    return [V(DECIMAL, (neg, c, e)) for c in COEFFICIENTS for neg in (False, True)]


def _floats(i, r):
    out = []
    for e in range(i * 64, (i + 1) * 64):
        for m in (0, 1, (1 << 52) - 1, 1 << 51, 1 << 29, (1 << 52) - (1 << 29), r.getrandbits(52)):
            if e == 2047 and m:
                continue
            out.append(V(FLOAT, struct.unpack('>d', struct.pack('>Q', r.getrandbits(1) << 63 | e << 52 | m))[0]))
    return out


def _offsets(i, r):
    out = []
    for off in range(max(-1439, i * 96 - 1440), min(1440, i * 96 - 1344)):
        v = (r.choice([MINUTE, SECOND]), 2004, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), 0, None, off)
        out.append(V(TIMESTAMP, v))
    return out


def _days(i, r):
    out = []
    for k in range(i * 61, (i + 1) * 61):
        x = datetime(2000, 1, 1) + timedelta(days=k)
        out.append(V(TIMESTAMP, (DAY, x.year, x.month, x.day, 0, 0, 0, None, None)))
        out.append(V(TIMESTAMP, (MINUTE, x.year, x.month, x.day, r.randint(0, 23), r.randint(0, 59), 0, None, r.choice([None, 0, 60, -60]))))
    return out


def _times(i, r):
    """All seconds of an hour and all thousandths."""
    out = []
    for k in range(i * 100, (i + 1) * 100):
        out.append(V(TIMESTAMP, (SECOND, 1999, 12, 31, 23, k // 60 % 60, k % 60, None, 0)))
        if k < 1000:
            out.append(V(TIMESTAMP, (SECOND, 1970, 1, 1, 0, 0, k % 60, (k, 3), 0)))
            out.append(V(TIMESTAMP, (SECOND, 1970, 1, 1, 0, 0, 59, (k, r.randint(4, 12)), None)))
    return out


def _years(i, r):
    return [V(TIMESTAMP, (YEAR, y, 1, 1, 0, 0, 0, None, None)) for y in range(max(1, i * 500), (i + 1) * 500)]


def _lengths(i, r):
    out = []
    for n in range(i * 20, (i + 1) * 20):
        out.append(V(STRING, 'a' * n))
        out.append(V(r.choice([CLOB, BLOB]), b'x' * n))
        out.append(V(r.choice([LIST, SEXP]), [V(INT, k % 3) for k in range(n)]))
        out.append(V(STRUCT, [('f%d' % (k % 5), V(BOOL, k % 2 == 0)) for k in range(n)]))
        if n:
            out.append(V(INT, (1 << n * 8 - 1) - r.randint(0, 1)))
            out.append(V(INT, -(1 << n * 8) + r.randint(0, 1)))
    return out


def _points(i, r):
    """Every code point, alone in a string in the low range."""
    cs = [c for c in range(i * 2048, (i + 1) * 2048) if not 0xd800 <= c < 0xe000]
    if i == 0:
        return [V(STRING, chr(c)) for c in cs] + [V(STRING, ''.join([chr(c) for c in cs]))]
    return [V(STRING, ''.join([chr(c) for c in cs[k:k + 64]])) for k in range(0, len(cs), 64)]


def _symbols(i, r):
    """Symbols of one and two ASCII characters."""
    out = []
    a = chr(i)
    for b in range(-1, 128):
        s = a if b < 0 else a + chr(b)
        out.append(V(SYMBOL, s))
        if b % 16 == 0:
            out.append(V(STRUCT, [(s, V(NULL, None, (s,)))]))
    return out


def _octets(i, r):
    """Lobs of one and two octets."""
    return [V(t, bytes([i]) + (bytes([b]) if b >= 0 else b'')) for b in range(-1, 256) for t in (CLOB, BLOB)]


GRIDS = [('ints', _ints, 40), ('decimals', _decimals, 141), ('floats', _floats, 32), ('offsets', _offsets, 30), ('days', _days, 24), ('times', _times, 36),
         ('years', _years, 20), ('lengths', _lengths, 16), ('points', _points, 544), ('symbols', _symbols, 128), ('octets', _octets, 256)]
TOTAL = sum(n for _, _, n in GRIDS)


def block(i, r):
    """The name and the values of the i-th block."""
    i %= TOTAL
    for name, f, n in GRIDS:
        if i < n:
            return '%s %d' % (name, i), [v for v in f(i, r) if v.t != TIMESTAMP or utc_in_range(v.v)] or [V(NULL)]
        i -= n
