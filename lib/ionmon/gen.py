"""Random Ion values with hostile distributions."""
import calendar
import datetime
from .model import *

ASCII_WORDS = ['a', 'b', 'c', 'name', 'version', 'imports', 'symbols', 'max_id', 'foo', 'bar_baz', '$', '_', '$x', '_1',
               'abc', 'x1', 'A', 'Z9', '$ion', 'nullx', 'trueish', 'infinity', 'nano', 'e', 'd', 'T', 'inf', 'null_',
               'n', 't', 'f', 'in', 'na', 'nu', 'tr', 'fa', 'i', 'nul', 'tru', 'fals', 'nanx', 'falsey', '$a1']
TRICKY_WORDS = ['', ' ', 'null', 'true', 'false', 'nan', '+inf', '-inf', 'null.int', 'null.null', '$0', '$10', '$99',
                '$1a', '$ion_1_1', '$ion_2_0', '$ion_', '1', '-1', '1.0', '2001T', '+', '-', '/', '//', '/*', '*/', '::', ':', ',',
                "'", "''", "'''", '"', '\\', '\\n', '\n', '\r', '\r\n', '\t', '\x00', '\x07', '\x1f', '\x7f', '\x80', '\x85',
                '\xa0', '\xff', '\u0100', '\u2028', '\u2603', '\ud7ff', '\ue000', '\ufeff', '\uffff', '\U00010000', '\U0001f600',
                '\U0010ffff', 'a b', 'a\tb', 'a.b', 'a-b', 'a:b', '{', '}', '[', ']', '(', ')', '{{', '}}', '\u00e9', 'e\u0301',
                '\x0b', '\x0c', '\x08', '\x1b', '?', 'a/*b*/c', '$ion_shared_symbol_table', '$ion_symbol_tables', '%', '@', '#', '!x', '<=',
                '\u0664', 'a\u0664', '\u212a', '\u00aa', '$\u0661']
OPERATORS = ['!', '#', '%', '&', '*', '+', '-', '.', '/', ';', '<', '=', '>', '?', '@', '^', '`', '|', '~', '<=', '>=', '==',
             '!=', '&&', '||', '->', '...', '**', '<<', '+-', '-+', '!-', '.+', '%%', '*-', '@@', '?.', '~~', '-.', '+.', '`|']
CHARS = (list(range(0x20, 0x7f)) * 2 + list(range(0, 0x20)) + list(range(0x7f, 0x100)) +
         [0x100, 0x3a9, 0x7ff, 0x800, 0x2028, 0x2029, 0x20ac, 0x3042, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff,
          0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff])
CLUSTERS = list('\n\n\r\t\'\'"\\ /*{}:0n\x00\x7f\x80\u2028\U0001f600')
LENGTHS = [0, 1, 2, 3, 7, 8, 11, 12, 13, 14, 15, 16, 63, 64, 65, 126, 127, 128, 129, 255, 256]


def days_in(year, month):
    return calendar.monthrange(year, month)[1]


def _ordinal_minutes(y, mo, d, h, mi):
    days = (y - 1) * 365 + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400
    for m in range(1, mo):
        days += days_in(y, m)
    return ((days + d - 1) * 24 + h) * 60 + mi


MAX_MINUTES = _ordinal_minutes(9999, 12, 31, 23, 59)


def utc_in_range(ts):
    """Whether the UTC form of a timestamp lies within the years 1 to 9999."""
    p, y, mo, d, h, mi, s, f, off = ts
    if not off:
        return True
    m = _ordinal_minutes(y, mo, d, h, mi) - off
    return 0 <= m <= MAX_MINUTES


def shifted(ts, off):
    """The same instant with another offset."""
    p, y, mo, d, h, mi, s, f, old = ts
    try:
        t = datetime.datetime(y, mo, d, h, mi) + datetime.timedelta(minutes=off - (old or 0))
    except OverflowError:
        return ts
    return (p, t.year, t.month, t.day, t.hour, t.minute, s, f, off)


def twin(r, x, p=0.8):
    """A value that Python or the data model may well call equal to x, and that is another one."""
    t, v, ann = x.t, x.v, x.ann
    if ann and r.random() < 0.1:
        ann = ()
    if v is None:
        return V(r.choice([t, NULL, INT, STRING, LIST]) if r.random() < p else t, None, ann)
    if t in (LIST, SEXP):
        return V(r.choice([LIST, SEXP]), [twin(r, c, p) for c in v], ann)
    if t == STRUCT:
        return V(t, [(n, twin(r, c, p)) for n, c in v], ann)
    if r.random() >= p:
        return V(t, v, ann)
    if t == BOOL:
        t, v = r.choice([(INT, int(v)), (FLOAT, float(v)), (DECIMAL, (False, int(v), 0))])
    elif t == INT:
        forms = [(DECIMAL, (v < 0, abs(v), 0)), (DECIMAL, (v < 0, abs(v) * 10, -1))]
        if abs(v) < 2 ** 53:
            forms += [(FLOAT, float(v))] * 2
        if v in (0, 1):
            forms += [(BOOL, v == 1)] * 2
        t, v = r.choice(forms)
    elif t == FLOAT:
        if v == 0:
            v = -v
        elif v == v and abs(v) < 1e15 and v == int(v):
            t, v = INT, int(v)
    elif t == DECIMAL:
        n, c, e = v
        if c == 0 and r.random() < 0.7:
            v = (not n, 0, e) if r.random() < 0.5 else (n, 0, e + r.choice([-3, -1, 1, 2]))
        elif abs(e) < 5000 and c < 10 ** 50:
            v = (n, c * 10, e - 1) if c % 10 or r.random() < 0.5 else (n, c // 10, e + 1)
    elif t == TIMESTAMP:
        q, y, mo, d, h, mi, s, f, off = v
        z = r.random()
        if off is not None and z < 0.6:
            w = shifted(v, r.choice([0, 60, -60, 180, 330, -480, 1, 839]))
            v = w if utc_in_range(w) else v
        elif q == SECOND and z < 0.8:
            v = v[:7] + ((0, r.choice([1, 3, 6, 7])) if f is None else (f[0] * 10, f[1] + 1), off)
        elif off in (0, None) and q >= MINUTE:
            v = v[:8] + (0 if off is None else None,)
        elif q == YEAR or (q == MONTH and d == 1):
            v = (q + 1,) + v[1:]
    elif t in (SYMBOL, STRING) and isinstance(v, str):
        if len(v) > 12 and r.random() < 0.6:
            v = inside(r, v, 'aZ')
        else:
            t = r.choice([SYMBOL, STRING])
    elif t in (CLOB, BLOB):
        if len(v) > 12 and r.random() < 0.6:
            v = inside(r, v, (b'a', b'Z'))
        else:
            t = r.choice([CLOB, BLOB])
    return V(t, v, ann)


def inside(r, v, pair):
    """The same sequence with one element changed, most often in the middle."""
    i = len(v) // 2 if r.random() < 0.6 else r.randrange(len(v))
    c = pair[0] if v[i:i + 1] != pair[0] else pair[1]
    return v[:i] + c + v[i + 1:]


def long_pair(r):
    """Two long values of the same size that begin and end alike."""
    n = r.choice([20, 33, 64, 65, 100, 127, 128, 130, 200, 256, 300, 600, 1025, 5000])
    t = r.choice([STRING, STRING, STRING, SYMBOL, BLOB, CLOB, INT, DECIMAL, LIST, SEXP])
    if t in (STRING, SYMBOL):
        c = r.choice(['a', 'q', 'ab', '\xe9', '\u2603', '\U0001f600'])
        v = (c * n)[:n]
        pair = [v, inside(r, v, 'aZ')]
    elif t in (BLOB, CLOB):
        v = (r.choice([b'a', b'ab', b'0']) * n)[:n]
        pair = [v, inside(r, v, (b'a', b'Z'))]
    elif t in (INT, DECIMAL):
        n = min(n, 600)
        v = 1 << n
        pair = [v, v ^ 1 << n // 2]
        if t == DECIMAL:
            pair = [(False, v, -3) for v in pair]
    else:
        n = min(n, 300)
        a = [V(INT, 1) for _ in range(n)]
        b = list(a)
        b[n // 2] = V(INT, 2)
        pair = [a, b]
    if r.random() < 0.5:
        pair.reverse()
    return [V(t, v) for v in pair]


class Gen(object):
    def __init__(self, rng, depth=4, budget=40, tricky=0.25, sym0=True, big=0.02, unknown=(), long_text=0.03,
                 words=None, operators=True, null=0.08, ann=0.25, types=None, deep=0.0):
        self.r = rng
        self.max_depth = depth
        self.budget = budget
        self.tricky = tricky
        self.sym0 = sym0
        self.big = big
        self.unknown = list(unknown)
        self.long_text = long_text
        self.null = null
        self.annp = ann
        self.types = types
        self.pool = list(words) if words is not None else None
        self.deep = deep
        self.twins = not types and words is None
        if self.pool is None:
            self.pool = [self.word() for _ in range(rng.randint(1, 12))]

    # -- text
    def word(self):
        r = self.r
        x = r.random()
        if x < self.tricky:
            y = r.random()
            if y < 0.5:
                return r.choice(TRICKY_WORDS)
            if y < 0.6:
                return r.choice(OPERATORS)
            return self.text(12)
        if x < 0.9:
            return r.choice(ASCII_WORDS)
        return ''.join([r.choice('abcdefghijklmnopqrstuvwxyzABCXYZ_$0123456789') for _ in range(r.randint(1, 20))])

    def text(self, limit=30):
        r = self.r
        x = r.random()
        if x < self.long_text:
            n = r.choice([100, 126, 127, 128, 129, 300, 1000])
        elif x < 0.3:
            n = r.choice([0, 1, 2, 12, 13, 14, 15])
        else:
            n = r.randint(0, limit)
        y = r.random()
        if y < 0.45:
            return ''.join([chr(r.choice(CHARS)) for _ in range(n)])
        if y < 0.6:
            return ''.join([r.choice(TRICKY_WORDS) for _ in range(n % 7)])
        if y < 0.7:
            # Few different characters, so that the same one comes several times in a row.
            few = r.sample(CLUSTERS, r.choice([1, 2, 2, 3]))
            return ''.join([r.choice(few) for _ in range(n)])
        return ''.join([chr(r.randint(0x20, 0x7e)) for _ in range(n)])

    def string(self):
        if self.r.random() < 0.25:
            return self.r.choice(self.pool) if self.pool else self.word()
        return self.text()

    def symbol(self):
        r = self.r
        x = r.random()
        if self.sym0 and x < 0.04:
            return SYM0
        if self.unknown and x < 0.15:
            return r.choice(self.unknown)
        if self.pool and x < 0.85:
            return r.choice(self.pool)
        w = self.word()
        return w

    # -- numbers
    def int_(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            v = r.choice([0, 1, 2, 9, 10, 15, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257])
        elif x < 0.75:
            b = r.choice([7, 8, 15, 16, 23, 24, 31, 32, 33, 53, 63, 64, 65, 72, 80, 96, 104, 111, 112, 113, 120, 128])
            v = (1 << b) + r.randint(-2, 2)
        elif x < 0.95:
            v = r.getrandbits(r.randint(1, 140))
        else:
            v = r.getrandbits(r.choice([200, 511, 512, 600, 1008, 1016, 1024, 1100, 2000]))
        return v if r.random() < 0.5 else -v

    def float_(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return r.choice([0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), float('nan'), 5e-324, -5e-324,
                             2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1e16, 1e15, 1e17, 123456789012345678.0, 1e22, 1e23, 1.5,
                             2.0 ** -1074, 2.0 ** 1023, 3.4028234663852886e38, 1e-5, 1e-4, 0.0001234, 1e100, 16777217.0])
        if x < 0.7:
            return _struct_unpack(r.getrandbits(64))
        if x < 0.85:
            return float(r.randint(-10 ** 6, 10 ** 6))
        return r.uniform(-1000, 1000)

    def decimal_(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            c = r.choice([0, 0, 0, 1, 5, 9, 10, 31, 32, 63, 64, 100, 127, 128, 255, 256])
        elif x < 0.8:
            c = abs(self.int_())
        else:
            c = r.randint(0, 10 ** r.randint(1, 60))
        y = r.random()
        if y < 0.35:
            e = r.randint(-8, 4)
        elif y < 0.8:
            e = r.choice([0, 1, -1, 6, -6, -7, -8, 31, 32, 33, -31, -32, -33, 63, -63, 64, -64, 65, -65, 127, -128, 8191, 8192, -8191, -8192])
        elif y < 0.92:
            e = r.randint(-400, 400)
        elif y < 0.95:
            e = r.choice([1, -1]) * ((1 << r.choice([12, 13, 14, 19, 20, 21, 26, 27, 28, 31, 32, 33, 34, 35, 40, 41, 47, 48])) + r.choice([-1, 0, 1]))
        else:
            e = r.randint(-100000, 100000)
        return (r.random() < 0.5, c, e)

    def timestamp_(self):
        r = self.r
        p = r.choice([YEAR, MONTH, DAY, MINUTE, MINUTE, SECOND, SECOND, SECOND, SECOND])
        while True:
            y = r.choice([1, 2, 4, 99, 100, 127, 128, 999, 1582, 1600, 1899, 1900, 1901, 1970, 1999, 2000, 2001, 2004, 2016, 2019, 2100, 2400, 9998,
                          9999, r.randint(1, 9999), r.randint(1900, 2100)])
            mo = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)]) if p >= MONTH else 1
            d = r.choice([1, 1, 28, days_in(y, mo), days_in(y, mo), r.randint(1, 28)]) if p >= DAY else 1
            h, mi = (r.choice([0, 0, 23, 23, 12, r.randint(0, 23)]), r.choice([0, 59, 30, r.randint(0, 59)])) if p >= MINUTE else (0, 0)
            s = r.choice([0, 59, r.randint(0, 59)]) if p >= SECOND else 0
            f = None
            if p >= SECOND and r.random() < 0.6:
                n = r.choice([1, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10, 15, 28, 29, 30, r.randint(1, 40)])
                z = r.random()
                if z < 0.2:
                    c = 0
                elif z < 0.3:
                    c = 10 ** n - 1
                elif z < 0.4:
                    c = r.randint(1, 9)
                elif z < 0.5:
                    c = 10 ** (n - 1) * r.randint(1, 9)
                else:
                    c = r.randint(0, 10 ** n - 1)
                f = (c, n)
            off = None
            if p >= MINUTE and r.random() < 0.75:
                off = r.choice([0, 0, 1, -1, 59, -59, 60, -60, 61, 63, 64, -63, -64, 330, -480, 345, 839, 840, -720, 1439, -1439,
                                15 * r.randint(-95, 95), 30 * r.randint(-4, 4), r.randint(-1439, 1439)])
            ts = (p, y, mo, d, h, mi, s, f, off)
            if utc_in_range(ts):
                return ts

    def bytes_(self):
        r = self.r
        x = r.random()
        n = r.choice(LENGTHS) if x < 0.3 else r.randint(0, 20)
        if x > 0.98:
            n = r.choice([1000, 2047, 2048, 16383, 16384]) if self.big else 300
        if r.random() < 0.3:
            return bytes([r.choice(b'\\"\'\n\r\t }{\x00\x04\x7f') for _ in range(min(n, 300))])
        return bytes([r.getrandbits(8) for _ in range(n)]) if n < 3000 else bytes(bytearray(r.getrandbits(8) for _ in range(16)) * (n // 16)) + bytes(n % 16)

    # -- values
    def annotations(self):
        r = self.r
        if r.random() >= self.annp:
            return ()
        n = r.choice([1, 1, 1, 2, 2, 3, 5, 20, int(2 ** r.uniform(4, 8))] if r.random() < 0.2 else [1, 1, 2])
        return tuple([self.symbol() for _ in range(n)])

    def scalar(self, t):
        r = self.r
        if t == NULL:
            return None
        if t == BOOL:
            return r.random() < 0.5
        return {INT: self.int_, FLOAT: self.float_, DECIMAL: self.decimal_, TIMESTAMP: self.timestamp_, SYMBOL: self.symbol,
                STRING: self.string, CLOB: self.bytes_, BLOB: self.bytes_}[t]()

    def value(self, depth=0, top=False):
        r = self.r
        self.budget -= 1
        if self.types:
            t = r.choice(self.types)
        else:
            t = r.randint(0, 12)
        if t < LIST and depth < self.max_depth and self.budget > 5 and r.random() < 0.25:
            t = r.choice([LIST, SEXP, STRUCT])
        ann = self.annotations()
        if t == NULL or r.random() < self.null:
            v = V(t, None, ann)
        elif t >= LIST:
            kids = []
            if depth < self.max_depth and self.budget > 0:
                for _ in range(r.choice([0, 1, 1, 2, 3, 4, r.randint(0, 12)])):
                    if self.budget <= 0:
                        break
                    kids.append(self.value(depth + 1))
            if len(kids) > 1 and self.twins and r.random() < 0.06:
                kids[-1] = twin(r, kids[0])
            if t == STRUCT:
                kids = [(self.symbol(), k) for k in kids]
            v = V(t, kids, ann)
        else:
            v = V(t, self.scalar(t), ann)
        if top:
            self.fix_top(v)
        return v

    def fix_top(self, v):
        """A top-level value that would be read as system data is made an ordinary one."""
        if v.t == STRUCT and v.v is not None and v.ann and v.ann[0] == '$ion_symbol_table':
            v.ann = ('x',) + v.ann
        if v.t == SYMBOL and v.v == '$ion_1_0' and not v.ann:
            v.ann = ('x',)

    def stream(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 1, 2, 3, 5])
        out = [self.value(top=True) for _ in range(n)]
        if len(out) > 1 and self.twins and r.random() < 0.1:
            out[-1] = twin(r, r.choice(out[:-1]))
            self.fix_top(out[-1])
        if len(out) > 1 and self.twins and self.long_text and r.random() < 0.03:
            out[r.randrange(len(out)):0] = long_pair(r)
        if self.deep and r.random() < self.deep:
            out.append(self.nest())
        return out

    def nest(self):
        r = self.r
        v = V(INT, self.int_())
        for _ in range(r.choice([10, 30, 60])):
            t = r.choice([LIST, SEXP, STRUCT])
            ann = self.annotations()
            v = V(t, [(self.symbol(), v)] if t == STRUCT else [v], ann)
        self.fix_top(v)
        return v


def _struct_unpack(bits):
    import struct
    return struct.unpack('>d', struct.pack('>Q', bits))[0]
