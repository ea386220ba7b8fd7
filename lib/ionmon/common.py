"""Helpers shared by the checks."""
from io import BytesIO, StringIO

from .model import *
from .gen import Gen, twin
from .observe import *
from .textref import TextEnc, TextDec
from .binref import BinEnc, BinDec, StreamEnc, IVM
from .symref import Table, Catalog


LARGE = [126, 127, 128, 255, 256, 1023, 1024, 4096, 8192, 8196, 16383, 16384, 16385, 20000, 32768, 65535, 65536, 70000]


def large_values(r, limit=10 ** 9):
    """A stream with a container that holds a value of a size around those at which length fields and buffers grow."""
    n = r.choice([x for x in LARGE if x < limit]) + r.choice([-2, -1, 0, 0, 0, 1, 2])
    kind = r.choice([STRING, STRING, CLOB, BLOB, BLOB, LIST, SEXP, STRUCT, SYMBOL])
    if kind == STRING:
        v = V(STRING, (r.choice(['a', 'xyz', '\u00e9b', '\u2603', '\U0001f600c']) * n)[:n])
    elif kind == SYMBOL:
        v = V(SYMBOL, 's' * min(n, 20000))
    elif kind in (CLOB, BLOB):
        v = V(kind, bytes([r.randrange(32, 127)]) * n)
    else:
        n = min(n, 600)
        one = r.choice([V(INT, 0), V(BOOL, True), V(STRING, 'xy'), V(NULL), V(INT, 300)])
        v = V(kind, [('name', one)] * n if kind == STRUCT else [one] * n)
    if r.random() < 0.3:
        v.ann = ('version',)
    small = [V(INT, 7), V(STRING, 'z'), V(LIST, []), V(NULL), V(STRUCT, [('name', V(INT, 1))]), V(BLOB, b'0123')]
    for _ in range(r.choice([1, 1, 2, 3])):
        inner = [r.choice(small) for _ in range(r.choice([0, 0, 1, 3]))] + [v] + [r.choice(small) for _ in range(r.choice([0, 1, 3]))]
        k = r.choice([LIST, SEXP, STRUCT])
        v = V(k, [(r.choice(['name', 'symbols', 'f']), x) for x in inner] if k == STRUCT else inner)
        if r.random() < 0.2:
            v.ann = ('max_id',)
    return [V(INT, 1), v, V(INT, 2), V(STRING, 'end')]


def large_cut(r, data):
    """Pieces of the sizes in which files are read, or cuts near such offsets."""
    style = r.choice(['size', 'size', 'near', 'random'])
    n = len(data)
    if style == 'size':
        k = r.choice([256, 1000, 1024, 4096, 8192, 8196, 16384, 65536])
        return [data[i:i + k] for i in range(0, n, k)]
    if style == 'near':
        at = {x + r.choice([-2, -1, 0, 1, 2]) for x in r.sample(LARGE, 6)}
        at |= {r.randrange(1, 20), n - r.randrange(1, 12)}
    else:
        at = {r.randrange(1, n) for _ in range(r.choice([1, 3, 10]))}
    at = sorted(x for x in at if 0 < x < n) + [n]
    return [data[a:b] for a, b in zip([0] + at, at)]


def cut(rng, data, style=None):
    """Cuts data into non-empty pieces."""
    n = len(data)
    if n == 0:
        return []
    style = style if style is not None else rng.choice(['one', 'units', 'small', 'few', 'mixed'])
    if style == 'one':
        return [data]
    if style == 'units':
        return [data[i:i + 1] for i in range(n)]
    if style == 'small':
        cuts, i = [], 0
        while i < n:
            k = rng.choice([1, 1, 2, 3, 5])
            cuts.append(data[i:i + k])
            i += k
        return cuts
    if style == 'few':
        at = sorted(set(rng.randint(1, n) for _ in range(rng.randint(1, 4))) | {n})
    else:
        at = sorted(set(rng.randint(1, n) for _ in range(rng.randint(1, max(1, n // 3)))) | {n})
    out, last = [], 0
    for a in at:
        if a > last:
            out.append(data[last:a])
            last = a
    return out


class Source(object):
    """A file-like object whose reads return what a schedule says: at most so many units each."""

    def __init__(self, data, rng=None, sizes=None):
        self.data = data
        self.at = 0
        self.rng = rng
        self.sizes = sizes
        self.calls = 0

    def read(self, n=-1):
        self.calls += 1
        left = len(self.data) - self.at
        k = left if n is None or n < 0 else min(n, left)
        if k > 1 and self.rng is not None:
            k = min(k, self.rng.choice(self.sizes or [1, 2, 3, 7, 64, 1000]))
        out = self.data[self.at:self.at + k]
        self.at += k
        return out


def count_values(ctx, values):
    for v in values:
        for x, d in walk(v):
            ctx.n('values.null' if x.v is None else 'values.' + NAMES[x.t])
            ctx.max('depth', d)
            if x.ann:
                ctx.n('values.annotated')


def mutate(rng, b):
    """A small edit of a byte string."""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.random()
        if not b:
            b.append(rng.getrandbits(8))
            continue
        i = rng.randrange(len(b))
        if op < 0.35:
            b[i] ^= 1 << rng.randrange(8)
        elif op < 0.5:
            b[i] = rng.choice([0, 1, 0x0e, 0x0f, 0x10, 0x20, 0x7f, 0x80, 0x81, 0x8e, 0xbe, 0xd1, 0xe0, 0xee, 0xff, rng.getrandbits(8)])
        elif op < 0.65:
            del b[i:i + rng.choice([1, 1, 2, 4])]
        elif op < 0.8:
            b[i:i] = bytes([rng.getrandbits(8) for _ in range(rng.choice([1, 1, 2]))])
        elif op < 0.9:
            j = rng.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        else:
            j = rng.randrange(len(b))
            k = rng.choice([1, 2, 4, 8])
            b[i:i] = b[j:j + k]
    return bytes(b)


def resolve_sids(x, table):
    """A value written with symbol IDs, ('sid', n), as the table defines them."""
    return map_symbols(x, lambda s: table.lookup(s[1]) if s[:1] == ('sid',) else s)


# Alphabets of one kind of token each; strings over them are near to legal far more often than strings over all characters.
ALPHABETS = [
    ('number', list('0011279') + ['_', '_', '.', '.', 'e', 'E', 'd', 'D', '-', '+', 'x', 'X', 'b', 'B', 'a', 'F', '0x', '0b', '-0', '1.', 'e0', ' ', '/'], ('%s', '%s', '[%s]', '(%s)', '{a:%s}', '1 %s', '-%s', '%s//c')),
    ('timestamp', ['2001', '2000', '1999', '0001', '-01', '-02', '-29', '-31', '-', '01', '12', 'T', 'T', 'T00:00', 'T23:59', ':', ':30', ':59', ':60', '.', '.0', '.123456', '.999999999', 'Z', 'Z', '+', '+00:00', '-00:00',
                   '-23:59', '+24:00', '-00:01', '0', '1', '_'], ('%s', '2001-%s', '2001-01-01T%s', '2001-01-01T00:00%s', '2001-01-01T00:00:00%s', '[%s]', '(%s)', '{a:%s}', '%s//c')),
    ('blob', ['QUJD', 'QUI=', 'QQ==', 'aGk=', 'AAAA', '++//', 'Q', 'U', 'QU', '=', '=', '==', ' ', ' ', '\n', '\t', '\r\n'], ('{{%s}}', '{{%s}}', '{{%s}}', '{{%s=}}', '{{ %s =}}', '[{{%s}}]', '({{%s}})', 'a::{{%s}}')),
    ('blob-junk', ['QUJD', 'QUI=', 'Q', 'U', '=', '==', ' ', '\n', '}', '}}', '{', '{{', '"', '/', '//', '-', '_', '\x0b', '\xa0'], ('{{%s}}', '{{%s}}', '{{%s=}}', '{{QUI%s=}}', '{{%s} }', '[{{%s}}]', '({{%s}})')),
    ('clob', ['"', '"', "'", "'", "'''", "'''", '""', '"a"', "'''a'''", 'a', 'b', ' ', ' ', '\n', '\r\n', '\t', '\\n', '\\x41', '\\xff', '\\u0041', '\\\n', '\\\r\n', '\\', '\\"', "\\'", '}', '}}', '{', '//', '/**/', '\x7f', '\x00', '\x0b'],
     ('{{%s}}', '{{"%s"}}', "{{'''%s'''}}", '{{ %s }}', '[{{"%s"}}]', "{a:{{'''%s'''}}}", '({{%s}})')),
    ('quotes', ["'", "'", "''", "'''", "'''", "'''a'''", "'a'", 'a', 'b', ' ', ' ', '\n', '"', '""', '"a"', ':', '::', '\\', "\\'", '\\n', '//', '/**/', ',', '1'],
     ('%s', '%s', '[%s]', '(%s)', '{%s:1}', '{a:%s}', "'''%s'''", '"%s"', "'%s'", '%s::1')),
    ('escape', ['\\', '\\', '\\n', '\\x', '\\x4', '\\x41', '\\u', '\\u00e9', '\\ud83d', '\\ude00', '\\uD800', '\\U', '\\U0001F600', '\\U0010ffff', '\\U00110000', '\\U0000d83d', '\\\n', '\\\r\n', '\\\r', '\\0', '\\a', '\\/', '\\?', '\\N', '0', '4', 'f', 'g', 'é', '😀', '"', "'", ' '],
     ('"%s"', '"%s"', "'%s'", "'''%s'''", '{"%s":1}', "{'''%s''':1}", "'%s'::1", '["%s"]')),
    ('surrogate', ['\\ud83d', '\\ude00', '\\uDBFF', '\\udfff', '\\udbff\\uDC00', '\\ud800\\udc00', '\\ud83d\\ude00', '\\u0041', '\\x41', '\\n', '\\\n', '\\', 'u', 'a', 'd', ' ', '\\U00010000', "'"],
     ('"%s"', '"%s"', "'%s'", "'''%s'''", '{"%s":1}', "{'''%s''':1}", "'%s'::1", '["%s"]', '{{"%s"}}')),
    ('keyword', ['null', 'null', '.', '.', 'int', 'list', 'null.', 'true', 'false', 'nan', 'inf', '+inf', '-inf', '+', '-', 'bool', 'sexp', 'symbol', 'blob', 'x', '_', '$', '1', '$1', '$10', '$0', '$ion', '_1_0', '::', ':', ' ', 'a'],
     ('%s', '%s', '[%s]', '(%s)', '(%s)', '{%s:1}', '{a:%s}', '%s::1', 'a::%s', '%s//c', 'null.%s')),
    ('structure', ['{', '}', '[', ']', '(', ')', '{}', '[]', '()', ',', ',', ':', ':', '::', 'a', 'b', '"c"', "'d'", "'''e'''", '1', '-2.5', 'null', 'null.int', '$4', 'a:1', 'a::', ' ', '\n', '//\n', '/**/', '+', '{{}}', '2001T'],
     ('%s', '[%s]', '(%s)', '{%s}', '{a:%s}', '{a:1,%s}', '[1,%s]', 'a::%s')),
    ('newline', ['\r', '\r', '\n', '\n', '\r\n', 'a', ' ', '\\\n', '\\\r\n', '\\n', '\\r', "'", '\t', "''' '''"], ("'''%s'''", "'''%s'''", "['''%s''']", "{a:'''%s'''}", "{'''%s''':1}", "{{'''%s'''}}", '1%s2', '//%s1', '[%s]')),
    ('operator', ['+', '-', '*', '.', '/', '<=', '!', '&', ';', '#', '`', 'a', 'b', '1', '-1', 'null', 'null.int', 'true', 'nan', '+inf', '-inf', 'inf', ' ', ' ', "'q'", '"s"', '()', '{}', 'a::', 'a::null.int', 'a::true', 'a::nan', 'a::+inf', '$4', '{{}}', '2001T', '1.5', '/**/', '//\n'],
     ('(%s)', '(%s)', '(%s )', '([%s])', '[(%s)]', '((%s) %s)', '%s')),
    ('comment', ['/', '/', '//', '*', '*', '/*', '*/', '/**/', '\n', '\r', '\r\n', ' ', 'a', '1', '"', "'", '{', '}', 'é', ',', ':'],
     ('%s', '%s', '[%s]', '(%s)', '{%s}', '{a:%s}', '{a%s:1}', '/*%s*/', '//%s', '1%s', 'a::%s 1', '"a"%s')),
]


def near_text(r, alphabet):
    name, letters, slots = alphabet
    body = ''.join([r.choice(letters) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]))])
    return r.choice(slots).replace('%s', body)
