"""The reference data model of Ion 1.0 used by every monitor.

A value is a V: type number t (the order of the Ion specification), payload v and annotations ann.  Payloads:

  null -> None (t is the type of the null)     bool -> bool          int -> int
  float -> float                               decimal -> (negative, coefficient, exponent)
  timestamp -> (precision, year, month, day, hour, minute, second, fraction, offset)
               local fields; fraction is None or (coefficient, digits); offset is None or minutes
  symbol -> a symbol                           string -> str         clob, blob -> bytes
  list, sexp -> [V]                            struct -> [(symbol, V)]

A symbol is its text (str), or for unknown text one of
  ('$0',) symbol zero   ('$', name, position) import location   ('?', sid) a local symbol whose text is undefined
"""
import struct as _struct
from collections import Counter

NULL, BOOL, INT, FLOAT, DECIMAL, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB, LIST, SEXP, STRUCT = range(13)
NAMES = ['null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp',
         'struct']
YEAR, MONTH, DAY, MINUTE, SECOND = range(5)
SYM0 = ('$0',)

SYSTEM = ['$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id',
          '$ion_shared_symbol_table']


class V(object):
    __slots__ = ('t', 'v', 'ann')

    def __init__(self, t, v=None, ann=()):
        self.t = t
        self.v = v
        self.ann = tuple(ann)

    def __repr__(self):
        return show(self)


def float_key(x):
    if x != x:
        return 'nan'
    return _struct.pack('>d', x)


def payload_key(t, v):
    if v is None:
        return None
    if t == FLOAT:
        return float_key(v)
    if t in (CLOB, BLOB):
        return bytes(v)
    if t in (LIST, SEXP):
        return tuple([key(x) for x in v])
    if t == STRUCT:
        return tuple([(n, key(x)) for n, x in v])
    return v


def key(x):
    """A hashable image of a value: equal exactly for values that are the same, struct fields in the same order."""
    return (x.t, x.ann, payload_key(x.t, x.v))


def keys(xs):
    return [key(x) for x in xs]


def grouped(x):
    """The value with the fields of every struct grouped by name (stable), as a dictionary of lists would hold it."""
    if x.v is None:
        return x
    if x.t in (LIST, SEXP):
        return V(x.t, [grouped(c) for c in x.v], x.ann)
    if x.t == STRUCT:
        order = []
        groups = {}
        for n, c in x.v:
            if n not in groups:
                groups[n] = []
                order.append(n)
            groups[n].append(grouped(c))
        return V(x.t, [(n, c) for n in order for c in groups[n]], x.ann)
    return x


def dm_key(x):
    """Like key, but structs are unordered collections of fields: equality of the Ion data model."""
    if x.v is None or x.t < LIST:
        return (x.t, x.ann, payload_key(x.t, x.v))
    if x.t == STRUCT:
        return (x.t, x.ann, frozenset(Counter([(n, dm_key(c)) for n, c in x.v]).items()))
    return (x.t, x.ann, tuple([dm_key(c) for c in x.v]))


def walk(x, depth=0):
    yield x, depth
    if x.v is not None:
        if x.t in (LIST, SEXP):
            for c in x.v:
                for y in walk(c, depth + 1):
                    yield y
        elif x.t == STRUCT:
            for _, c in x.v:
                for y in walk(c, depth + 1):
                    yield y


def symbols_of(x):
    """Every symbol in the value, in the order of a depth-first reading (field name, annotations, value)."""
    for s in x.ann:
        yield s
    if x.v is not None:
        if x.t == SYMBOL:
            yield x.v
        elif x.t in (LIST, SEXP):
            for c in x.v:
                for s in symbols_of(c):
                    yield s
        elif x.t == STRUCT:
            for n, c in x.v:
                yield n
                for s in symbols_of(c):
                    yield s


def show_sym(s):
    return ascii(s) if isinstance(s, str) else repr(s)


def show(x):
    a = ''.join(show_sym(s) + '::' for s in x.ann)
    if x.v is None:
        return a + 'null.' + NAMES[x.t]
    if x.t == LIST:
        return a + '[' + ', '.join(show(c) for c in x.v) + ']'
    if x.t == SEXP:
        return a + '(' + ' '.join(show(c) for c in x.v) + ')'
    if x.t == STRUCT:
        return a + '{' + ', '.join(show_sym(n) + ': ' + show(c) for n, c in x.v) + '}'
    if x.t == SYMBOL:
        return a + 'sym:' + show_sym(x.v)
    return a + NAMES[x.t] + ':' + ascii(x.v)


def shape(x):
    """A coarse description of a value, used to count distinct cases."""
    if x.v is None:
        return 'n%d' % x.t
    s = NAMES[x.t][:2] + ('@' * min(len(x.ann), 2))
    if x.t in (LIST, SEXP):
        return s + '(' + ','.join([shape(c) for c in x.v[:8]]) + ')'
    if x.t == STRUCT:
        return s + '{' + ','.join([shape(c) for _, c in x.v[:8]]) + '}'
    if x.t == INT:
        return s + str(x.v.bit_length())
    if x.t in (STRING, CLOB, BLOB):
        return s + str(len(x.v))
    if x.t == TIMESTAMP:
        return s + str(x.v[0]) + str(x.v[7] and x.v[7][1]) + ('u' if x.v[8] is None else '+')
    if x.t == DECIMAL:
        return s + str(x.v[1].bit_length()) + 'e' + str(x.v[2])
    return s


def first_difference(a, b, path='$'):
    """Where two lists of values (or two values) differ, for reports."""
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        if len(a) != len(b):
            more = (a if len(a) > len(b) else b)[min(len(a), len(b))]
            return '%s: %d values expected, %d found; first extra or missing: %s' % (path, len(a), len(b),
                                                                                     show(more)[:200])
        return None
    if key(a) == key(b):
        return None
    if a.t == b.t and a.ann == b.ann and a.v is not None and b.v is not None and a.t >= LIST:
        if a.t == STRUCT:
            for i, ((n, x), (m, y)) in enumerate(zip(a.v, b.v)):
                if n != m:
                    return '%s.field[%d]: name %s expected, %s found' % (path, i, show_sym(n), show_sym(m))
                d = first_difference(x, y, '%s.%s' % (path, show_sym(n)))
                if d:
                    return d
            if len(a.v) != len(b.v):
                return '%s: %d fields expected, %d found' % (path, len(a.v), len(b.v))
        return first_difference(list(a.v), list(b.v), path)
    return '%s: expected %s, found %s' % (path, show(a)[:300], show(b)[:300])


def map_symbols(x, f):
    ann = tuple([f(s) for s in x.ann])
    v = x.v
    if v is not None:
        if x.t == SYMBOL:
            v = f(v)
        elif x.t in (LIST, SEXP):
            v = [map_symbols(c, f) for c in v]
        elif x.t == STRUCT:
            v = [(f(n), map_symbols(c, f)) for n, c in v]
    return V(x.t, v, ann)


class Bad(Exception):
    """The reference decoder found that the input is not well-formed Ion."""


class Unsure(Exception):
    """The reference decoder does not decide this input (the specification leaves it open, or it is out of domain)."""
