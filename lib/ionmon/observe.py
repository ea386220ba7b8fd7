"""Monitors on the real library: event streams to reference values, Python values to reference values and back."""
from datetime import datetime, timedelta
from decimal import Decimal
from io import BytesIO, StringIO

from amazon.ion.core import (IonEvent, IonEventType, IonThunkEvent, IonType, Multimap, OffsetTZInfo, Timestamp,
                             TimestampPrecision, ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT, timestamp)
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.simple_types import (IonPyBool, IonPyBytes, IonPyDecimal, IonPyDict, IonPyFloat, IonPyInt, IonPyList,
                                     IonPyNull, IonPySymbol, IonPyText, IonPyTimestamp, is_null)
from amazon.ion.symbols import ImportLocation, SymbolToken
from amazon.ion.writer import WriteEventType, blocking_writer
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from .model import *


class Violation(Exception):
    """A monitor saw the property broken."""


ITYPE = [IonType.NULL, IonType.BOOL, IonType.INT, IonType.FLOAT, IonType.DECIMAL, IonType.TIMESTAMP, IonType.SYMBOL,
         IonType.STRING, IonType.CLOB, IonType.BLOB, IonType.LIST, IonType.SEXP, IonType.STRUCT]
TNUM = dict((t, i) for i, t in enumerate(ITYPE))
PREC = [TimestampPrecision.YEAR, TimestampPrecision.MONTH, TimestampPrecision.DAY, TimestampPrecision.MINUTE,
        TimestampPrecision.SECOND]
PNUM = dict((p, i) for i, p in enumerate(PREC))
PY = [IonPyNull, IonPyBool, IonPyInt, IonPyFloat, IonPyDecimal, IonPyTimestamp, IonPySymbol, IonPyText, IonPyBytes,
      IonPyBytes, IonPyList, IonPyList, IonPyDict]

START, END, SCALAR = IonEventType.CONTAINER_START, IonEventType.CONTAINER_END, IonEventType.SCALAR
STOP, INCOMPLETE, MARKER = IonEventType.STREAM_END, IonEventType.INCOMPLETE, IonEventType.VERSION_MARKER


# -- real to reference -------------------------------------------------------------------------------------------------
def symbol_of(tok, raw=False):
    """The model symbol of a token (raw: of an unmanaged reader, where a bare symbol ID is not resolved yet)."""
    if isinstance(tok, str) and not isinstance(tok, SymbolToken):
        return str(tok)
    if not isinstance(tok, SymbolToken):
        raise Violation('a symbol is %r' % (tok,))
    if tok.text is not None:
        if not isinstance(tok.text, str):
            raise Violation('the text of a symbol is %r' % (tok.text,))
        return str(tok.text)
    if raw:
        return ('sid', tok.sid)
    if tok.location is not None:
        return ('$', tok.location.name, tok.location.position)
    if tok.sid == 0:
        return SYM0
    return ('?', tok.sid)


def decimal_of(d):
    sign, digits, exp = d.as_tuple()
    if not isinstance(exp, int):
        raise Violation('decimal value %r' % (d,))
    n = 0
    for x in digits:
        n = n * 10 + x
    if len(digits) > 40:
        n = int(''.join(map(str, digits)))
    return (bool(sign), n, exp)


def fraction_of(f):
    if f is None:
        return None
    neg, c, e = decimal_of(f)
    if e >= 0:
        if c != 0:
            raise Violation('fraction of a second %r' % (f,))
        return None
    if neg or c >= 10 ** -e:
        raise Violation('fraction of a second %r' % (f,))
    return (c, -e)


def offset_of(ts):
    d = ts.utcoffset()
    if d is None:
        return None
    m, rest = divmod(d.days * 86400 + d.seconds, 60)
    if rest or d.microseconds:
        raise Violation('offset %r' % (d,))
    return m


def timestamp_of(ts):
    if not isinstance(ts, Timestamp):
        if isinstance(ts, datetime):
            return (SECOND, ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, (ts.microsecond, 6), offset_of(ts))
        raise Violation('timestamp value %r' % (ts,))
    p = ts.precision
    if p is None:
        p = TimestampPrecision.SECOND
    if p not in PNUM:
        raise Violation('timestamp precision %r' % (p,))
    f = fraction_of(ts.fractional_seconds)
    micro = 0 if f is None else (f[0] * 10 ** 6) // 10 ** f[1]
    if ts.microsecond != micro:
        raise Violation('microsecond %r with a fraction of %r seconds' % (ts.microsecond, ts.fractional_seconds))
    if ts.fractional_precision is not None and ts.fractional_precision != (0 if f is None else min(f[1], 6)):
        raise Violation('fractional precision %r with a fraction of %r seconds' % (ts.fractional_precision, ts.fractional_seconds))
    out = (PNUM[p], ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, f, offset_of(ts))
    return out


def scalar_of(t, v, raw=False):
    """The payload of a scalar that the library presents as Ion type t."""
    if v is None:
        return None
    ok = True
    if t == BOOL:
        ok = isinstance(v, int) and v in (0, 1)
        out = bool(v)
    elif t == INT:
        ok = isinstance(v, int) and not isinstance(v, bool)
        out = int(v) if ok else None
    elif t == FLOAT:
        ok = isinstance(v, float)
        out = float(v) if ok else None
    elif t == DECIMAL:
        ok = isinstance(v, Decimal)
        out = decimal_of(v) if ok else None
    elif t == TIMESTAMP:
        out = timestamp_of(v)
    elif t == SYMBOL:
        out = symbol_of(v, raw)
    elif t == STRING:
        ok = isinstance(v, str)
        out = str(v) if ok else None
    elif t in (CLOB, BLOB):
        ok = isinstance(v, (bytes, bytearray))
        out = bytes(v) if ok else None
    else:
        ok = False
        out = None
    if not ok:
        raise Violation('a value of type %s is %r (%s)' % (NAMES[t], v, type(v).__name__))
    return out


def token_image(tok):
    if tok is None or not isinstance(tok, SymbolToken):
        return tok
    return (tok.text, tok.sid, tuple(tok.location) if tok.location is not None else None)


def image(ev):
    """Everything an event says, in a form that compares exactly."""
    t = TNUM.get(ev.ion_type)
    v = ev.value
    if isinstance(v, SymbolToken):
        v = token_image(v)
    elif v is not None and t is not None:
        v = payload_key(t, scalar_of(t, v))
    return (ev.event_type.name, t, v, token_image(ev.field_name), tuple([token_image(a) for a in ev.annotations]), ev.depth)


class Tree(object):
    """Online monitor of a reader's events: checks that they form a well-nested tree and rebuilds the values."""

    def __init__(self, raw=False, managed=True):
        self.raw = raw
        self.managed = managed
        self.values = []
        self.stack = []         # (V, field name)
        self.events = 0
        self.log = []           # positions of version markers among the values (raw readers)
        self.offsets = []
        self.trace = None       # a list: an exact image of every event that is not a signal goes there

    def field(self, ev):
        inside = self.stack and self.stack[-1][0].t == STRUCT
        if inside:
            if ev.field_name is None:
                raise Violation('a struct member without a field name: %r' % (ev,))
            return symbol_of(ev.field_name, self.raw)
        if ev.field_name is not None:
            raise Violation('a field name outside a struct: %r' % (ev,))
        return None

    def put(self, name, x):
        if self.stack:
            top = self.stack[-1][0]
            top.v.append((name, x) if top.t == STRUCT else x)
        else:
            if self.managed and x.t == STRUCT and x.v is not None and x.ann and x.ann[0] == '$ion_symbol_table':
                raise Violation('a symbol table shown by a managed reader: %s' % show(x)[:300])
            self.values.append(x)

    def feed(self, ev):
        """Takes the next event; True when it is a stream signal."""
        self.events += 1
        if not isinstance(ev, IonEvent):
            raise Violation('the reader yielded %r' % (ev,))
        k = ev.event_type
        if self.trace is not None and k is not STOP and k is not INCOMPLETE:
            self.trace.append(image(ev))
        depth = len(self.stack)
        if k is SCALAR or k is START:
            if ev.ion_type not in TNUM:
                raise Violation('type of %r' % (ev,))
            t = TNUM[ev.ion_type]
            if ev.depth != depth:
                raise Violation('depth %r instead of %d: %r' % (ev.depth, depth, ev))
            name = self.field(ev)
            ann = tuple([symbol_of(a, self.raw) for a in ev.annotations])
            if k is START:
                if t < LIST:
                    raise Violation('a container start of a scalar type: %r' % (ev,))
                if ev.value is not None:
                    raise Violation('a container start with a value: %r' % (ev,))
                x = V(t, [], ann)
                if depth == 0 and self.managed and t == STRUCT and ann and ann[0] == '$ion_symbol_table':
                    raise Violation('a symbol table shown by a managed reader')
                self.put(name, x)
                self.stack.append((x, name))
            else:
                if t == NULL and ev.value is not None:
                    raise Violation('a null with a value: %r' % (ev,))
                x = V(t, None if t == NULL else scalar_of(t, ev.value, self.raw), ann)
                self.put(name, x)
        elif k is END:
            if not self.stack:
                raise Violation('a container end at the top level: %r' % (ev,))
            x = self.stack[-1][0]
            if ev.ion_type is not ITYPE[x.t]:
                raise Violation('%s ended by %r' % (NAMES[x.t], ev))
            if ev.depth != depth - 1:
                raise Violation('depth %r of an end instead of %d: %r' % (ev.depth, depth - 1, ev))
            if ev.value is not None or ev.annotations or ev.field_name is not None:
                raise Violation('a container end with content: %r' % (ev,))
            self.stack.pop()
        elif k is MARKER:
            if self.managed:
                raise Violation('a version marker shown by a managed reader')
            if depth:
                raise Violation('a version marker inside a container')
            self.log.append(len(self.values))
        elif k is STOP:
            if depth:
                raise Violation('end of stream inside a container')
            return True
        elif k is INCOMPLETE:
            return True
        else:
            raise Violation('event type %r' % (k,))
        return False


def raw_of(kind):
    return binary_reader() if kind == 'binary' else text_reader() if kind == 'text' else text_reader(is_unicode=True)


def make_reader(kind, catalog=None, managed=True):
    """kind: binary, text (bytes) or unicode."""
    r = raw_of(kind)
    return managed_reader(r, catalog) if managed else r


def read_pieces(kind, pieces, catalog=None, managed=True, limit=10 ** 6, tree=None, signals=None, skip=None, reader=None):
    """Feeds pieces to an incremental reader until all is read.  Returns (tree, error); the error is None or the
    exception the reader raised.  The tree holds what was reported before it.  skip(tree) tells after each event whether
    the rest of the open container is skipped; signals collects the requests for data."""
    tree = tree or Tree(raw=not managed, managed=managed)
    reader = reader or make_reader(kind, catalog, managed)
    i = 0
    flushed = 0
    try:
        ev = reader.send(NEXT_EVENT)
        while True:
            if tree.feed(ev):
                if signals is not None:
                    signals.append((ev.event_type, i, len(tree.values), len(tree.stack), flushed))
                if i < len(pieces):
                    ev = reader.send(read_data_event(pieces[i]))
                    i += 1
                    flushed = 0
                    continue
                if ev.event_type is STOP:
                    return tree, None
                # Two flushes may be needed: one ends a line comment, the other the long string before it.
                if flushed == 2:
                    raise Violation('the reader asks for data again after a flush at the end of the input')
                flushed += 1
                ev = reader.send(NEXT_EVENT)
                continue
            flushed = 0
            if tree.events > limit:
                raise Violation('no end after %d events' % limit)
            ev = reader.send(SKIP_EVENT if skip is not None and tree.stack and skip(tree) else NEXT_EVENT)
    except Violation:
        raise
    except StopIteration:
        raise Violation('the reader stopped')
    except MemoryError:
        raise
    except Exception as e:
        return tree, e


def read_source(kind, source, catalog=None, managed=True, buffer_size=None, limit=10 ** 6, tree=None):
    """Reads a file-like object with the blocking reader."""
    tree = tree or Tree(raw=not managed, managed=managed)
    r = make_reader(kind, catalog, managed)
    reader = blocking_reader(r, source) if buffer_size is None else blocking_reader(r, source, buffer_size)
    try:
        while True:
            ev = reader.send(NEXT_EVENT)
            if tree.feed(ev):
                if ev.event_type is not STOP:
                    raise Violation('blocking reader yielded %r' % (ev,))
                return tree, None
            if tree.events > limit:
                raise Violation('no end after %d events' % limit)
    except Violation:
        raise
    except StopIteration:
        raise Violation('the reader stopped')
    except MemoryError:
        raise
    except Exception as e:
        return tree, e


def value_of(obj):
    """The reference value of an object returned by load."""
    try:
        t = TNUM[obj.ion_type]
        anns = obj.ion_annotations
    except (AttributeError, KeyError, TypeError):
        raise Violation('a loaded value without Ion type and annotations: %r' % (obj,))
    ann = tuple([symbol_of(a) for a in anns])
    if isinstance(obj, IonPyNull):
        return V(t, None, ann)
    if type(obj) is not PY[t]:
        raise Violation('a loaded %s is a %s: %r' % (NAMES[t], type(obj).__name__, obj))
    if t == NULL:
        raise Violation('a loaded null is %r' % (obj,))
    if t in (LIST, SEXP):
        return V(t, [value_of(c) for c in obj], ann)
    if t == STRUCT:
        return V(t, [(None if n is None else symbol_of(n), value_of(c)) for n, c in obj.items()], ann)
    return V(t, scalar_of(t, obj), ann)


def loaded_view(x):
    """What load can show of a value: fields grouped by the text of their name."""
    def f(x):
        if x.v is None:
            return x
        if x.t in (LIST, SEXP):
            return V(x.t, [f(c) for c in x.v], x.ann)
        if x.t == STRUCT:
            return V(x.t, [(n if isinstance(n, str) else None, f(c)) for n, c in x.v], x.ann)
        return x
    return grouped(f(x))


# -- reference to real -------------------------------------------------------------------------------------------------
def token(s, rng=None, plain=0.5):
    if isinstance(s, str):
        if rng is not None:
            x = rng.random()
            if x < plain:
                return s
            if x > 0.95:
                # The text decides; a symbol ID from elsewhere means nothing here.
                return SymbolToken(s, rng.choice([4, 10, 11, 500]), rng.choice([None, ImportLocation('elsewhere', 3)]))
        return SymbolToken(s, None)
    if s == SYM0:
        return SymbolToken(None, 0)
    if s[0] == 'sid':
        return SymbolToken(None, s[1])
    if s[0] == '$':
        return SymbolToken(None, 10000, ImportLocation(s[1], s[2]))
    raise ValueError(s)


def make_decimal(v):
    neg, c, e = v
    return Decimal((1 if neg else 0, tuple(int(ch) for ch in str(c)), e))


def tz(off):
    return None if off is None else OffsetTZInfo(timedelta(minutes=off))


def fraction_decimal(f):
    return Decimal((0, tuple(int(ch) for ch in str(f[0])), -f[1]))


def make_timestamp(v, rng=None):
    """A Timestamp, built in one of the ways the API offers."""
    p, y, mo, d, h, mi, s, f, off = v
    way = rng.random() if rng is not None else 0
    # No explicit precision means seconds.
    prec = None if p == SECOND and rng is not None and rng.random() < 0.15 else PREC[p]
    if f is None:
        micro, fp, fs = (None, None, None)
        if way > 0.7:
            fs = Decimal(0)
        elif way > 0.5 and p == SECOND:
            micro, fp = 0, 0
    elif f[1] <= 6 and way > 0.5:
        micro, fp, fs = f[0] * 10 ** (6 - f[1]), f[1], None
    else:
        micro, fp, fs = None, None, fraction_decimal(f)
    if way < 0.25 and off is not None and (way * 1000) % 2 < 1:
        sign = -1 if off < 0 else 1
        return timestamp(y, mo, d, h, mi, s, micro, sign * (abs(off) // 60), sign * (abs(off) % 60), precision=prec,
                         fractional_precision=fp, fractional_seconds=fs)
    return Timestamp(y, mo, d, h, mi, s, micro, tz(off), precision=prec, fractional_precision=fp, fractional_seconds=fs)


def real_scalar(x, rng=None):
    t, v = x.t, x.v
    if v is None:
        return None
    if t == DECIMAL:
        return make_decimal(v)
    if t == TIMESTAMP:
        return make_timestamp(v, rng)
    if t == SYMBOL:
        return token(v, rng, 0.3)
    return v


def to_events(x, rng=None, name=None, in_struct=False, depth=0, out=None):
    """The writer events of a value."""
    if out is None:
        out = []
    field = token(name, rng) if in_struct else None
    ann = tuple([token(a, rng) for a in x.ann])
    if rng is not None and rng.random() < 0.1:
        ann = list(ann)
    t = x.t
    if x.v is not None and t >= LIST:
        out.append(IonEvent(START, ITYPE[t], None, field, ann, depth))
        if t == STRUCT:
            for n, c in x.v:
                to_events(c, rng, n, True, depth + 1, out)
        else:
            for c in x.v:
                to_events(c, rng, None, False, depth + 1, out)
        out.append(IonEvent(END, ITYPE[t], None, None, (), depth) if rng is not None and rng.random() < 0.5 else IonEvent(END))
    else:
        v = real_scalar(x, rng)
        if rng is not None and v is not None and rng.random() < 0.15:
            out.append(IonThunkEvent(SCALAR, ITYPE[t], lambda: v, field, ann, depth))
        else:
            out.append(IonEvent(SCALAR, ITYPE[t], v, field, ann, depth))
    return out


def to_ion(x, rng=None):
    """The value as the IonPy object that stands for it (fields with text names only)."""
    ann = tuple([token(a, rng) for a in x.ann])
    t = x.t
    if x.v is None:
        return IonPyNull.from_value(ITYPE[t], None, ann)
    if t in (LIST, SEXP):
        return IonPyList.from_value(ITYPE[t], [to_ion(c, rng) for c in x.v], ann)
    if t == STRUCT:
        d = IonPyDict.from_value(IonType.STRUCT, {}, ann)
        for n, c in x.v:
            d.add_item(n if isinstance(n, str) else None, to_ion(c, rng))
        return d
    return PY[t].from_value(ITYPE[t], real_scalar(x, rng), ann)


def plain_able(x):
    """Whether the value has a native Python form that means the same."""
    if x.ann or x.t in (CLOB, SEXP):
        return False
    if x.v is None:
        return x.t == NULL
    if x.t == LIST:
        return True
    if x.t == STRUCT:
        names = [n for n, _ in x.v]
        return all(isinstance(n, str) for n in names) and len(set(names)) == len(names)
    return True


def to_mixed(x, rng, native=0.5):
    """The value as a Python object: IonPy objects and native ones mixed."""
    if not plain_able(x) or rng.random() >= native:
        t = x.t
        if x.v is not None and t >= LIST:
            ann = tuple([token(a, rng) for a in x.ann])
            if t == STRUCT:
                d = IonPyDict.from_value(IonType.STRUCT, {}, ann)
                for n, c in x.v:
                    d.add_item(n if isinstance(n, str) else None, to_mixed(c, rng, native))
                return d
            return IonPyList.from_value(ITYPE[t], [to_mixed(c, rng, native) for c in x.v], ann)
        return to_ion(x, rng)
    t, v = x.t, x.v
    if t == NULL:
        return None
    if t == LIST:
        return [to_mixed(c, rng, native) for c in v]
    if t == STRUCT:
        return dict((n, to_mixed(c, rng, native)) for n, c in v)
    if t == SYMBOL:
        return token(v)
    return real_scalar(x, rng)


# -- writers -----------------------------------------------------------------------------------------------------------
def drive_writer(writer, events, pieces=None):
    """Sends events, drains pending output; returns the list of (piece, event type) handed out per event."""
    out = []
    for e in events:
        got = []
        r = writer.send(e)
        got.append((bytes(r.data), r.type))
        n = 0
        while r.type is WriteEventType.HAS_PENDING:
            r = writer.send(None)
            got.append((bytes(r.data), r.type))
            n += 1
            if n > 10 ** 5:
                raise Violation('the writer never stops having pending output')
        out.append(got)
    return out


def written(writer, events):
    return b''.join([p for got in drive_writer(writer, events) for p, _ in got])


def same(expected, found, what):
    """Raises Violation unless two lists of values are identical."""
    if keys(expected) != keys(found):
        raise Violation('%s: %s' % (what, first_difference(list(expected), list(found))))


def describe_error(e):
    return '%s: %s' % (type(e).__name__, str(e)[:300])
