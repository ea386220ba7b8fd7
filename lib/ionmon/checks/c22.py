import copy
import pickle
from collections import namedtuple
from datetime import datetime, timedelta
from amazon.ion.core import MemoizingThunk, TimestampPrecision, DataEvent, Transition
from amazon.ion.core import ION_STREAM_END_EVENT, ION_STREAM_INCOMPLETE_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.reader import ReadEventType
from amazon.ion.writer import WriteEventType
from amazon.ion.symbols import SymbolToken, ImportLocation
from amazon.ion.util import Enum, record, unicode_iter, coroutine
from ..common import *

RULE = ('Events: random pairs of events, equal ones built again in another way and ones that differ in a single component, as eager and lazy events, '
        'including events the real readers produce; == and != in both orders are compared with a component-wise reference, and each derivation is checked '
        'to change the named component only, to leave the original as it was and not to compute lazy values; the number of computations of every lazy value is '
        'counted, failing ones included.  Records and enumerations: random declarations, legal and illegal, against a plain model of their fields, defaults and members.  '
        'Code points: random texts with surrogates, paired, unpaired and split between pieces, iterated and read by the real text reader.  Distinct: different cases.')
ASSUMPTIONS = ['the value of an event fits its Ion type, or is None', 'lazy events are built with a value', 'a plain datetime is not compared with a timestamp of more than six fractional digits']
MIN = {'pairs': 8000, 'pairs.equal': 2500, 'pairs.different': 3500, 'pairs.lazy': 3000, 'derived': 8000, 'derived.lazy': 3000, 'thunks': 2500, 'thunks.failing': 700,
       'alike': 30000, 'records': 1200, 'records.parts': 200, 'records.illegal': 300, 'refused': 5000, 'enums': 700, 'enums.illegal': 150, 'enum.copies': 3000, 'texts': 2000, 'texts.bad': 500,
       'texts.paired': 700, 'read.surrogates': 600, 'coroutines': 300}
THOROUGH = 25

ETYPES = list(IonEventType)


# -- events ------------------------------------------------------------------------------------------------------------
class Lazy(object):
    """A delegate that counts its calls."""

    def __init__(self, value, fail=0):
        self.value = value
        self.calls = 0
        self.fail = fail

    def __call__(self):
        self.calls += 1
        if self.fail:
            self.fail -= 1
            raise KeyError('not yet')
        return self.value


def event_key(t, v):
    """Equality of values in events: the Ion rules, except that trailing zeros of fractional seconds do not count."""
    if v is None:
        return None
    if t == TIMESTAMP:
        v = list(v)
        f = v[7]
        if f is not None:
            c, d = f
            while d > 0 and c % 10 == 0:
                c, d = c // 10, d - 1
            v[7] = (c, d)
        else:
            v[7] = (0, 0)
        return tuple(v)
    return payload_key(t, v)


def names(r):
    return r.choice([None, '', 'a', 'abc', '\u2603', ('a', None), ('a', 4), ('a', 10), (None, 0), (None, 10), (None, 11), ('a', 10, ('t', 1)), ('a', 10, ('t', 2)),
                     ('b', 10)])


def name_of(x):
    if isinstance(x, tuple):
        return SymbolToken(x[0], x[1], ImportLocation(*x[2]) if len(x) > 2 else None)
    return x


def components(r, g):
    t = r.choice(list(range(13)))
    v = None
    if NULL < t < LIST and r.random() < 0.9:
        v = g.scalar(t)
    return {'e': r.choice(ETYPES), 't': r.choice([t] * 9 + [None]) if v is None else t, 'v': v, 'f': names(r),
            'a': tuple(names(r) or 'x' for _ in range(r.choice([0, 0, 1, 2, 2, 3, 4]))), 'd': r.choice([None, 0, 1, 2, 7])}


def near(r, g, c):
    """The components with one of them changed, most often slightly."""
    c = dict(c)
    x = r.choice('etvvvvvfad')
    if x == 'e':
        c['e'] = r.choice(ETYPES)
    elif x == 't':
        c['t'] = r.choice([None, NULL, LIST, STRUCT]) if c['v'] is None else SYMBOL if c['t'] == STRING else STRING if c['t'] == SYMBOL and isinstance(c['v'], str) \
            else CLOB if c['t'] == BLOB else BLOB if c['t'] == CLOB else c['t']
        if c['t'] == SYMBOL and not isinstance(c['v'], (str, type(None))):
            c['t'] = STRING
    elif x == 'f':
        c['f'] = names(r)
    elif x == 'a':
        a = list(c['a'])
        if a and r.random() < 0.5:
            r.shuffle(a)
            if r.random() < 0.5:
                a[0] = names(r) or 'y'
        elif a and r.random() < 0.5:
            a.pop()
        else:
            a.append(names(r) or 'z')
        c['a'] = tuple(a)
    elif x == 'd':
        c['d'] = r.choice([None, 0, 1, 2])
    else:
        t, v = c['t'], c['v']
        if v is None:
            if t is not None and NULL < t < LIST:
                c['v'] = g.scalar(t)
        elif r.random() < 0.1:
            c['v'] = None
        elif t == FLOAT:
            c['v'] = r.choice([-v, v, float('nan'), 0.0, -0.0, v * 1.0000000000000002, float('inf')])
        elif t == DECIMAL:
            n, k, e = v
            c['v'] = r.choice([(not n, k, e), (n, k * 10, e - 1), (n, k, e + 1), (n, 0, e), (n, k + 1, e), (not n, 0, e)])
        elif t == TIMESTAMP:
            p, y, mo, d, h, mi, s, f, off = v
            ways = []
            if p == SECOND:
                ways.append((p, y, mo, d, h, mi, (s + 1) % 60, f, off))
                ways.append((p, y, mo, d, h, mi, s, (1, 7), off))
                ways.append((p, y, mo, d, h, mi, s, (2, 7), off))
                ways.append((p, y, mo, d, h, mi, s, (10, 2), off))
                ways.append((p, y, mo, d, h, mi, s, (100, 3), off))
                ways.append((p, y, mo, d, h, mi, s, (123456, 6), off))
                ways.append((p, y, mo, d, h, mi, s, (1234567, 7), off))
                if f is not None:
                    # One unit after the last digit, or far behind it.
                    k = r.choice([1, 1, 3, 12, 17, 25])
                    ways += [(p, y, mo, d, h, mi, s, (f[0] * 10 ** k + 1, f[1] + k), off)] * 3
            if p >= MINUTE:
                off2 = None if off is not None else 0
                ways.append((p, y, mo, d, h, mi, s, f, off2))
                if off is not None and 2 < y < 9998:
                    total = h * 60 + mi + 30
                    if total < 24 * 60:
                        # The same instant at another offset.
                        o = off + 30
                        if abs(o) < 24 * 60:
                            ways.append((p, y, mo, d, total // 60, total % 60, s, f, o))
                if s == 0 and not f:
                    ways.append((SECOND if p == MINUTE else MINUTE, y, mo, d, h, mi, 0, None, off))
            elif p == DAY:
                ways.append((MINUTE, y, mo, d, 0, 0, 0, None, off))
            if p <= DAY and d == 1:
                ways.append((MONTH, y, mo, 1, 0, 0, 0, None, None))
            if ways:
                w = r.choice(ways)
                if w[8] is None or utc_ok(w):
                    c['v'] = w
        elif t == BOOL:
            c['v'] = not v
        elif t == INT:
            c['v'] = r.choice([-v, v + 1, v ^ 1, v])
        elif t == STRING:
            c['v'] = v + 'x' if r.random() < 0.5 else v[:-1]
        elif t in (CLOB, BLOB):
            c['v'] = v + b'\0' if r.random() < 0.5 else v[:-1]
        elif t == SYMBOL:
            c['v'] = g.scalar(SYMBOL)
    return c


def utc_ok(v):
    from ..gen import utc_in_range
    return utc_in_range(v)


def build(ctx, c, lazy, plain=False):
    """(event, delegate)"""
    r = ctx.rng
    t = None if c['t'] is None else ITYPE[c['t']]
    v = None
    if c['v'] is not None:
        if c['t'] == SYMBOL and isinstance(c['v'], str):
            v = SymbolToken(c['v'], None)
        elif c['t'] == SYMBOL:
            v = SymbolToken(None, 0) if c['v'] == SYM0 else token(c['v'])
        elif c['t'] == TIMESTAMP and plain:
            p, y, mo, d, h, mi, s, f, off = c['v']
            micro = 0 if f is None else f[0] * 10 ** (6 - f[1])
            v = datetime(y, mo, d, h, mi, s, micro, tz(off))
        else:
            v = real_scalar(V(c['t'], c['v']), r)
        if c['t'] == FLOAT:
            v = float(v)
    f = name_of(c['f'])
    a = tuple(name_of(x) for x in c['a'])
    delegate = None
    if lazy:
        delegate = Lazy(v)
        if r.random() < 0.8:
            return IonThunkEvent(c['e'], t, delegate, f, a, c['d']), delegate
        return IonThunkEvent(event_type=c['e'], ion_type=t, value=delegate, field_name=f, annotations=a, depth=c['d']), delegate
    if r.random() < 0.8:
        return IonEvent(c['e'], t, v, f, a, c['d']), None
    return IonEvent(c['e'], ion_type=t, depth=c['d'], annotations=a, field_name=f, value=v), None


def image_of(c):
    return (c['e'], c['t'], None if c['v'] is None else event_key(c['t'], c['v']), c['f'], c['a'], c['d'])


def compare(ctx, x, y, want, what):
    for a, b in ((x, y), (y, x)):
        got = a == b
        if got is not want:
            ctx.fail('%s: %r == %r is %r' % (what, a, b, got))
        got = a != b
        if got is not (not want):
            ctx.fail('%s: %r != %r is %r' % (what, a, b, got))


def stamps(ctx):
    """Events of timestamps and datetimes that are nearly alike."""
    r = ctx.rng
    v = Gen(r).scalar(TIMESTAMP)
    if v[0] == SECOND and r.random() < 0.6:
        v = v[:6] + ((0, None) if r.random() < 0.7 else (v[6], None)) + v[8:]
    events(ctx, dict(e=IonEventType.SCALAR, t=TIMESTAMP, v=v, f=r.choice([None, 'f']), a=(), d=r.choice([None, 0])))


def events(ctx, c=None):
    r = ctx.rng
    g = Gen(r)
    if c is None:
        c = components(r, g)
    other = r.random()
    # Deliberately also the same components, built another way.
    d = dict(c) if other < 0.4 else near(r, g, c) if other < 0.9 else components(r, g)
    lx, ly = r.random() < 0.4, r.random() < 0.4
    micro = lambda q: q['t'] == TIMESTAMP and q['v'] is not None and q['v'][0] == SECOND and (q['v'][7] is None or q['v'][7][1] <= 6)
    both = micro(c) and (d['t'] != TIMESTAMP or d['v'] is None or d['v'][7] is None or d['v'][7][1] <= 6)
    px = both and r.random() < 0.3
    py = micro(d) and (c['t'] != TIMESTAMP or both) and not px and r.random() < 0.3
    x, dx = build(ctx, c, lx, px)
    y, dy = build(ctx, d, ly, py)
    want = image_of(c) == image_of(d)
    ctx.n('pairs')
    ctx.n('pairs.equal' if want else 'pairs.different')
    if lx or ly:
        ctx.n('pairs.lazy')
    what = 'events of %r and %r' % (c, d)
    ctx.note(what)
    if ctx.wants_sample():
        ctx.sample('%s: %s' % (what, 'equal' if want else 'different'))
    compare(ctx, x, y, want, what)
    for e in (x, y):
        compare(ctx, e, e, True, what)
    for e, dd in ((x, dx), (y, dy)):
        if dd is not None and dd.calls > 1:
            ctx.fail('%s: computed %d times' % (what, dd.calls))
    # An event equals no plain tuple or other object, in the events' own comparison.
    for o in (None, 1, 'x', object()):
        if x == o or not (x != o):
            ctx.fail('%s: %r equals %r' % (what, x, o))
    ctx.distinct(repr(image_of(c)), repr(image_of(d)))
    derive(ctx, c, r.random() < 0.5)


ALIKE = [(BOOL, [False, True]), (INT, [0, 1, 2 ** 53, 10 ** 22]), (FLOAT, [0.0, -0.0, 1.0, 2.0 ** 53, 1e22, float('nan')]),
         (DECIMAL, [Decimal(0), Decimal('-0'), Decimal('0.0'), Decimal(1), Decimal('1.0'), Decimal(2 ** 53), Decimal('1E+22'), Decimal(10 ** 22)]),
         (SYMBOL, [SymbolToken('a', None), SymbolToken('', None), SymbolToken(None, 0)]), (STRING, ['a', '', '0']), (CLOB, [b'a', b'']), (BLOB, [b'a', b'']),
         (TIMESTAMP, [Timestamp(1, 1, 1, precision=TimestampPrecision.YEAR), Timestamp(1, 1, 1, precision=TimestampPrecision.DAY)])]


def alike(ctx):
    """Events of different types whose values Python holds to be equal, every ordered pair."""
    r = ctx.rng
    made = []
    for t, vs in ALIKE:
        for v in [None] + r.sample(vs, r.randint(1, len(vs))):
            lazy = r.random() < 0.3
            ev = IonThunkEvent(SCALAR, ITYPE[t], MemoizingThunk(lambda v=v: v)) if lazy else IonEvent(SCALAR, ITYPE[t], v)
            made.append((t, v, ev))
    for i, (t, v, x) in enumerate(made):
        for j, (u, w, y) in enumerate(made):
            try:
                got = (x == y, x != y)
            except Exception as e:
                ctx.fail('comparing %r and %r: %s' % (x, y, describe_error(e)))
            if got != (i == j, i != j):
                ctx.fail('%r and %r compare %r' % (x, y, got))
            ctx.n('alike')
    ctx.distinct(repr([(t, v) for t, v, _ in made]))


def derive(ctx, c, lazy):
    r = ctx.rng
    x, delegate = build(ctx, c, lazy)
    orig = list(x)
    chain = []
    at = x
    model = dict(f=orig[3], a=orig[4], d=orig[5])
    value = None
    for _ in range(r.choice([1, 1, 2, 4])):
        way = r.choice('fadfadv')
        before = list(at)
        ctx.n('derived')
        if lazy:
            ctx.n('derived.lazy')
        if way == 'f':
            new = name_of(names(r))
            nxt = at.derive_field_name(new)
            model['f'] = new
        elif way == 'a':
            new = tuple(name_of(names(r) or 'x') for _ in range(r.choice([0, 1, 2])))
            nxt = at.derive_annotations(new)
            model['a'] = new
        elif way == 'd':
            new = r.choice([None, 0, 1, 5])
            nxt = at.derive_depth(new)
            model['d'] = new
        else:
            new = [object()]
            nxt = at.derive_value(new)
            value = new
        chain.append(way)
        what = 'derived by %s from %r' % (''.join(chain), c)
        if delegate is not None and delegate.calls:
            ctx.fail('%s: deriving computed the value' % what)
        if any(p is not q for p, q in zip(before, at)) or len(at) != 6:
            ctx.fail('%s: the original changed to %r' % (what, list(at)))
        for want, got, n in ((orig[0], nxt.event_type, 'event type'), (orig[1], nxt.ion_type, 'Ion type'), (model['f'], nxt.field_name, 'field name'),
                             (model['a'], nxt.annotations, 'annotations'), (model['d'], nxt.depth, 'depth')):
            if want is not got:
                ctx.fail('%s: %s is %r instead of %r' % (what, n, got, want))
        if not isinstance(nxt, IonEvent):
            ctx.fail('%s: not an event: %r' % (what, nxt))
        if value is not None and (isinstance(nxt, IonThunkEvent) or nxt.value is not value):
            ctx.fail('%s: value %r' % (what, nxt.value))
        at = nxt
    order = [x, at]
    r.shuffle(order)
    seen = {}
    for e in order + order:
        v = e.value
        k = id(e)
        if k in seen and seen[k] is not v:
            ctx.fail('derived by %s: value %r, then %r' % (chain, seen[k], v))
        seen[k] = v
        if e is x or value is None:
            want = delegate.value if lazy else orig[2]
            if v is not want:
                ctx.fail('derived by %s: value %r instead of %r' % (chain, v, want))
    if delegate is not None and delegate.calls != 1:
        ctx.fail('derived by %s: value computed %d times' % (chain, delegate.calls))


def thunks(ctx):
    r = ctx.rng
    v = r.choice([None, 0, '', [], float('nan'), 'x', (), object(), False, {'a': 1}])
    fail = r.choice([0, 0, 1, 2])
    d = Lazy(v, fail)
    ctx.n('thunks')
    if fail:
        ctx.n('thunks.failing')
    if r.random() < 0.5:
        m = MemoizingThunk(d)
        get = m
    else:
        ev = IonThunkEvent(SCALAR, IonType.INT, d)
        for _ in range(r.choice([0, 1, 2])):
            ev = r.choice([ev.derive_depth, ev.derive_field_name])(None)
        m = None
        get = lambda: ev.value
    if d.calls:
        ctx.fail('thunk of %r: computed at once' % (v,))
    for i in range(fail):
        try:
            x = get()
        except KeyError:
            ctx.n('refused')
        else:
            ctx.fail('thunk of %r: %r although computing failed' % (v, x))
        if d.calls != i + 1:
            ctx.fail('thunk of %r: computed %d times after %d attempts' % (v, d.calls, i + 1))
    for i in range(r.choice([1, 2, 5])):
        how = r.choice(['call', 'call', 'str', 'repr']) if m is not None else 'call'
        if how == 'call':
            if get() is not v:
                ctx.fail('thunk of %r gives %r' % (v, get()))
        else:
            f = str if how == 'str' else repr
            if f(m) != f(v):
                ctx.fail('%s of the thunk of %r is %s' % (how, v, f(m)))
        if d.calls != fail + 1:
            ctx.fail('thunk of %r: computed %d times' % (v, d.calls - fail))
    ctx.distinct(repr(type(v)), fail, m is None)


def from_readers(ctx):
    """Events of the real readers: two readers of the same data give equal events, and a lazy value is one object."""
    r = ctx.rng
    g = Gen(r, budget=10)
    values = g.stream(r.choice([1, 2, 4]))
    if r.random() < 0.5:
        kind, data = 'binary', StreamEnc(r).stream(values)
    else:
        kind, data = 'text', TextEnc(r).stream(values).encode('utf-8')
    managed = r.random() < 0.5

    def all_of():
        out = []
        rd = raw_of(kind)
        if managed:
            rd = managed_reader(rd)
        ev = rd.send(NEXT_EVENT)
        fed = 0
        while True:
            if ev.event_type in (STOP, INCOMPLETE):
                if fed == 0:
                    ev = rd.send(read_data_event(data))
                    fed = 1
                elif ev.event_type is STOP:
                    return out
                elif fed < 4:
                    fed += 1
                    ev = rd.send(NEXT_EVENT)
                else:
                    ctx.fail('no end')
                continue
            out.append(ev)
            ev = rd.send(NEXT_EVENT)
    a, b = all_of(), all_of()
    what = '%s%s %s' % ('managed ' if managed else '', kind, ascii(data)[:300])
    if len(a) != len(b):
        ctx.fail('%s: %d events, then %d' % (what, len(a), len(b)))
    for x, y in zip(a, b):
        # Looked at late: the reader has moved on.
        v = x.value
        if x.value is not v:
            ctx.fail('%s: the value of %r is computed again' % (what, x))
        ctx.n('reader.events')
        compare(ctx, x, y, True, what)
        z = x.derive_depth(x.depth)
        compare(ctx, x, z, True, what)
        if z.value is not v:
            ctx.fail('%s: a derived event computes the value of %r again' % (what, x))
        z = x.derive_depth(99)
        compare(ctx, x, z, False, what)
        # Every other part of the event derived, and derived back.
        name = r.choice([None, None, 'other', SymbolToken('tok', 12)])
        z = x.derive_field_name(name)
        if z.field_name != name or z.value is not v or z.depth != x.depth or z.annotations != x.annotations or z.event_type is not x.event_type or z.ion_type is not x.ion_type:
            ctx.fail('%s: %r with the field name %r is %r' % (what, x, name, z))
        compare(ctx, x, z.derive_field_name(x.field_name), True, what)
        marks = r.choice([(), ('m',), (SymbolToken('tok', 12), 'n')])
        z = x.derive_annotations(marks)
        if z.annotations != marks or z.value is not v or z.depth != x.depth or z.field_name != x.field_name or z.event_type is not x.event_type or z.ion_type is not x.ion_type:
            ctx.fail('%s: %r with the annotations %r is %r' % (what, x, marks, z))
        compare(ctx, x, z.derive_annotations(x.annotations), True, what)
        z = x.derive_value(77)
        if z.value != 77 or z.annotations != x.annotations or z.depth != x.depth or z.field_name != x.field_name or z.event_type is not x.event_type or z.ion_type is not x.ion_type:
            ctx.fail('%s: %r with the value 77 is %r' % (what, x, z))
    ctx.distinct(what)


# -- records -----------------------------------------------------------------------------------------------------------
FIELD_NAMES = ['a', 'b', 'c', 'value', 'type', 'data', 'x1', 'name', 'depth', 'long_field_name', 'A', 'Z']


def refused(ctx, kinds, f, what):
    try:
        got = f()
    except kinds:
        ctx.n('refused')
    else:
        ctx.fail('%s: %r instead of %s' % (what, got, kinds))


def records(ctx):
    r = ctx.rng
    n = r.choice([1, 1, 2, 3, 5, 8])
    fields = r.sample(FIELD_NAMES, n)
    k = r.randint(0, n)     # fields with defaults are the last k
    defaults = [r.choice([None, 0, '', (), 5, [1], object()]) for _ in range(k)]
    decl = list(fields[:n - k]) + [(f, d) for f, d in zip(fields[n - k:], defaults)]
    x = r.random()
    if x < 0.25:
        ctx.n('records.illegal')
        bad = list(decl)
        way = r.choice(['order', 'type', 'triple', 'single', 'number'])
        if way == 'order':
            bad.insert(r.randint(0, n - 1), ('z9', 1))
            at = [isinstance(q, tuple) for q in bad]
            if at == sorted(at):
                bad.append('z8')
        else:
            bad.insert(r.randint(0, n), {'type': True, 'triple': ('q', 1, 2), 'single': ('q',), 'number': 3.5}[way])

        def declare():
            class Rec(record(*bad)):
                pass
            return Rec
        refused(ctx, ValueError, declare, 'record%r' % (bad,))
        ctx.distinct(way, len(bad))
        return
    y = r.random()
    if y < 0.6:
        class Rec(record(*decl)):
            pass
    elif y < 0.8:
        # The fields declared in several parts.
        cut = sorted(r.randint(0, n) for _ in range(r.choice([1, 1, 2])))
        parts = [decl[i:j] for i, j in zip([0] + cut, cut + [n])]
        ctx.n('records.parts')
        Rec = type(record(*parts[0]))('Rec', tuple(record(*p) for p in parts), {})
    else:
        class Rec(record(*decl)):
            def second(self):
                return self[0]
    cls = Rec
    if r.random() < 0.3:
        class Sub(Rec):
            def extra(self):
                return 42
        cls = Sub
    ctx.n('records')
    what = 'record%r' % (decl,)
    if tuple(cls._fields) != tuple(fields):
        ctx.fail('%s: fields %r' % (what, cls._fields))
    for _ in range(r.choice([1, 3])):
        given = {}
        pos = r.randint(0, n)
        vals = [r.choice([None, 0, 1, 'x', (1,), [2], object(), float('nan')]) for _ in range(n)]
        args = vals[:pos]
        kw = {}
        missing = False
        for i in range(pos, n):
            if i < n - k:
                if r.random() < 0.9:
                    kw[fields[i]] = vals[i]
                else:
                    missing = True
            elif r.random() < 0.5:
                kw[fields[i]] = vals[i]
        if missing:
            refused(ctx, TypeError, lambda: cls(*args, **kw), what + ' with a field missing')
            continue
        rec = cls(*args, **kw)
        want = []
        for i in range(n):
            want.append(vals[i] if i < pos else kw[fields[i]] if fields[i] in kw else defaults[i - (n - k)])
        if type(rec) is not cls or len(rec) != n or not isinstance(rec, tuple):
            ctx.fail('%s: %r' % (what, rec))
        for i, f in enumerate(fields):
            if rec[i] is not want[i] or getattr(rec, f) is not want[i]:
                ctx.fail('%s: field %s is %r, [%d] is %r, given %r %r' % (what, f, getattr(rec, f), i, rec[i], args, kw))
        if list(map(id, rec)) != list(map(id, want)):
            ctx.fail('%s: iterates as %r' % (what, list(rec)))
        f = r.choice(fields)
        refused(ctx, AttributeError, lambda: setattr(rec, f, 99), what + ' set')
        refused(ctx, AttributeError, lambda: delattr(rec, f), what + ' deleted')
        refused(ctx, TypeError, lambda: rec.__setitem__(0, 1) if hasattr(rec, '__setitem__') else _no(rec), what + ' item set')
        if getattr(rec, f) is not want[fields.index(f)]:
            ctx.fail('%s: field %s changed' % (what, f))
        refused(ctx, TypeError, lambda: cls(*(vals + [1])), what + ' with too many')
        refused(ctx, TypeError, lambda: cls(*args, **dict(kw, nofield=1)), what + ' with an unknown one')
        if pos:
            refused(ctx, TypeError, lambda: cls(*args, **dict(kw, **{fields[0]: 1})), what + ' with one twice')
        twin = cls(*want)
        if not (rec == twin) or rec != twin:
            ctx.fail('%s: %r and %r are not equal' % (what, rec, twin))
        j = r.randrange(n)
        diff = cls(*[object() if i == j else w for i, w in enumerate(want)])
        if rec == diff or not (rec != diff):
            ctx.fail('%s: %r and %r are equal' % (what, rec, diff))
        try:
            h = hash(tuple(want))
        except TypeError:
            pass
        else:
            if hash(rec) != hash(twin):
                ctx.fail('%s: hashes of equal records differ' % what)
        c = copy.copy(rec)
        if c != rec or type(c) is not cls:
            ctx.fail('%s: copy %r of %r' % (what, c, rec))
        rep = rec._replace(**{f: 'new'})
        if type(rep) is not cls or getattr(rep, f) != 'new' or any(rep[i] is not want[i] for i in range(n) if fields[i] != f):
            ctx.fail('%s: replacing %s gave %r' % (what, f, rep))
    ctx.distinct(n, k, cls is not Rec, tuple(fields))


def _no(rec):
    rec[0] = 1


def library_records(ctx):
    """Records of the library itself survive copying and pickling."""
    r = ctx.rng
    loc = ImportLocation(r.choice(['a', 't', '\u2603']), r.choice([1, 2, 99]))
    tok = SymbolToken(r.choice(['a', '', '\u2603']), r.choice([None, 0, 10]), r.choice([None, loc]))
    ev = IonEvent(r.choice(ETYPES), r.choice(list(IonType)), r.choice([None, 1, 'x', tok, b'x']), r.choice([None, 'f', tok]), r.choice([(), ('a', tok)]), r.choice([None, 0, 3]))
    things = [loc, tok, ev, DataEvent(r.choice(list(ReadEventType) + list(WriteEventType)), r.choice([None, b'', b'x'])), Transition(ev, None)]
    for x in things:
        for c in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x, r.randint(0, pickle.HIGHEST_PROTOCOL)))):
            if type(c) is not type(x) or tuple(c) != tuple(x) or not (c == x) or c != x:
                ctx.fail('copy of %r is %r' % (x, c))
            for p, q in zip(c, x):
                if isinstance(q, Enum) and p is not q:
                    ctx.fail('copy of %r: member %r became another %r' % (x, q, p))
            ctx.n('record.copies')
    refused(ctx, ValueError, lambda: SymbolToken(None, None), 'symbol token of nothing')
    for e, k in ((ION_STREAM_END_EVENT, IonEventType.STREAM_END), (ION_STREAM_INCOMPLETE_EVENT, IonEventType.INCOMPLETE)):
        if tuple(e) != (k, None, None, None, (), None):
            ctx.fail('%r' % (e,))
    if tuple(ION_VERSION_MARKER_EVENT) != (IonEventType.VERSION_MARKER, None, (1, 0), None, (), 0):
        ctx.fail('%r' % (ION_VERSION_MARKER_EVENT,))
    ctx.distinct(repr(things))


# -- enumerations ------------------------------------------------------------------------------------------------------
LIBRARY = {
    IonType: dict(zip([n.upper() for n in NAMES], range(13))),
    IonEventType: dict(INCOMPLETE=-2, STREAM_END=-1, VERSION_MARKER=0, SCALAR=1, CONTAINER_START=2, CONTAINER_END=3),
    TimestampPrecision: dict(YEAR=0, MONTH=1, DAY=2, MINUTE=3, SECOND=4),
}
MADE = []       # declared enumerations that can be pickled, as module attributes


def check_enum(ctx, cls, members, what):
    if sorted(cls) != sorted(members.values()) or len(list(cls)) != len(members):
        ctx.fail('%s: iterates as %r' % (what, list(cls)))
    for name, value in members.items():
        m = getattr(cls, name)
        if type(m) is not cls or m.name != name or m.value != value or m != value or int(m) != value or hash(m) != hash(value) or not isinstance(m, int):
            ctx.fail('%s: member %s = %r is %r, %r, %r' % (what, name, value, m, m.name, m.value))
        if cls[value] is not m:
            ctx.fail('%s: lookup of %r gives %r' % (what, value, cls[value]))
        if sum(1 for q in cls if q is m) != 1:
            ctx.fail('%s: %r is not among %r' % (what, m, list(cls)))
        if name not in str(m) or name not in repr(m):
            ctx.fail('%s: %s shown as %s' % (what, name, m))
        for c in (copy.copy(m), copy.deepcopy(m), copy.deepcopy([m])[0]):
            if c is not m:
                ctx.fail('%s: a copy of %r is another object' % (what, m))
            ctx.n('enum.copies')
    for v in range(-3, 20):
        if v not in members.values():
            refused(ctx, KeyError, lambda: cls[v], '%s: lookup of %r' % (what, v))
    ms = [getattr(cls, n) for n in members]
    for x in ms:
        for y in ms:
            if (x == y) is not (x.value == y.value) or (x < y) is not (x.value < y.value) or (x is y) is not (x.value == y.value):
                ctx.fail('%s: %r and %r compare wrongly' % (what, x, y))


def enums(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 3, 6])
    ns = r.sample(['A', 'B', 'FIRST', 'x', 'lower', 'C3', 'END', 'Q_Q', 'Z'], n)
    vs = r.sample([-5, -1, 0, 1, 2, 3, 7, 255, 10 ** 20], n)
    attrs = {'__module__': __name__, '__doc__': 'x', '_hidden': 5}
    items = list(zip(ns, vs))
    r.shuffle(items)
    attrs.update(items)
    attrs['method'] = lambda self: self.value + 1
    attrs['prop'] = property(lambda self: self.name)
    ctx.n('enums')
    if r.random() < 0.25:
        ctx.n('enums.illegal')
        attrs['bad'] = r.choice(['x', 1.5, None, (1,), b''])
        refused(ctx, TypeError, lambda: type(Enum)('E', (Enum,), attrs), 'enumeration %r' % attrs)
        return
    cls = type(Enum)('E', (Enum,), attrs)
    what = 'enumeration %r' % (dict(items),)
    check_enum(ctx, cls, dict(items), what)
    for m in cls:
        if m.method() != m.value + 1 or m.prop != m.name:
            ctx.fail('%s: %r, %r' % (what, m.method(), m.prop))
    if cls._hidden != 5:
        ctx.fail('%s: hidden attribute' % what)
    # Enumerations are separate from each other.
    other = type(Enum)('E', (Enum,), {'__module__': __name__, 'OTHER': 3})
    check_enum(ctx, other, {'OTHER': 3}, 'another enumeration')
    check_enum(ctx, cls, dict(items), what)
    lib = r.choice(list(LIBRARY))
    check_enum(ctx, lib, LIBRARY[lib], lib.__name__)
    for lib in [IonType, IonEventType, TimestampPrecision, ReadEventType, WriteEventType]:
        m = r.choice(list(lib))
        for p in range(pickle.HIGHEST_PROTOCOL + 1):
            if pickle.loads(pickle.dumps(m, p)) is not m:
                ctx.fail('%r pickled is another object' % (m,))
            ctx.n('enum.copies')
    for t in IonType:
        if t.is_container is not (t.value >= LIST) or t.is_text is not (t.value in (SYMBOL, STRING)) or t.is_lob is not (t.value in (CLOB, BLOB)):
            ctx.fail('kind of %r' % t)
    for t in IonEventType:
        if t.begins_value is not (t.name in ('SCALAR', 'CONTAINER_START')) or t.ends_container is not (t.name in ('STREAM_END', 'CONTAINER_END')) \
                or t.is_stream_signal is not (t.name in ('STREAM_END', 'INCOMPLETE')):
            ctx.fail('kind of %r' % t)
    for t in TimestampPrecision:
        if [t.includes_month, t.includes_day, t.includes_minute, t.includes_second] != [t.value >= i for i in (1, 2, 3, 4)]:
            ctx.fail('fields of %r' % t)
    ctx.distinct(repr(sorted(items)))


# -- code points -------------------------------------------------------------------------------------------------------
def high_low(cp):
    cp -= 0x10000
    return chr(0xd800 + (cp >> 10)) + chr(0xdc00 + (cp & 0x3ff))


def code_points(ctx):
    r = ctx.rng
    want, text = [], ''
    bad = None
    n = r.choice([0, 1, 2, 5, 20])
    ill = r.choice([0, 0, 0.1, 0.4])
    for _ in range(n):
        x = r.random()
        if x < ill and bad is None:
            bad = r.choice(['low', 'high', 'end'])
            at = len(want)
            if bad == 'low':
                text += chr(r.choice([0xdc00, 0xdfff, 0xdd12]))
            else:
                text += chr(r.choice([0xd800, 0xdbff, 0xd912]))
                if bad == 'high':
                    text += chr(r.choice([0x41, 0xd7ff, 0xd800, 0xdbff, 0xe000, 0x10000, 0xdbff]))
                else:
                    break
        cp = r.choice(['a', 'a', 'x', '\x00', '\x7f', '\xff', '\u0100', '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0010ffff', '\U0001f600'])
        if ord(cp) > 0xffff and r.random() < 0.6:
            text += high_low(ord(cp))
            if bad is None:
                ctx.n('texts.paired')
        else:
            text += cp
        if bad is None:
            want.append(ord(cp))
    ctx.n('texts')
    if bad:
        ctx.n('texts.bad')
    got = []
    err = None
    try:
        for x in unicode_iter(text):
            got.append(x)
            if len(got) > len(text):
                ctx.fail('%r: more code points than units' % ascii(text))
    except ValueError as e:
        err = e
    if [int(x) for x in got] != want:
        ctx.fail('code points of %s: %r instead of %r' % (ascii(text), got, want))
    if (err is not None) != (bad is not None):
        ctx.fail('code points of %s: %r' % (ascii(text), err))
    ctx.distinct(ascii(text))


def read_surrogates(ctx):
    """The text reader on characters with astral ones spelled as surrogate pairs, cut anywhere."""
    r = ctx.rng
    values = Gen(r, budget=10, types=[STRING, SYMBOL, LIST, STRUCT, INT]).stream(r.choice([1, 2, 3]))
    values.insert(r.randint(0, len(values)), V(LIST, [V(STRING, 'a'), V(SYMBOL, 'b'), V(STRUCT, [('k\U0001f600', V(STRING, ''))], ('ann\U00010000',))]))
    for v in [y for x in values for y, _ in walk(x)]:
        if v.v is not None and v.t in (STRING, SYMBOL) and isinstance(v.v, str) and r.random() < 0.8:
            v.v += ''.join(r.choice(['\U0001f600', '\U00010000', '\U0010ffff', 'x']) for _ in range(r.choice([1, 3])))
    text = TextEnc(r, wild=r.choice([0, 0.4]), comments=r.random() < 0.5).stream(values)
    data = ''.join(high_low(ord(ch)) if ord(ch) > 0xffff and r.random() < 0.8 else ch for ch in text)
    n = sum(1 for ch in data if '\ud800' <= ch <= '\udbff')
    if n:
        ctx.n('read.surrogates')
    pieces = cut(r, data)
    what = '%s in pieces of %r' % (ascii(data)[:400], [len(p) for p in pieces][:40])
    ctx.note(what)
    tree, err = read_pieces('unicode', pieces)
    if err is not None:
        ctx.fail('%s: %s' % (what, describe_error(err)))
    same(values, tree.values, what)
    if n:
        # A pair torn apart is refused.
        at = r.choice([i for i, ch in enumerate(data) if '\ud800' <= ch <= '\udbff'])
        bad = data[:at] + data[at + 1:] if r.random() < 0.5 else data[:at + 1] + data[at + 2:]
        if r.random() < 0.3:
            bad = data[:at] + data[at + 1] + data[at] + data[at + 2:]
        tree, err = read_pieces('unicode', cut(r, bad))
        if err is None:
            # A torn pair in a comment need not be noticed, but what is read must be right.
            if keys(tree.values) != keys(values):
                ctx.fail('a torn surrogate pair in %s is read as %r' % (ascii(bad)[:400], tree.values))
        else:
            ctx.n('refused')
    ctx.distinct(ascii(data)[:300], len(pieces))


def coroutines(ctx):
    r = ctx.rng
    n = r.randint(0, 4)
    log = []

    @coroutine
    def acc(a, b=2):
        """Doc."""
        total = a + b
        got = yield
        while True:
            log.append(got)
            total += got
            got = yield total
    c = acc(r.randint(0, 5), b=n)
    start = None
    sent = [r.randint(0, 9) for _ in range(5)]
    outs = [c.send(x) for x in sent]
    for i in range(1, 5):
        if outs[i] - outs[i - 1] != sent[i]:
            ctx.fail('coroutine: %r for %r' % (outs, sent))
    if log != sent or acc.__name__ != 'acc' or acc.__doc__ != 'Doc.':
        ctx.fail('coroutine: %r' % log)

    @coroutine
    def eager():
        yield 1
    refused(ctx, TypeError, eager, 'a coroutine that yields a value at once')
    ctx.n('coroutines')
    ctx.distinct(n, tuple(sent))


FAMILIES = [('alike', alike, 100), ('events', events, 12000), ('stamps', stamps, 5000), ('thunks', thunks, 4000), ('readers', from_readers, 600), ('records', records, 2500), ('library_records', library_records, 300),
            ('enums', enums, 1200), ('code_points', code_points, 4000), ('surrogates', read_surrogates, 1000), ('coroutines', coroutines, 500)]
