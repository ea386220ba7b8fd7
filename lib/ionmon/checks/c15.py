import decimal
import struct
import threading
from decimal import Decimal, localcontext
from fractions import Fraction

from amazon.ion.simpleion import dump, dumps, load, loads
from amazon.ion.writer_text import text_writer as _text_writer
from ..common import *

RULE = ('Integers up to thousands of bits, decimals with up to hundreds of digits and extreme exponents, and floats from random and boundary bit '
        'patterns are written by the library and read by independent decoders, encoded by independent encoders and read by the library, '
        'and transcoded through chains of formats, on the level of values and of events; payloads are compared exactly, floats bit by bit. '
        'All calls run under random decimal contexts (precision 1 and up, narrow exponent ranges, every rounding mode and trap), half '
        'of them in threads of their own.  Texts of floats half-way between neighbours are compared with correct rounding computed in '
        'rationals.  Decimal NaN and infinities must be refused.  Distinct: different values, route and context.')
ASSUMPTIONS = ['a NaN has no payload', 'text integers have at most 4000 digits']
MIN = {'numbers': 60000, 'int': 10000, 'float': 10000, 'decimal': 15000, 'contexts': 2500, 'threads': 800, 'transcoded': 2500, 'refused': 3000, 'half-way': 1500, 'negative-zero': 1500,
       'subnormal': 300, 'int.over-64-bits': 3000, 'decimal.over-28-digits': 3000}
THOROUGH = 20

ROUNDINGS = [decimal.ROUND_CEILING, decimal.ROUND_DOWN, decimal.ROUND_FLOOR, decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP,
             decimal.ROUND_UP, decimal.ROUND_05UP]
SIGNALS = [decimal.Clamped, decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.Overflow, decimal.Underflow, decimal.InvalidOperation,
           decimal.DivisionByZero, decimal.FloatOperation]


class Under(object):
    """Calls functions under one random decimal context, sometimes in another thread."""

    def __init__(self, ctx):
        r = ctx.rng
        self.ctx = ctx
        self.plain = r.random() < 0.25
        self.thread = r.random() < 0.3
        self.set = {}
        if not self.plain:
            self.set['prec'] = r.choice([1, 1, 2, 3, 5, 9, 28, 200])
            self.set['rounding'] = r.choice(ROUNDINGS)
            if r.random() < 0.5:
                self.set['Emax'] = r.choice([0, 1, 5, 100, 999999])
                self.set['Emin'] = -r.choice([0, 1, 5, 100, 999999])
            self.traps = r.sample(SIGNALS, r.choice([0, 2, 5, 9]))
            self.set['capitals'] = r.randint(0, 1)
            self.set['clamp'] = r.choice([0, 0, 1])
        ctx.note('decimal context: %r, traps %r' % (self.set, None if self.plain else self.traps))

    def enter(self):
        c = decimal.getcontext()
        if not self.plain:
            for k, v in self.set.items():
                setattr(c, k, v)
            for s in SIGNALS:
                c.traps[s] = s in self.traps

    def __call__(self, f, *args, **kw):
        if self.thread:
            out = []

            def run():
                try:
                    self.enter()
                    out.append((True, f(*args, **kw)))
                except Exception as e:
                    out.append((False, e))
            t = threading.Thread(target=run)
            t.start()
            t.join()
            self.ctx.n('threads')
            ok, x = out[0]
            if not ok:
                raise x
            return x
        self.ctx.n('contexts')
        with localcontext():
            self.enter()
            return f(*args, **kw)


def float_bits(r):
    x = r.random()
    if x < 0.35:
        return r.getrandbits(64)
    if x < 0.5:
        # Powers of two and their neighbours.
        return (((r.randint(0, 2046) << 52) + r.choice([0, 0, 1, -1, 2])) & ((1 << 63) - 1)) | (r.getrandbits(1) << 63)
    if x < 0.6:
        return r.choice([0, 1 << 63, 1, (1 << 63) | 1, (1 << 52) - 1, 1 << 52, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000])
    if x < 0.75:
        return r.getrandbits(r.randint(1, 52)) | (r.getrandbits(1) << 63)
    v = r.choice([float(r.randint(-10 ** 17, 10 ** 17)), r.randint(1, 999) * 10.0 ** r.randint(-20, 25), r.uniform(-1, 1), float(1 << r.randint(0, 100)),
                  struct.unpack('>f', struct.pack('>I', r.getrandbits(23) | r.randint(0, 254) << 23))[0]])
    return struct.unpack('>Q', struct.pack('>d', v))[0]


def float_value(r):
    return struct.unpack('>d', struct.pack('>Q', float_bits(r)))[0]


def int_value(r):
    x = r.random()
    if x < 0.4:
        b = r.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 96, 104, 112, 120, 128, 1000, 1023, 1024, 1025])
        v = (1 << b) + r.randint(-1, 1)
    elif x < 0.6:
        v = 10 ** r.choice([1, 2, 9, 10, 18, 19, 20, 27, 28, 29, 38, 100, 308, 309, 400]) + r.randint(-1, 1)
    elif x < 0.98:
        v = r.getrandbits(r.randint(1, 200))
    else:
        v = r.getrandbits(r.choice([2000, 4096, 8192]))
    return v if r.random() < 0.5 else -v


def decimal_value(r):
    x = r.random()
    if x < 0.15:
        c = 0
    elif x < 0.4:
        c = int_value(r)
    elif x < 0.6:
        n = r.choice([1, 2, 9, 17, 27, 28, 29, 30, 50, 100, 300])
        c = r.choice([10 ** n - 1, 10 ** n, 10 ** n + 1, 5 * 10 ** (n - 1), int('1234567890' * 30) % 10 ** n])
    elif x < 0.8:
        c = r.randint(0, 10 ** r.randint(1, 45)) * 10 ** r.choice([0, 0, 1, 3, 10])
    else:
        c = r.randint(0, 1000)
    y = r.random()
    if y < 0.4:
        e = r.randint(-10, 3)
    elif y < 0.6:
        e = -len(str(abs(c))) + r.randint(-8, 2)
    elif y < 0.8:
        e = r.choice([-1, 1]) * r.choice([63, 64, 65, 127, 128, 255, 8191, 8192, 8193, 16384, 32768])
    elif y < 0.93:
        e = r.randint(-500, 500)
    elif y < 0.97:
        e = r.randint(-10 ** 6, 10 ** 6)
    else:
        e = r.choice([-1, 1]) * ((1 << r.choice([12, 13, 14, 19, 20, 21, 26, 27, 28, 31, 32, 33, 34, 35, 40, 41, 47, 48])) + r.choice([-1, 0, 1]))
    return (r.random() < 0.5, abs(c), e)


def number(r, kinds=(INT, FLOAT, DECIMAL)):
    t = r.choice(kinds)
    return V(t, {INT: int_value, FLOAT: float_value, DECIMAL: decimal_value}[t](r))


def numbers(ctx):
    r = ctx.rng
    out = []
    for _ in range(r.randint(4, 20)):
        x = number(r)
        if x.t == INT:
            ctx.max('int.bits', x.v.bit_length())
            if x.v.bit_length() > 64:
                ctx.n('int.over-64-bits')
        elif x.t == DECIMAL:
            n = len(str(x.v[1]))
            ctx.max('decimal.digits', n)
            if n > 28:
                ctx.n('decimal.over-28-digits')
            if x.v[0] and x.v[1] == 0:
                ctx.n('negative-zero')
        elif x.v == 0 and struct.pack('>d', x.v)[0]:
            ctx.n('negative-zero')
        elif 0 < abs(x.v) < 2.2250738585072014e-308:
            ctx.n('subnormal')
        ctx.n('numbers')
        ctx.n(NAMES[x.t])
        if r.random() < 0.05:
            x = V(r.choice([LIST, SEXP]), [x])
        elif r.random() < 0.05:
            x = V(STRUCT, [('a', x)])
        elif r.random() < 0.05:
            x.ann = ('a',)
        out.append(x)
    return out


def decode(ctx, data, what):
    try:
        return BinDec(data).decode() if isinstance(data, bytes) and data[:4] == IVM else TextDec(data if isinstance(data, str) else data.decode('utf-8')).decode()
    except (Bad, Unsure) as e:
        ctx.fail('%s: %s: %r' % (what, e, data[:300]))


def write(under, r, values, binary, via):
    if via == 'events':
        def f():
            w = binary_writer() if binary else _text_writer()
            events = []
            for v in values:
                events += to_events(v, r)
            return written(w, events + [ION_STREAM_END_EVENT])
        return under(f)
    objs = [to_mixed(v, r, 0.6) if v.t in (INT, FLOAT, DECIMAL) or r.random() < 0.5 else to_ion(v, r) for v in values]
    return under(dumps, objs, binary=binary, sequence_as_stream=True)


def chunks(r, data):
    return cut(r, data) if len(data) < 3000 else [data]


def read(ctx, under, data, via, what):
    r = ctx.rng
    if via == 'load':
        try:
            return [value_of(o) for o in under(loads, data, single_value=False)]
        except Violation:
            raise
        except Exception as e:
            ctx.fail('%s: load of %r: %s' % (what, data[:300], describe_error(e)))
    kind = 'unicode' if isinstance(data, str) else 'binary' if data[:4] == IVM else 'text'
    pieces = chunks(r, data)
    tree, err = under(read_pieces, kind, pieces)
    if err is not None:
        ctx.fail('%s: reading %r: %s' % (what, data[:300], describe_error(err)))
    return tree.values


def outgoing(ctx):
    r = ctx.rng
    u = Under(ctx)
    values = numbers(ctx)
    binary = r.random() < 0.5
    via = r.choice(['events', 'dumps'])
    data = write(u, r, values, binary, via)
    what = 'written by %s as %s' % (via, 'binary' if binary else 'text')
    same(values, decode(ctx, data, what), '%s: %r' % (what, data[:1000]))
    same(values, read(ctx, u, data, r.choice(['load', 'events']), what), what + ', read back: %r' % data[:1000])
    record(ctx, values, what, u)


def record(ctx, values, what, u):
    for v in values:
        ctx.distinct(key(v), what, sorted(u.set.items()))
    if ctx.wants_sample():
        ctx.sample('%s under %r: %s' % (what, u.set, ', '.join(show(v)[:60] for v in values[:6])))


def incoming(ctx):
    r = ctx.rng
    u = Under(ctx)
    values = numbers(ctx)
    x = r.random()
    if x < 0.5:
        data = StreamEnc(r, wild=r.choice([0, 0.3, 0.6]), nops=0.02).stream(values)
        what = 'read from binary'
    else:
        data = TextEnc(r, wild=r.choice([0, 0.3])).stream(values)
        what = 'read from text'
        if x < 0.75:
            data = data.encode('utf-8')
            what = 'read from UTF-8 text'
    ctx.note(repr(data[:2000]))
    same(values, read(ctx, u, data, r.choice(['load', 'events']), what), '%s: %r' % (what, data[:1000]))
    record(ctx, values, what, u)


def chains(ctx):
    r = ctx.rng
    values = numbers(ctx)
    x = r.random()
    data = StreamEnc(r, wild=0.3, nops=0).stream(values) if x < 0.5 else TextEnc(r, wild=0.2).stream(values)
    route = []
    u = Under(ctx)
    for _ in range(r.randint(2, 5)):
        binary = r.random() < 0.5
        if r.random() < 0.5:
            objs = u(loads, data, single_value=False)
            u = Under(ctx)
            data = u(dumps, objs, binary=binary, sequence_as_stream=True)
            route.append('values to ' + ('binary' if binary else 'text'))
        else:
            u = Under(ctx)
            data = u(copy_events, r, data, binary)
            route.append('events to ' + ('binary' if binary else 'text'))
        ctx.n('transcoded')
        what = 'transcoded: ' + ', '.join(route)
        same(values, decode(ctx, data, what), '%s: %r' % (what, data[:1000]))
    record(ctx, values, str(route), u)


def copy_events(r, data, binary):
    """Transcodes on the level of events."""
    kind = 'unicode' if isinstance(data, str) else 'binary' if data[:4] == IVM else 'text'
    reader = blocking_reader(make_reader(kind), StringIO(data) if kind == 'unicode' else BytesIO(data), r.choice([1, 7, 4096]))
    w = binary_writer() if binary else _text_writer()
    out = []
    while True:
        ev = reader.send(NEXT_EVENT)
        out.append(written(w, [ev]))
        if ev.event_type is STOP:
            break
    return b''.join(out)


def half_way(ctx):
    """Texts of floats near the middle between two neighbours, or with many digits, against correct rounding."""
    r = ctx.rng
    u = Under(ctx)
    texts, want = [], []
    for _ in range(3):
        b = float_bits(r) & ((1 << 63) - 1)
        if b >= 0x7fe0000000000000:
            b = r.getrandbits(62)
        lo = struct.unpack('>d', struct.pack('>Q', b))[0]
        hi = struct.unpack('>d', struct.pack('>Q', b + 1))[0]
        mid = (Fraction(lo) + Fraction(hi)) / 2
        # The denominator is a power of two, so the decimal expansion is finite.
        k = mid.denominator.bit_length() - 1
        digits = mid.numerator * 5 ** k
        e = -k
        n = len(str(digits))
        way = r.randrange(4)
        if n > 900:
            way = 3
        if way == 0:
            c = digits
        elif way == 1:
            c, e = digits * 10 ** 3 + 1, e - 3
        elif way == 2:
            c, e = digits * 10 ** 3 - 1, e - 3
        else:
            keep = r.choice([17, 18, 20, 25, 40])
            cut_ = max(0, n - keep)
            c, e = digits // 10 ** cut_ + r.choice([0, 1]), e + cut_
        exact = Fraction(c) * Fraction(10) ** e
        # Correct rounding in rationals: nearest, ties to even.
        dl, dh = exact - Fraction(lo), Fraction(hi) - exact
        if dl < 0 or dh < 0:
            continue
        v = lo if dl < dh or (dl == dh and b % 2 == 0) else hi
        neg = r.random() < 0.5
        s = str(c)
        if r.random() < 0.5:
            text = '%se%d' % (s, e)
        else:
            text = '%s.%se%d' % (s[0], s[1:], e + len(s) - 1)
        if not s[1:]:
            text = '%se%d' % (s, e)
        texts.append(('-' if neg else '') + text)
        want.append(V(FLOAT, -v if neg else v))
    ctx.n('half-way', len(texts))
    data = ' '.join(texts)
    if r.random() < 0.5:
        data = data.encode()
    same(want, read(ctx, u, data, r.choice(['load', 'events']), 'half-way floats'), 'floats %r' % data[:1000])
    for t in texts:
        ctx.distinct(t)


def refused(ctx):
    r = ctx.rng
    for _ in range(3):
        u = Under(ctx)
        s = r.choice(['NaN', 'sNaN', 'Infinity', '-Infinity', '-NaN', 'NaN123', 'sNaN5', '-sNaN'])
        bad = Decimal(s)
        binary = r.random() < 0.5
        x = r.randrange(4)
        try:
            if x == 0:
                got = u(dumps, r.choice([bad, [bad], {'a': bad}, [1, {'a': [bad]}]]), binary=binary)
            elif x == 1:
                got = u(dumps, IonPyDecimal.from_value(IonType.DECIMAL, bad, r.choice([(), ('a',)])), binary=binary)
            elif x == 2:
                w = binary_writer() if binary else _text_writer()
                got = u(written, w, [IonEvent(SCALAR, IonType.DECIMAL, bad), ION_STREAM_END_EVENT])
            else:
                out = BytesIO()
                u(dump, [Decimal(1), bad], out, binary=binary, sequence_as_stream=r.random() < 0.5)
                got = out.getvalue()
        except Exception as e:
            ctx.n('refused')
        else:
            ctx.fail('decimal %s written as %r' % (s, got))
        ctx.distinct(s, x, binary, sorted(u.set.items()))


FAMILIES = [('outgoing', outgoing, 2200), ('incoming', incoming, 2200), ('chains', chains, 1000), ('half_way', half_way, 1000), ('refused', refused, 1500)]
