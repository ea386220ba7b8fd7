import copy
import pickle
from datetime import datetime, timedelta, timezone, tzinfo
from decimal import Decimal, Inexact, Rounded, localcontext

from amazon.ion.simpleion import dumps, loads
from ..common import *
from ..binref import varuint, varint
from ..gen import days_in, utc_in_range, _ordinal_minutes

RULE = ('Timestamps with random and boundary fields, fractions of up to 60 digits and every kind of offset are made through each form of '
        'the constructors, read from text and binary written by independent encoders, taken through sweeps of years over all '
        'month ends and offsets, and then written, copied, pickled, converted to Ion-typed values and back and dumped; after every step '
        'a monitor reads all fields, precision, fraction digits and offset and compares them with the reference.  Contradictory and '
        'out-of-range arguments must raise ValueError.  Some cases run under hostile decimal contexts.  Every offset, day of a year, minute, second, thousandth and year in all the forms.  Distinct: different '
        '(precision, fields, digits, offset) and route.')
ASSUMPTIONS = ['known offsets go with minute precision or better', 'fields beyond the precision have their least value',
               'local and UTC forms lie in years 1 to 9999']
MIN = {'constructed': 5000, 'grid.offsets': 2500, 'grid.days': 650, 'grid.minutes': 1300, 'grid.years': 9000, 'text.read': 3500, 'binary.read': 3500, 'sweep': 20000, 'crossing.day': 3000, 'crossing.year': 500, 'refused': 5000, 'copies': 5000,
       'datetimes': 2000, 'adjusted': 2000, 'digits.over-28': 300, 'contexts': 300, 'zones': 1300, 'zones.seconds': 300, 'native': 1600}
THOROUGH = 20
IVM_ = IVM


class OtherTZ(timezone):
    pass


def sometimes_context(ctx):
    """A decimal context that must not matter."""
    r = ctx.rng
    if r.random() < 0.12:
        c = localcontext()
        x = c.__enter__()
        x.prec = r.choice([1, 2, 3, 5, 9])
        if r.random() < 0.5:
            x.traps[Inexact] = x.traps[Rounded] = True
        ctx.n('contexts')
        return c
    return None


def guarded(f):
    def g(ctx):
        c = sometimes_context(ctx)
        try:
            return f(ctx)
        finally:
            if c is not None:
                c.__exit__(None, None, None)
    return g


def look(ctx, obj, want, what):
    """The monitor of one timestamp object."""
    got = timestamp_of(obj)
    if got != want:
        ctx.fail('%s: expected %r, found %r (%r)' % (what, want, got, obj))
    if isinstance(obj, Timestamp):
        if (obj.fractional_seconds.as_tuple().exponent != -(want[7][1] if want[7] else 0)) or obj.fractional_precision != min(6, want[7][1] if want[7] else 0):
            ctx.fail('%s: fraction %r with fractional precision %r, expected %r' % (what, obj.fractional_seconds, obj.fractional_precision, want[7]))


def zone(off, r):
    if off is None:
        return None
    return r.choice([OffsetTZInfo, OffsetTZInfo, timezone])(timedelta(minutes=off))


def construct(v, r):
    """(object, way) through one form of the constructors; v as the model has it."""
    p, y, mo, d, h, mi, s, f, off = v
    kw = {}
    micro = None
    way = []
    if f is None:
        x = r.random()
        if x < 0.3:
            kw['fractional_seconds'] = r.choice([Decimal(0), Decimal('0E+3'), Decimal('0E+1'), Decimal('0.'), None])
            way.append('fs0')
        elif x < 0.5:
            micro, kw['fractional_precision'] = 0, 0
            way.append('fp0')
    elif f[1] == 6 and r.random() < 0.3:
        micro = f[0]
        way.append('micro')
    elif f[1] <= 6 and r.random() < 0.5:
        micro, kw['fractional_precision'] = f[0] * 10 ** (6 - f[1]), f[1]
        way.append('fp')
    else:
        kw['fractional_seconds'] = fraction_decimal(f)
        way.append('fs')
    if p != SECOND or r.random() < 0.8:
        kw['precision'] = PREC[p]
    else:
        way.append('no-precision')
    fields = [y, mo, d, h, mi, s]
    if r.random() < 0.4:
        way.append('timestamp()')
        if off is not None:
            sign = -1 if off < 0 else 1
            q, m = sign * (abs(off) // 60), sign * (abs(off) % 60)
            if m and abs(q) < 23 and r.random() < 0.3:
                # The same offset with arguments of different signs.
                q, m = q + sign, m - sign * 60
                way.append('mixed-signs')
            if q or m or r.random() < 0.7:
                if q or r.random() < 0.5:
                    kw['off_hours'] = q
                if m or 'off_hours' not in kw:
                    kw['off_minutes'] = m
            else:
                kw['off_hours'] = 0
        if micro is not None:
            kw['microsecond'] = micro
        if r.random() < 0.3:
            return timestamp(year=y, month=mo, day=d, hour=h, minute=mi, second=s, **kw), way
        k = 6
        while k > 1 and fields[k - 1] == (1 if k <= 3 else 0) and r.random() < 0.6:
            k -= 1
        return timestamp(*fields[:k], **kw), way
    t = zone(off, r)
    x = r.random()
    if x < 0.35:
        return Timestamp(y, mo, d, h, mi, s, micro, t, **kw), way + ['positional']
    if micro is not None:
        kw['microsecond'] = micro
    if t is not None or r.random() < 0.3:
        kw['tzinfo'] = t
    if x < 0.6:
        return Timestamp(year=y, month=mo, day=d, hour=h, minute=mi, second=s, **kw), way + ['keywords']
    k = 6
    while k > 3 and fields[k - 1] == 0 and r.random() < 0.6:
        k -= 1
    return Timestamp(*fields[:k], **kw), way + ['mixed']


def written_forms(ctx, obj, want, what, typed=None):
    """Writes the value in text and binary and reads it with the independent decoders; dumps too."""
    r = ctx.rng
    x = V(TIMESTAMP, want, getattr(obj, 'ion_annotations', ()))
    binary = r.random() < 0.5
    if isinstance(obj, _ION) or r.random() < 0.5:
        wrap = r.random() < 0.3
        data = dumps([obj] if wrap else obj, binary=binary)
        what += ', dumps'
        if wrap:
            x = V(LIST, [x])
    else:
        w = binary_writer() if binary else text_writer()
        data = written(w, [IonEvent(SCALAR, IonType.TIMESTAMP, obj, annotations=x.ann), ION_STREAM_END_EVENT])
        if not binary:
            data = data.decode('ascii')
    try:
        found = BinDec(data).decode() if binary else TextDec(data).decode()
    except (Bad, Unsure) as e:
        ctx.fail('%s: written as %r: %s' % (what, data, e))
    same([x], found, '%s, written as %r' % (what, data))
    back = loads(data)
    same([x], [value_of(back)], '%s, loaded from %r' % (what, data))
    ctx.n('written')
    return back[0] if x.t == LIST else back


_ION = (IonPyTimestamp,)


def copies(ctx, obj, want, what):
    r = ctx.rng
    for k in range(r.randint(1, 3)):
        x = r.randrange(5)
        if x == 0:
            new = copy.copy(obj)
        elif x == 1:
            new = copy.deepcopy(obj)
        elif x == 2:
            new = pickle.loads(pickle.dumps(obj, r.randint(0, pickle.HIGHEST_PROTOCOL)))
        elif x == 3:
            new = IonPyTimestamp.from_value(IonType.TIMESTAMP, obj, ('a',))
        else:
            new = IonPyTimestamp.from_event(IonEvent(SCALAR, IonType.TIMESTAMP, obj))
        if x <= 2 and type(new) is not type(obj):
            ctx.fail('%s: a copy of a %s is a %s' % (what, type(obj).__name__, type(new).__name__))
        if new.tzinfo is not None and new.utcoffset() != obj.utcoffset():
            ctx.fail('%s: offset of a copy' % what)
        look(ctx, new, want, '%s, copy %d' % (what, x))
        ctx.n('copies')
        obj = new
    return obj


def record(ctx, v, *route):
    p, y, mo, d, h, mi, s, f, off = v
    ctx.n('precision.%d' % p)
    if f is not None:
        ctx.max('digits', f[1])
        if f[1] > 28:
            ctx.n('digits.over-28')
    if off:
        m = _ordinal_minutes(y, mo, d, h, mi)
        if (m - off) // 1440 != m // 1440:
            ctx.n('crossing.day')
            u = datetime(y, mo, d, h, mi) - timedelta(minutes=off)
            if u.month != mo:
                ctx.n('crossing.month')
            if u.year != y:
                ctx.n('crossing.year')
    ctx.distinct(v, *route)


def more_digits(r, v):
    """Sometimes far more digits."""
    if v[0] == SECOND and r.random() < 0.15:
        n = r.choice([7, 12, 27, 28, 29, 30, 45, 60])
        return v[:7] + ((r.choice([0, 1, 10 ** n - 1, r.randint(0, 10 ** n - 1), int('9' * 6 + '5' * (n - 6))]), n),) + v[8:]
    return v


@guarded
def constructed(ctx):
    r = ctx.rng
    g = Gen(r)
    for _ in range(6):
        v = more_digits(r, g.timestamp_())
        obj, way = construct(v, r)
        what = 'constructed (%s)' % ' '.join(way)
        ctx.note('%s %r' % (what, v))
        ctx.n('constructed')
        if 'no-precision' in way and obj.precision is not None:
            ctx.fail('%s: precision %r' % (what, obj.precision))
        look(ctx, obj, v, what)
        record(ctx, v, *way)
        if ctx.wants_sample():
            ctx.sample('%s: %r' % (what, v))
        obj2 = copies(ctx, obj, v, what) if r.random() < 0.5 else obj
        written_forms(ctx, obj2, v, what)
        look(ctx, obj, v, what + ', after it was used')


@guarded
def read(ctx):
    """Text and binary of independent encoders, read, written again, copied."""
    r = ctx.rng
    g = Gen(r)
    vs = [more_digits(r, g.timestamp_()) for _ in range(8)]
    binary = r.random() < 0.5
    if binary:
        data = StreamEnc(r, wild=r.choice([0, 0.3, 0.6]), nops=0.02).stream([V(TIMESTAMP, v) for v in vs])
    else:
        data = TextEnc(r, wild=0.2).stream([V(TIMESTAMP, v) for v in vs])
        if r.random() < 0.5:
            data = data.encode('utf-8')
    kind = 'binary' if binary else 'text' if isinstance(data, bytes) else 'unicode'
    pieces = cut(r, data)
    what = '%s read from %r' % (kind, data[:600])
    ctx.note(what)
    reader = make_reader(kind)
    events = []
    i = 0
    ev = reader.send(NEXT_EVENT)
    flushes = 0
    while len(events) < len(vs):
        if ev.event_type is SCALAR:
            events.append(ev)
            ev = reader.send(NEXT_EVENT)
        elif i < len(pieces):
            ev = reader.send(read_data_event(pieces[i]))
            i += 1
        else:
            flushes += 1
            if flushes > 3:
                ctx.fail('%s: only %d timestamps' % (what, len(events)))
            ev = reader.send(NEXT_EVENT)
    for ev, v in zip(events, vs):
        look(ctx, ev.value, v, what)
        ctx.n('binary.read' if binary else 'text.read')
        record(ctx, v, kind)
        obj = ev.value
        if r.random() < 0.4:
            obj = copies(ctx, obj, v, what)
        if r.random() < 0.4:
            obj = written_forms(ctx, obj, v, what)
            look(ctx, obj, v, what + ', written and loaded')
            if r.random() < 0.3:
                copies(ctx, obj, v, what)


OFFSETS = [1, -1, 59, -59, 60, -60, 61, -61, 330, -210, 719, 720, -720, 839, -839, 1439, -1439, 0]


def sweep(ctx):
    """All month ends of a year with offsets around every crossing."""
    r = ctx.rng
    y = [1, 2, 4, 99, 100, 400, 1582, 1600, 1699, 1700, 1800, 1896, 1900, 1904, 1970, 1999, 2000, 2001, 2003, 2004, 2100, 2400, 8191, 8192, 9998, 9999][ctx.i % 26] if ctx.i < 52 else r.randint(1, 9999)
    vs = []
    for mo in range(1, 13):
        for d in (1, 28, days_in(y, mo)):
            for h, mi in ((0, 0), (23, 59), r.choice([(0, 1), (0, 59), (1, 0), (11, 59), (12, 0), (12, 1), (23, 0)])):
                for off in r.sample(OFFSETS, 3):
                    p = r.choice([MINUTE, SECOND])
                    s = r.choice([0, 59]) if p == SECOND else 0
                    f = r.choice([None, (0, 3), (999999, 6), (10 ** 9 - 1, 9)]) if p == SECOND else None
                    v = (p, y, mo, d, h, mi, s, f, off)
                    if utc_in_range(v):
                        vs.append(v)
    x = r.random()
    values = [V(TIMESTAMP, v) for v in vs]
    objs = [construct(v, r)[0] for v in vs]
    for v, o in zip(vs, objs):
        look(ctx, o, v, 'sweep, constructed')
        record(ctx, v, 'sweep', x < 0.5)
    ctx.n('sweep', len(vs))
    binary = r.random() < 0.6
    # Written by the library, read by the independent decoder and by the library.
    data = dumps(objs, binary=binary, sequence_as_stream=True)
    try:
        found = BinDec(data).decode() if binary else TextDec(data).decode()
    except (Bad, Unsure) as e:
        ctx.fail('sweep of %d: written as %r: %s' % (y, data[:300], e))
    same(values, found, 'sweep of %d, written' % y)
    same(values, [value_of(o) for o in loads(data, single_value=False)], 'sweep of %d, written and loaded' % y)
    if binary:
        data = StreamEnc(r, wild=0.2, nops=0).stream(values)
        same(values, [value_of(o) for o in loads(data, single_value=False)], 'sweep of %d, read' % y)


GRIDS = [('offsets', 2879, 80), ('days', 731, 80), ('minutes', 1440, 80), ('seconds', 60, 60), ('thousandths', 1000, 80), ('years', 9999, 400)]


def grid(ctx):
    """Every offset, every day of a year, every minute of a day, every second, every thousandth and every year, in all the forms."""
    r = ctx.rng
    i = ctx.i
    while True:
        for name, size, block in GRIDS:
            blocks = -(-size // block)
            if i < blocks:
                break
            i -= blocks
        else:
            continue
        break
    vs = []
    y = r.choice([1904, 1970, 1999, 2000, 2023, r.randint(2, 9998)])
    for k in range(i * block, min(size, (i + 1) * block)):
        off = r.choice([None, 0, 30, -30, 15 * r.randint(-95, 95)])
        p, mo, d, h, mi, s, f = r.choice([MINUTE, SECOND, SECOND]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), 0, None
        if name == 'offsets':
            off = k - 1439
        elif name == 'days':
            x = datetime(1999, 1, 1) + timedelta(days=k)
            y, mo, d = x.year, x.month, x.day
        elif name == 'minutes':
            h, mi = divmod(k, 60)
        elif name == 'seconds':
            p, s = SECOND, k
        elif name == 'thousandths':
            p, s, f = SECOND, r.randint(0, 59), (k, 3)
        elif k:
            y = k + 1
            p = r.choice([YEAR, MONTH, DAY, p])
        if p < MINUTE:
            mo, d, h, mi, s, off = (mo if p > YEAR else 1), (d if p > MONTH else 1), 0, 0, 0, None
        if p == SECOND and s == 0:
            s = r.choice([0, 0, 59, r.randint(0, 59)])
        v = (p, y, mo, d, h, mi, s, f, off)
        if utc_in_range(v):
            vs.append(v)
    what = 'all %s, block %d' % (name, i)
    values = [V(TIMESTAMP, v) for v in vs]
    objs = [construct(v, r)[0] for v in vs]
    for v, o in zip(vs, objs):
        look(ctx, o, v, what + ', constructed')
    ctx.n('grid.' + name, len(vs))
    ctx.distinct(what)
    for binary in (True, False):
        data = dumps(objs, binary=binary, sequence_as_stream=True)
        try:
            found = BinDec(data).decode() if binary else TextDec(data).decode()
        except (Bad, Unsure) as e:
            ctx.fail('%s: written as %r: %s' % (what, data[:300], e))
        same(values, found, what + ', written')
        same(values, [value_of(o) for o in loads(data, single_value=False)], what + ', written and loaded')
    same(values, [value_of(o) for o in loads(StreamEnc(r, wild=0.2, nops=0).stream(values), single_value=False)], what + ', read from binary')
    same(values, [value_of(o) for o in loads(TextEnc(r).stream(values), single_value=False)], what + ', read from text')


def adjusted(ctx):
    """Local timestamps from UTC fields."""
    r = ctx.rng
    g = Gen(r)
    for _ in range(6):
        v = more_digits(r, g.timestamp_())
        p, y, mo, d, h, mi, s, f, off = v
        if p < MINUTE or off is None:
            u = v
        else:
            x = datetime(y, mo, d, h, mi) - timedelta(minutes=off)
            u = (p, x.year, x.month, x.day, x.hour, x.minute, s, f, off)
        kw = dict(precision=PREC[p])
        if f is not None:
            if f[1] <= 6 and r.random() < 0.5:
                kw.update(microsecond=f[0] * 10 ** (6 - f[1]), fractional_precision=f[1])
            else:
                kw['fractional_seconds'] = fraction_decimal(f)
        got = Timestamp.adjust_from_utc_fields(*u[1:7], tzinfo=zone(off, r), **kw)
        look(ctx, got, v, 'adjusted from UTC fields %r' % (u,))
        if not isinstance(got, Timestamp):
            ctx.fail('adjusted from UTC fields: %r' % (got,))
        ctx.n('adjusted')
        record(ctx, v, 'adjusted')


@guarded
def datetimes(ctx):
    """Plain datetimes are written with all six digits."""
    r = ctx.rng
    g = Gen(r)
    for _ in range(5):
        while True:
            v = g.timestamp_()
            if v[0] == SECOND:
                break
        micro = r.choice([0, 1, 10, 100000, 999999, 120000, r.randint(0, 999999)])
        off = v[8]
        v = v[:7] + ((micro, 6), off)
        obj = datetime(*(v[1:7] + (micro, zone(off, r))))
        back = written_forms(ctx, obj, v, 'datetime %r' % (obj,))
        look(ctx, back, v, 'datetime %r, dumped and loaded' % (obj,))
        look(ctx, copies(ctx, IonPyTimestamp.from_value(IonType.TIMESTAMP, obj), v, 'datetime'), v, 'datetime, Ion-typed')
        ctx.n('datetimes')
        record(ctx, v, 'datetime')


class Ragged(tzinfo):
    """A time zone like those of civil time: the offset depends on the datetime, and may have seconds."""
    def __init__(self, early, late, year, folded):
        self.early, self.late, self.year, self.folded = early, late, year, folded

    def __getinitargs__(self):
        return self.early, self.late, self.year, self.folded

    def utcoffset(self, dt):
        if dt is None:
            return None
        if self.folded is not None and dt.fold:
            return timedelta(seconds=self.folded)
        at = self.early if dt.year < self.year else self.late
        return None if at is None else timedelta(seconds=at)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return 'X'


def zones(ctx):
    """Time zones whose offset depends on the datetime, is not a whole number of minutes or is unknown: the instant is kept, and the offset to the minute."""
    r = ctx.rng
    g = Gen(r)
    for _ in range(4):
        while True:
            v = g.timestamp_()
            if v[0] == SECOND and 2 < v[1] < 9998:
                break

        def offset():
            x = r.random()
            if x < 0.15:
                return None
            if x < 0.5:
                return 60 * r.choice([0, 60, -60, 120, 330, -210, 1439, -1439, r.randint(-1439, 1439)])
            return r.choice([30, -30, 1, -1, 59, -59, 3630, -3630, r.randint(-86399, 86399)])
        year = r.choice([v[1], v[1] + 1, 1900, 2000, 2008])
        z = Ragged(offset(), offset(), year, r.choice([None, offset() or 0]))
        f = v[7]
        fold = r.choice([0, 0, 1])
        if r.random() < 0.5:
            micro = r.choice([0, 1, 120000, 999999])
            obj = datetime(*(v[1:7] + (micro, z)), fold=fold)
            f = (micro, 6)
        else:
            obj = Timestamp(*(v[1:7] + (None, z)), precision=PREC[SECOND], fractional_seconds=None if f is None else fraction_decimal(f), fold=fold)
        off = z.folded if fold and z.folded is not None else z.early if v[1] < year else z.late
        what = '%r (%r seconds, fold %d)' % (obj, off, fold)
        if r.random() < 0.3:
            obj = IonPyTimestamp.from_value(IonType.TIMESTAMP, obj)
            what += ', Ion-typed'
        if r.random() < 0.3:
            obj = r.choice([copy.copy, lambda q: pickle.loads(pickle.dumps(q))])(obj)
            what += ', copied'
        if (obj.utcoffset() is None) != (off is None) or off is not None and obj.utcoffset() != timedelta(seconds=off):
            ctx.fail('%s has offset %r' % (what, obj.utcoffset()))
        pair = []
        for binary in (False, True):
            data = dumps(obj, binary=binary)
            try:
                found = BinDec(data).decode() if binary else TextDec(data).decode()
            except (Bad, Unsure) as e:
                ctx.fail('%s: written as %r: %s' % (what, data, e))
            if len(found) != 1 or found[0].t != TIMESTAMP:
                ctx.fail('%s: written as %r' % (what, data))
            same(found, [value_of(loads(data))], '%s, loaded from %r' % (what, data))
            got = found[0].v
            if got[0] != SECOND or got[7] != f or (got[8] is None) != (off is None):
                ctx.fail('%s: written as %r, which is %r' % (what, data, got))
            if off is None:
                if got[1:7] != v[1:7]:
                    ctx.fail('%s: written as %r, which is %r' % (what, data, got))
            else:
                instant = datetime(*v[1:7]) - timedelta(seconds=off)
                if datetime(*got[1:7]) - timedelta(minutes=got[8]) != instant:
                    ctx.fail('%s: written as %r, which is another instant' % (what, data))
                if abs(got[8] * 60 - off) >= 60 or off % 60 == 0 and got[8] * 60 != off:
                    ctx.fail('%s: written as %r, with another offset' % (what, data))
            pair.append(got)
        if pair[0] != pair[1]:
            ctx.fail('%s: text gives %r, binary %r' % (what, pair[0], pair[1]))
        ctx.n('zones')
        ctx.n('zones.seconds' if off is not None and off % 60 else 'zones.minutes')
        ctx.distinct('zone', str(obj), off, fold)


def native(ctx):
    """The results of the operations of datetime on timestamps, compared with those on a plain datetime."""
    r = ctx.rng
    g = Gen(r)
    for _ in range(5):
        while True:
            v = g.timestamp_()
            if 2 < v[1] < 9998:
                break
        p, y, mo, d, h, mi, s, f, off = v
        obj, _ = construct(v, r)
        micro = 0 if f is None else f[0] * 10 ** 6 // 10 ** f[1]
        plain = datetime(y, mo, d, h, mi, s, micro, zone(off, r))
        if r.random() < 0.5:
            obj = IonPyTimestamp.from_value(IonType.TIMESTAMP, obj, annotations=r.choice([(), ('a',)]))
        delta = timedelta(days=r.choice([0, 1, -1, 40]), seconds=r.choice([0, 1, 86399, -5]), microseconds=r.choice([0, 0, 1, 500000]))
        kw = dict((k, q) for k, q in (('year', 2004), ('month', 1), ('day', 28), ('hour', 23), ('minute', 1), ('second', 59), ('microsecond', 120000)) if r.random() < 0.3)
        if 'day' not in kw:
            kw['day'] = min(d, 28)
        if r.random() < 0.3:
            kw['tzinfo'] = r.choice([None, OffsetTZInfo(timedelta(minutes=90)), timezone.utc])
        target = r.choice([timezone.utc, OffsetTZInfo(timedelta(minutes=-570)), timezone(timedelta(hours=3))])
        name, op = r.choice([('+ %r' % delta, lambda q: q + delta), ('%r +' % delta, lambda q: delta + q), ('- %r' % delta, lambda q: q - delta), ('replace(%r)' % kw, lambda q: q.replace(**kw)),
                             ('astimezone(%r)' % target, lambda q: q.astimezone(target)), ('combine', lambda q: type(q).combine(q.date(), q.timetz())),
                             ('fromisoformat', lambda q: type(q).fromisoformat(plain.isoformat())), ('fromtimestamp', lambda q: type(q).fromtimestamp(86400 * 365 + 0.25, timezone.utc)),
                             ('strptime', lambda q: type(q).strptime('2000-02-03 04:05:06.078', '%Y-%m-%d %H:%M:%S.%f'))])
        what = '%r %s' % (obj, name)
        want = op(plain)
        got = op(obj)
        repr(got)
        if type(obj) is not Timestamp and type(got) is type(obj) and getattr(got, 'ion_type', None) is None:
            # A class method of an Ion-typed class, which was not given an Ion type.
            got = IonPyTimestamp.from_value(IonType.TIMESTAMP, got)
        fields = timestamp_of(got)
        ref = timestamp_of(want)
        if fields[1:7] != ref[1:7] or fields[8] != ref[8] or got.microsecond != want.microsecond:
            ctx.fail('%s gives %r instead of %r' % (what, got, want))
        if got != want or hash(got) != hash(want):
            ctx.fail('%s gives %r, not equal to %r' % (what, got, want))
        for binary in (False, True):
            back = timestamp_of(loads(dumps(got, binary=binary)))
            if back != fields:
                ctx.fail('%s gives %r, which is dumped as %r' % (what, got, back))
            if back[0] == SECOND and (0 if back[7] is None else back[7][0] * 10 ** 6 // 10 ** back[7][1]) != want.microsecond:
                ctx.fail('%s gives %r, which is dumped without its microseconds as %r' % (what, got, back))
        ctx.n('native')
        ctx.n('native.' + name.split('(')[0].split()[0])
        ctx.distinct('native', v, name)


def refused(ctx):
    """Contradictory or out-of-range arguments, and text and binary with such fields."""
    r = ctx.rng
    g = Gen(r)
    D = Decimal
    for _ in range(8):
        v = g.timestamp_()
        y, mo, d, h, mi, s = v[1:7]
        good = dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s)
        micro = r.randint(1, 999999)
        x = r.randrange(17)
        kw = dict(precision=TimestampPrecision.SECOND)
        if x == 0:
            good[r.choice(['month'])] = r.choice([0, 13, -1])
        elif x == 1:
            good['day'] = r.choice([0, 32, days_in(y, mo) + 1])
        elif x == 2:
            good['hour'] = r.choice([24, -1, 25])
        elif x == 3:
            good['minute'] = r.choice([60, -1, 99])
        elif x == 4:
            good['second'] = r.choice([60, 61, -1])
        elif x == 5:
            good['year'] = r.choice([0, 10000, -1])
            good['day'] = 1
        elif x == 6:
            kw.update(microsecond=micro, fractional_precision=r.choice([7, -1, 8, 100]))
        elif x == 7:
            kw.update(fractional_seconds=r.choice([D(1), D('1.0'), D('-0.1'), D('1.5'), D('-1'), D('0.1E1'), D('10E-1'), D('-0.00000000000000000000000000000000001'), D(60)]))
        elif x == 8:
            kw.update(fractional_seconds=D('0.5'), microsecond=r.choice([0, 500000]))
        elif x == 9:
            kw.update(fractional_seconds=r.choice([D('0.5'), D(0), D('0.000')]), fractional_precision=r.choice([0, 1, 3, 6]))
        elif x == 10:
            kw.update(fractional_precision=r.choice([0, 1, 6]))
        elif x == 11:
            kw.update(microsecond=micro, fractional_precision=0)
        elif x == 12:
            fp = r.randint(1, 5)
            kw.update(microsecond=r.randint(0, 10 ** fp - 1) * 10 ** (6 - fp) + r.choice([1, 10 ** (5 - fp), 10 ** (6 - fp) - 1]), fractional_precision=fp)
        elif x == 13:
            kw.update(microsecond=r.choice([-1, 10 ** 6, 10 ** 7]))
        elif x == 14:
            kw.update(off_hours=r.choice([24, -24, 25, 100, -100]))
        elif x == 15:
            kw.update(off_minutes=r.choice([60, -60, 61, 1440]))
        else:
            kw.update(off_hours=r.choice([23, 0]), off_minutes=r.choice([60, -60, 99]))
        both = [timestamp]
        if x < 14:
            both.append(Timestamp)
        for f in both:
            try:
                got = f(**dict(good, **kw))
            except ValueError:
                ctx.n('refused')
            except Exception as e:
                ctx.fail('%s(%r, %r): %s instead of ValueError' % (f.__name__, good, kw, describe_error(e)))
            else:
                ctx.fail('%s(%r, %r) accepted: %r' % (f.__name__, good, kw, got))
        ctx.distinct('api', x, str(good), str(kw))
    for delta in (timedelta(hours=24), timedelta(hours=-24), timedelta(days=2), timedelta(hours=r.randint(25, 1000))):
        try:
            OffsetTZInfo(delta)
        except ValueError:
            ctx.n('refused')
        else:
            ctx.fail('offset %r accepted' % (delta,))
    for _ in range(4):
        v = g.timestamp_()
        p, y, mo, d, h, mi, s, f, off = v
        if r.random() < 0.5:
            f4 = [y, mo, d, h, mi, s]
            k = r.randrange(6)
            f4[k] = [0, r.choice([0, 13, 99]), r.choice([0, 32, days_in(y, mo) + 1]), r.choice([24, 99]), r.choice([60, 99]), r.choice([60, 61])][k]
            o = r.choice(['Z', '-00:00', '+00:00', '+23:59', '-23:59'])
            if r.random() < 0.2:
                f4 = [2000, 1, 1, 0, 0, 0]
                o = r.choice(['+24:00', '-24:00', '+00:60', '-01:60', '+99:99'])
            text = '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(f4) + r.choice(['', '.0', '.123456789']) + o
            bad = text if r.random() < 0.5 else text.encode()
            ctx.distinct('text', text)
        else:
            f5 = [2000, 6, 15, 12, 30, 30]
            k = r.randrange(6)
            f5[k] = [0, r.choice([0, 13, 100]), r.choice([0, 31, 32]), r.choice([24, 63]), r.choice([60, 64]), r.choice([60, 63])][k]
            if k == 0:
                f5[0] = r.choice([0, 10000, 16383])
            frac = b''
            if r.random() < 0.2:
                f5 = [2000, 6, 15, 12, 30, 30]
                # A fraction of one or more, or below zero.
                frac = r.choice([b'\xc1\x0a', b'\xc1\x0b', b'\xc1\x81', b'\xc6\x0f\x42\x40', b'\xc3\x7f\xff', b'\x80\x01', b'\x81\x01'])
            off = r.choice([None, 0, 60, -1439])
            body = varint(off or 0, off is None) + b''.join([varuint(q) for q in f5]) + frac
            bad = IVM + bytes([0x60 | len(body)] if len(body) < 14 else [0x6e, 0x80 | len(body)]) + body
            ctx.distinct('binary', bad)
        try:
            got = loads(bad)
        except Exception:
            ctx.n('refused')
        else:
            ctx.fail('%r accepted: %r' % (bad, got))


FAMILIES = [('constructed', constructed, 1500), ('read', read, 1300), ('sweep', sweep, 100), ('grid', grid, 105), ('adjusted', adjusted, 600), ('datetimes', datetimes, 600), ('zones', zones, 500), ('native', native, 500), ('refused', refused, 700)]
