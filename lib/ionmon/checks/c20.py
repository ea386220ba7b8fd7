import io
from decimal import Decimal
from amazon.ion.core import ION_STREAM_END_EVENT, ION_STREAM_INCOMPLETE_EVENT, ION_VERSION_MARKER_EVENT, IonEvent, IonEventType, IonThunkEvent, \
    IonType, Timestamp
from amazon.ion.symbols import SymbolToken, shared_symbol_table
from amazon.ion.writer import blocking_writer, WriteEventType
from ..common import *
import datetime

RULE = ('Random histories of events, most of them legal up to a point, are sent to the text writer (compact and indented) and the binary writer '
        'with a monitor next to them that knows which containers are open, whether output is pending and which values were given.  Every answer is '
        'judged as it comes: its kind, and at each report of completion an independent decoder must find exactly the values given so far in the '
        'pieces handed out so far.  At the chosen point an illegal event (of the kinds the protocol forbids in that state) must be refused '
        'with an error.  Distinct: different histories.')
ASSUMPTIONS = ['a field name outside a struct, the type of a container end and the depth of an event are not part of the protocol; the writers ignore them',
               'bool values may be given as integers (IonPyBool is one), lob values as any object with the buffer protocol',
               'the answer to a version marker may be either completion or a request for input']
MIN = {'answers.complete': 20000, 'answers.needs-input': 40000, 'answers.pending': 20000, 'completions.decoded': 10000, 'refused': 20000,
       'refused.end': 300, 'refused.stream-end': 300, 'refused.version-marker': 300, 'refused.type': 10000, 'refused.pending': 300, 'refused.none': 300,
       'refused.incomplete': 300, 'refused.field': 250, 'refused.annotation': 300, 'refused.start': 300, 'segments': 8000, 'blocking.answers': 9000}
THOROUGH = 25

C, N, P = WriteEventType.COMPLETE, WriteEventType.NEEDS_INPUT, WriteEventType.HAS_PENDING
INT_ = IonType.INT


class Boom(Exception):
    pass


class Writer(object):
    """A writer with the monitor of its answers."""

    def __init__(self, ctx, kind):
        self.ctx = ctx
        r = ctx.rng
        self.kind = kind
        if kind == 'binary':
            self.imports = None
            self.cat = Catalog()
            if r.random() < 0.2:
                self.imports = [shared_symbol_table('t', 1, ['a', 'b', 'foo'])]
                self.cat.add('t', 1, ['a', 'b', 'foo'])
            self.w = binary_writer(self.imports)
        else:
            self.w = text_writer(indent=None if kind == 'text' else r.choice(['', ' ', '\t', '  \n']))
        self.out = []
        self.open = []          # containers open, as lists of children
        self.values = []        # top-level values given so far
        self.fresh = True       # binary: no value since the last stream end
        self.marks, self.marked = 0, False      # binary: streams begun, and whether the current one is
        self.log = []
        self.answer = None

    def fail(self, what):
        self.ctx.fail('%s writer: %s; events %s; output %r' % (self.kind, what, '; '.join(self.log[-30:]), b''.join(self.out)[-300:]))

    def name(self, e):
        if e is None:
            return 'nothing'
        if not isinstance(e, IonEvent):
            return repr(e)[:60]
        s = e.event_type.name if isinstance(e.event_type, IonEventType) else repr(e.event_type)
        if e.ion_type is not None:
            s += ' ' + getattr(e.ion_type, 'name', repr(e.ion_type))
        if not isinstance(e, IonThunkEvent) and e.value is not None:
            s += ' ' + ascii(e.value)[:60]
        if e.field_name is not None:
            s += ' in ' + ascii(e.field_name)[:60]
        return s

    def raw(self, e):
        a = self.w.send(e)
        if not isinstance(a.type, WriteEventType):
            self.fail('answer of type %r' % (a.type,))
        if not isinstance(a.data, (bytes, bytearray)):
            self.fail('answer with data %r' % (a.data,))
        self.out.append(bytes(a.data))
        self.ctx.n({C: 'answers.complete', N: 'answers.needs-input', P: 'answers.pending'}[a.type])
        self.answer = a
        return a

    def send(self, e):
        """A legal event."""
        self.log.append(self.name(e))
        try:
            a = self.raw(e)
            n = 0
            while a.type is P:
                a = self.raw(None)
                n += 1
                if n > 10 ** 5:
                    self.fail('output pending for ever')
        except Violation:
            raise
        except Exception as x:
            self.fail('a legal event is refused with %s' % describe_error(x))
        return a.type

    def judge(self, e, got, last):
        """The answer to a legal event, after the state has been updated."""
        et = e.event_type
        if et is IonEventType.VERSION_MARKER:
            want = (C, N)
        elif et is IonEventType.STREAM_END:
            want = (C,)
        elif self.kind != 'binary' and not self.open:
            want = (C,)
        else:
            want = (N,)
        if got not in want:
            self.fail('answer %s to %s with %d containers open' % (got.name, self.name(e), len(self.open)))
        if got is C and not self.open and (len(self.values) < 12 or last or self.ctx.rng.random() < 0.1):
            self.decode()

    def decode(self):
        data = b''.join(self.out)
        try:
            if self.kind == 'binary':
                dec = BinDec(data, self.cat)
                found = dec.decode() if data else []
                marks = sum(e[0] == 'ivm' for e in dec.events)
                if marks != self.marks:
                    self.fail('%d version markers handed out for %d streams' % (marks, self.marks))
                self.ctx.n('markers.counted', marks)
            else:
                found = TextDec(data.decode('utf-8')).decode()
        except (Bad, Unsure) as x:
            self.fail('the pieces handed out so far are not well-formed at completion: %s' % x)
        if keys(found) != keys(self.values):
            self.fail('the pieces handed out so far are not the values so far: %s' % first_difference(list(self.values), list(found)))
        self.ctx.n('completions.decoded')

    def refuse(self, e, kind, errors=Exception):
        """An illegal event: an error before the writer is ready again."""
        self.log.append(self.name(e))
        try:
            a = self.raw(e)
            n = 0
            while a.type is P:
                a = self.raw(None)
                n += 1
                if n > 10 ** 5:
                    self.fail('output pending for ever')
        except Violation:
            raise
        except errors as x:
            self.ctx.n('refused')
            self.ctx.n('refused.' + kind)
            if isinstance(x, (StopIteration, MemoryError, RecursionError)):
                self.fail('refused with %s' % describe_error(x))
            return x
        self.fail('an illegal event (%s) is accepted with %s' % (kind, a.type.name))


def history(w, values, limit=None):
    """Yields the legal events of the values with what they do to the state."""
    r = w.ctx.rng
    for v in values:
        evs = to_events(v, r)
        for i, e in enumerate(evs):
            yield e, (v if i == len(evs) - 1 else None)


def advance(w, e, whole):
    et = e.event_type
    if et is IonEventType.STREAM_END:
        w.marked = False
    elif not w.marked:
        w.marks += 1
        w.marked = True
    if et is IonEventType.CONTAINER_START:
        w.open.append(e.ion_type)
    elif et is IonEventType.CONTAINER_END:
        w.open.pop()
    if whole is not None:
        w.values.append(whole)
    if et is IonEventType.STREAM_END:
        w.fresh = True
    elif et is not IonEventType.VERSION_MARKER:
        w.fresh = False


def feed(w, e, whole=None, last=False):
    got = w.send(e)
    advance(w, e, whole)
    w.judge(e, got, last)


def kinds(r):
    return r.choice(['text', 'text', 'indented', 'binary', 'binary'])


def protocol(ctx):
    r = ctx.rng
    w = Writer(ctx, kinds(r))
    stop = None
    plan = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        g = Gen(r, budget=r.choice([3, 10, 30]), long_text=0, big=0, depth=r.choice([2, 4, 6]))
        values = g.stream(r.choice([0, 1, 1, 2, 4]))
        if r.random() < 0.15:
            plan.append((ION_VERSION_MARKER_EVENT, None))
            if r.random() < 0.3:
                plan.append((ION_VERSION_MARKER_EVENT, None))
        for n, (e, whole) in enumerate(history(w, values)):
            plan.append((e, whole))
            if whole is not None and w.kind != 'binary' and r.random() < 0.05:
                plan.append((ION_VERSION_MARKER_EVENT, None))
        plan.append((ION_STREAM_END_EVENT, None))
    at = r.randint(0, len(plan)) if r.random() < 0.7 else None
    if at is not None and r.random() < 0.7:
        # More often within a container.
        inside, opened = [], []
        for i, (e, whole) in enumerate(plan):
            if opened:
                inside += [i] * (4 if opened[-1] is IonType.STRUCT else 1)
            if e.event_type is IonEventType.CONTAINER_START:
                opened.append(e.ion_type)
            elif e.event_type is IonEventType.CONTAINER_END:
                opened.pop()
        if inside:
            at = r.choice(inside)
    for i, (e, whole) in enumerate(plan):
        if i == at:
            break
        feed(w, e, whole, i == len(plan) - 1)
        if e.event_type is IonEventType.STREAM_END:
            ctx.n('segments')
    ctx.distinct(w.kind, w.log)
    if ctx.wants_sample():
        ctx.sample('%s: %s' % (w.kind, '; '.join(w.log)[:400]))
    if at is None:
        return
    illegal(w)
    dead(w)


def dead(w):
    """A writer that refused an event does not accept another as if nothing had happened."""
    try:
        a = w.w.send(IonEvent(IonEventType.SCALAR, INT_, 1, 'f'))
    except Exception:
        w.ctx.n('dead')
        return
    w.fail('the writer goes on with %s after the error' % a.type.name)


def illegal(w):
    """One of the events that the state forbids."""
    ctx, r = w.ctx, w.ctx.rng
    in_struct = bool(w.open) and w.open[-1] is IonType.STRUCT
    name = r.choice(['f', SymbolToken('g', None)]) if in_struct else None
    IE, ET = IonEvent, IonEventType
    choices = ['none', 'incomplete', 'type', 'annotation', 'start', 'garbage', 'thunk']
    if w.open:
        choices += ['stream-end', 'version-marker'] * 3
    else:
        choices += ['end'] * 3
    if in_struct:
        choices += ['field'] * 6
    if w.kind == 'binary' and not w.fresh:
        choices += ['version-marker']
    choices += ['pending'] * 3
    k = r.choice(choices)
    if k == 'none':
        # When nothing is pending an event is due.
        w.refuse(None, k, TypeError)
    elif k == 'incomplete':
        w.refuse(ION_STREAM_INCOMPLETE_EVENT, k, TypeError)
    elif k == 'type':
        t, v = misfit(r)
        w.refuse(scalar(r, t, v, name), k)
    elif k == 'annotation':
        bad = r.choice([None, 5, b'a', 1.5, object(), True, Decimal(1), SymbolToken])
        anns = [r.choice(['a', 'b']) for _ in range(r.randint(0, 2))]
        anns.insert(r.randint(0, len(anns)), bad)
        if r.random() < 0.5:
            w.refuse(IE(ET.SCALAR, INT_, 1, name, anns), k)
        else:
            w.refuse(IE(ET.CONTAINER_START, IonType.LIST, None, name, tuple(anns)), k)
    elif k == 'start':
        t = r.choice([IonType.NULL, IonType.BOOL, IonType.INT, IonType.FLOAT, IonType.DECIMAL, IonType.TIMESTAMP, IonType.SYMBOL, IonType.STRING,
                      IonType.CLOB, IonType.BLOB, None])
        w.refuse(IE(ET.CONTAINER_START, t, None, name), k)
    elif k == 'garbage':
        w.refuse(r.choice(['abc', 5, object(), [], (1, 2), b'x', 0]), k)
    elif k == 'thunk':
        e = Boom('x')

        def boom():
            raise e
        x = w.refuse(IonThunkEvent(ET.SCALAR, r.choice([INT_, IonType.STRING, IonType.SYMBOL, IonType.BLOB]), boom, name), k)
        if x is not e:
            w.fail('the error of the value surfaces as %r' % (x,))
    elif k == 'stream-end':
        w.refuse(ION_STREAM_END_EVENT, k)
    elif k == 'version-marker':
        w.refuse(ION_VERSION_MARKER_EVENT, k)
    elif k == 'end':
        w.refuse(IE(ET.CONTAINER_END, r.choice([None, IonType.LIST])), k)
    elif k == 'field':
        bad = r.choice([None, None, 5, b'a', 1.5, object(), Decimal(1)])
        w.refuse(IE(ET.SCALAR, INT_, 1, bad) if r.random() < 0.6 else IE(ET.CONTAINER_START, IonType.LIST, None, bad), k)
    elif k == 'pending':
        # An event while output is pending.
        for _ in range(4):
            e = IE(ET.CONTAINER_START, r.choice([IonType.LIST, IonType.SEXP, IonType.STRUCT]), None, name, ('a', 'b')) \
                if w.open or r.random() < 0.7 else ION_STREAM_END_EVENT
            w.log.append(w.name(e))
            a = w.raw(e)
            depth = 0
            while a.type is P:
                if r.random() < 0.5:
                    w.refuse(scalar(r, INT_, 1, name) if r.random() < 0.5 else r.choice([e, ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT]), k, TypeError)
                    return
                a = w.raw(None)
            if e.event_type is ET.CONTAINER_START:
                w.open.append(e.ion_type)
                name = 'f' if e.ion_type is IonType.STRUCT else None
        w.refuse(None, 'none', TypeError)


def scalar(r, t, v, name):
    if r.random() < 0.15:
        return IonThunkEvent(IonEventType.SCALAR, t, lambda: v, name)
    return IonEvent(IonEventType.SCALAR, t, v, name, r.choice([(), (), ('a',)]))


def odd(r):
    return r.choice([True, 5, -1, 0, 1.5, 0.0, Decimal('1.5'), Decimal(0), datetime.datetime(2000, 1, 1), Timestamp(2000, 1, 1), datetime.date(2000, 1, 1),
                     datetime.time(1), datetime.timedelta(1), 'a', '', '5', 'true', '2000T', b'a', b'', b'5', bytearray(b'a'), memoryview(b'a'), [65], [],
                     (65,), (), {}, {65: 1}, {'a': 1}, {1}, SymbolToken('a', None), SymbolToken('name', 4), SymbolToken(None, 4), 1j, object(), int, str,
                     range(65, 67), io.BytesIO(b'a'), NotImplemented, Ellipsis, IonType.INT, lambda: 1, iter([65])])


def fits(t, v):
    """Whether the value is one of the type (None: not decided)."""
    if t in (IonType.LIST, IonType.SEXP, IonType.STRUCT, IonType.NULL):
        return False
    if t is IonType.BOOL or t is IonType.INT:
        return isinstance(v, int)
    if t is IonType.FLOAT:
        return isinstance(v, float)
    if t is IonType.DECIMAL:
        return isinstance(v, Decimal)
    if t is IonType.TIMESTAMP:
        return isinstance(v, datetime.datetime)
    if t is IonType.STRING:
        return isinstance(v, str)
    if t is IonType.SYMBOL:
        return isinstance(v, (str, SymbolToken))
    if t in (IonType.CLOB, IonType.BLOB):
        return isinstance(v, (bytes, bytearray, memoryview))


def misfit(r):
    while True:
        t = ITYPE[r.randint(0, 12)]
        if t is IonType.DECIMAL and r.random() < 0.3:
            return t, r.choice([Decimal('NaN'), Decimal('Infinity'), Decimal('-Infinity'), Decimal('sNaN'), Decimal('-NaN123')])
        v = odd(r)
        if not fits(t, v):
            return t, v


def types(ctx):
    """A value of another type is refused wherever it comes, and one of the type is not."""
    r = ctx.rng
    for _ in range(6):
        w = Writer(ctx, kinds(r))
        opened = []
        for _ in range(r.choice([0, 0, 1, 2])):
            t = r.choice([IonType.LIST, IonType.SEXP, IonType.STRUCT])
            e = IonEvent(IonEventType.CONTAINER_START, t, None, 'f' if opened and opened[-1] is IonType.STRUCT else None)
            w.send(e)
            opened.append(t)
            if r.random() < 0.5:
                w.send(IonEvent(IonEventType.SCALAR, INT_, 7, 'f' if t is IonType.STRUCT else None))
        name = 'x' if opened and opened[-1] is IonType.STRUCT else None
        if r.random() < 0.8:
            t, v = misfit(r)
            w.refuse(scalar(r, t, v, name), 'type')
            dead(w)
            ctx.distinct(w.kind, t.name, repr(type(v)), len(opened))
        else:
            t, v = r.choice([(IonType.BOOL, True), (IonType.BOOL, 0), (IonType.BOOL, 1), (INT_, True), (INT_, False), (IonType.CLOB, bytearray(b'ab')),
                             (IonType.BLOB, bytearray(b'ab')), (IonType.BLOB, memoryview(b'ab')), (IonType.CLOB, memoryview(b'ab')),
                             (IonType.SYMBOL, SymbolToken('a', 99)), (IonType.SYMBOL, ''), (IonType.STRING, '')])
            w.send(scalar(r, t, v, name))
            while opened:
                w.send(IonEvent(IonEventType.CONTAINER_END))
                opened.pop()
            w.send(ION_STREAM_END_EVENT)
            data = b''.join(w.out)
            try:
                found = BinDec(data, w.cat).decode() if w.kind == 'binary' else TextDec(data.decode('utf-8')).decode()
            except (Bad, Unsure) as x:
                w.fail('%s for %s %r' % (x, t.name, v))
            last = found[-1]
            while last.v is not None and last.t >= LIST:
                last = last.v[-1][1] if last.t == STRUCT else last.v[-1]
            want = {IonType.BOOL: lambda: bool(v), INT_: lambda: int(v), IonType.CLOB: lambda: bytes(v), IonType.BLOB: lambda: bytes(v),
                    IonType.SYMBOL: lambda: v.text if isinstance(v, SymbolToken) else v, IonType.STRING: lambda: v}[t]()
            if last.t != TNUM[t] or last.v != want or type(last.v) is not type(want):
                w.fail('%s for %s %r' % (show(last), t.name, v))
            ctx.n('fitting')


def blocking(ctx):
    """The blocking writer answers likewise, and writes the same."""
    r = ctx.rng
    w = Writer(ctx, kinds(r))
    out = BytesIO()
    b = blocking_writer(w.w, out)
    values = Gen(r, budget=r.choice([3, 10, 30]), long_text=0, big=0).stream(r.choice([0, 1, 2, 4]))
    plan = list(history(w, values)) + [(ION_STREAM_END_EVENT, None)]
    stop = r.randint(0, len(plan)) if r.random() < 0.4 else None
    for i, (e, whole) in enumerate(plan):
        if i == stop:
            break
        w.log.append(w.name(e))
        try:
            got = b.send(e)
        except Exception as x:
            w.fail('a legal event is refused with %s' % describe_error(x))
        w.out = [out.getvalue()]
        if not isinstance(got, WriteEventType):
            w.fail('answer %r' % (got,))
        ctx.n('blocking.answers')
        advance(w, e, whole)
        w.judge(e, got, i == len(plan) - 1)
    if stop is not None:
        bad = ION_STREAM_END_EVENT if w.open else IonEvent(IonEventType.CONTAINER_END)
        if r.random() < 0.5:
            t, v = misfit(r)
            bad = scalar(r, t, v, 'f')
        w.log.append(w.name(bad))
        try:
            got = b.send(bad)
        except StopIteration:
            w.fail('the blocking writer stops')
        except Exception:
            ctx.n('refused')
        else:
            w.fail('an illegal event is accepted by the blocking writer with %r' % (got,))
    ctx.distinct(w.kind, w.log)


FAMILIES = [('protocol', protocol, 20000), ('types', types, 8000), ('blocking', blocking, 3000)]
