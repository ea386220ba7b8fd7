import decimal
import os
import random
import re
import select
import signal
import struct
import sys
import threading
from amazon.ion.equivalence import ion_equals
from amazon.ion.simpleion import dump, dumps, load, loads
from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table, local_symbol_table, SYSTEM_SYMBOL_TABLE
from .c05 import fields_zero
from ..common import *

RULE = ('Random sets of tasks (incremental readers of all kinds, blocking readers, writers, loads and dumps through files, comparisons; some on damaged input or values that cannot be '
        'dumped) are first run alone, then interleaved step by step in one thread, with other tasks run from inside the read and write calls of a task, and in up to six threads with a '
        'short switch interval sharing values, events, tables, catalogs and data.  Every log must be the one of the solo run.  The arguments are photographed before and compared after, '
        'calls are repeated, failing calls are put between, and a fixed set of canary computations must give at every time what it gave when the process began.  Distinct: different '
        'set of tasks and schedule.')
ASSUMPTIONS = ['a reader or writer itself is used by one thread at a time', 'values are not changed while they are dumped']
MIN = {'tasks': 8000, 'steps.interleaved': 60000, 'switches': 15000, 'nested': 8000, 'failing': 3000, 'threads': 1000, 'tasks.threaded': 3000, 'snapshots': 5000, 'repeated': 8000,
       'canaries': 2500, 'fresh': 1500}
THOROUGH = 15
TRACE = False


# -- classes of the application ---------------------------------------------------------------------------------------
class Row(tuple):
    pass


class Rows(list):
    pass


class Doc(dict):
    pass


class Name(str):
    pass


class Count(int):
    pass


class Size(float):
    pass


class Price(Decimal):
    pass


class Data(bytes):
    pass


class Wide(Row):
    pass


def special(r, depth=2):
    """An object of such a class, or of the builtin one."""
    x = r.random()
    if depth and x < 0.6:
        kids = [special(r, depth - 1) for _ in range(r.choice([0, 1, 2]))]
        t = r.choice([Row, Row, Wide, tuple, Rows, list, Doc, dict])
        return t(zip('ab', kids)) if issubclass(t, dict) else t(kids)
    return r.choice([Name('n'), Count(7), Size(1.5), Price('1.10'), Data(b'd'), 'n', 7, 1.5, Decimal('1.10'), b'd', True, None, Name(''), Count(0)])


# -- shared material ---------------------------------------------------------------------------------------------------
class World(object):
    """Things the tasks of a case share."""

    def __init__(self, ctx):
        r = ctx.rng
        self.r = r
        self.words = ['a', 'b', 'name', 'foo', 'bar', 'x\u2603', 'q r', 'sym%d' % r.randint(0, 5)]
        g = Gen(r, budget=12)
        self.tables = [shared_symbol_table('t', 1, ['a', 'foo']), shared_symbol_table('t', 3, ['a', 'foo', 'q r', 'x\u2603']), shared_symbol_table('u', 1, ['bar', 'a'])]
        self.catalog = SymbolTableCatalog()
        for t in self.tables:
            self.catalog.register(t)
        self.values = [[fields_zero(v) for v in g.stream(r.choice([1, 2, 3]))] for _ in range(3)]
        if r.random() < 0.5:
            # Values that are equal in some sense to others of the case, and are others.
            self.values[1] = [fields_zero(twin(r, v)) for v in self.values[0]]
            self.values[2] = [fields_zero(twin(r, v)) for v in r.choice(self.values[:2])]
        self.objects = [[to_mixed(v, r) for v in vs] for vs in self.values]
        for vs in self.objects:
            while r.random() < 0.4:
                vs.insert(r.randint(0, len(vs)), special(r))
        self.events = [sum([to_events(v, r) for v in vs], []) for vs in self.values]
        self.data = []
        for vs in self.values:
            self.data.append(('binary', StreamEnc(r).stream(vs)))
            self.data.append(('text', TextEnc(r).stream(vs).encode('utf-8')))
            self.data.append(('unicode', TextEnc(r).stream(vs)))
        for vs in self.objects[:1]:
            self.data.append(('binary', dumps(vs, sequence_as_stream=True, imports=self.tables[:r.choice([1, 3])])))
        self.data.append(('text', b'$ion_1_0 $ion_symbol_table::{imports:[{name:"t",version:3,max_id:4},{name:"nope",version:1,max_id:3}],symbols:["z1","z2"]} $10 $14 {$13:$12} $16 [$17,$18] $15'))
        for _ in range(2):
            kind, d = r.choice(self.data)
            if kind == 'binary':
                self.data.append((kind, mutate(r, d)))
            elif kind == 'text':
                self.data.append((kind, d[:r.randint(0, len(d))] + r.choice([b'"', b'}', b'\xff', b'{{', b"'''", b'$99 ', b'1a'])))
        self.bad = [object(), [1, object()], {'a': [object()]}, [IonPyList.from_value(IonType.SEXP, [set()])], {1: 2}, [SymbolToken(None, 99)],
                    IonPyDict.from_value(IonType.STRUCT, {'a': 1j})]

    def photo(self):
        """An exact picture of everything shared."""
        out = []
        for vs in self.objects:
            out.append(tuple(picture(o) for o in vs))
        for ev in self.events:
            out.append(tuple(image(e) for e in ev))
        for t in self.tables:
            out.append((t.name, t.version, t.max_id, tuple(token_image(t[i]) for i in range(1, t.max_id + 1)), tuple(token_image(s) for s in t)))
        for n in ('t', 'u', 'nope', 'v'):
            for v in (1, 2, 3, 4):
                for m in (0, 1, 3, 4, 9):
                    x = self.catalog.resolve(n, v, m)
                    # The same table again, or one made up for the request.
                    out.append((n, v, m, [i for i, t in enumerate(self.tables) if t is x], x.name, x.version, x.max_id))
        out.append(tuple(self.data))
        out.append(SYSTEM_SYMBOL_TABLE.max_id)
        out.append(tuple(token_image(s) for s in SYSTEM_SYMBOL_TABLE))
        return out


def picture(o):
    """The identity and content of a Python value, all the way down."""
    t = type(o).__name__
    ann = getattr(o, 'ion_annotations', None)
    extra = (id(o), t, getattr(o, 'ion_type', None), type(ann).__name__, None if ann is None else tuple(token_image(a) for a in ann))
    if isinstance(o, SymbolToken):
        return extra + (token_image(o),)
    if isinstance(o, (list, tuple)):
        return extra + tuple(picture(x) for x in o)
    if isinstance(o, (dict, Multimap)):
        return extra + tuple((k, picture(v)) for k, v in o.items())
    if isinstance(o, float):
        return extra + (float.hex(float(o)),)
    if isinstance(o, Decimal):
        return extra + (str(o.as_tuple()),)
    if isinstance(o, Timestamp):
        return extra + (repr(o), str(o.fractional_seconds))
    return extra + (repr(o),)


# -- tasks: generators that yield between steps and return a log -------------------------------------------------------
class Boom(Exception):
    pass


class Nesting(object):
    """Lets a task run others from inside its calls to files."""
    hook = None


class NestedSource(object):
    def __init__(self, data, sizes, nest):
        self.data = data
        self.at = 0
        self.sizes = sizes
        self.n = 0
        self.nest = nest

    def read(self, size=-1):
        self.n += 1
        if self.nest.hook is not None:
            self.nest.hook()
        k = self.sizes[self.n % len(self.sizes)]
        if size is not None and size >= 0:
            k = min(k, size)
        if k == 'fail':
            raise Boom()
        out = self.data[self.at:self.at + k]
        self.at += len(out)
        return out

    def tell(self):
        return self.at

    def seek(self, at, whence=0):
        self.at = at if whence == 0 else self.at + at if whence == 1 else len(self.data) + at
        return self.at


class NestedSink(object):
    def __init__(self, nest, fail):
        self.out = []
        self.nest = nest
        self.fail = fail

    def write(self, data):
        if self.nest.hook is not None:
            self.nest.hook()
        if self.fail == len(self.out):
            raise Boom()
        self.out.append(bytes(data))
        return len(data)


def views(objs):
    return [picture_free(o) for o in objs]


def picture_free(o):
    """Content without identities."""
    if o is None:
        return None
    return show(value_of(o))


def task_reader(world, spec, nest):
    kind, data, pieces, catalog, managed, skips = spec
    log = []
    try:
        rd = make_reader(kind, catalog, managed)
        ev = rd.send(NEXT_EVENT)
        i = 0
        depth = 0
        flushed = 0
        n = 0
        while True:
            yield
            log.append(image(ev))
            n += 1
            if ev.event_type is START:
                depth += 1
            elif ev.event_type is END:
                depth -= 1
            if ev.event_type in (STOP, INCOMPLETE):
                if i < len(pieces):
                    ev = rd.send(read_data_event(pieces[i]))
                    i += 1
                elif ev.event_type is STOP or flushed > 2:
                    return log
                else:
                    flushed += 1
                    ev = rd.send(NEXT_EVENT)
            else:
                ev = rd.send(SKIP_EVENT if depth and n in skips else NEXT_EVENT)
    except (Exception, StopIteration) as e:
        log.append((type(e).__name__, str(e)))
        return log


def task_writer(world, spec, nest):
    make, events = spec
    log = []
    try:
        w = make()
        for e in events:
            yield
            r = w.send(e)
            log.append((r.type.name, bytes(r.data)))
            while r.type is WriteEventType.HAS_PENDING:
                yield
                r = w.send(None)
                log.append((r.type.name, bytes(r.data)))
        return log
    except Exception as e:
        log.append((type(e).__name__, str(e)))
        return log


def call(f):
    try:
        return ('ok', f())
    except Boom:
        return ('Boom',)
    except Exception as e:
        # The text of a message may hold addresses of objects.
        return ('error', type(e).__name__)


def task_call(world, spec, nest):
    """One whole call; other tasks get their turn inside it."""
    yield
    return [call(lambda: spec(nest))]


def task_blocking(world, spec, nest):
    kind, data, sizes, buf, catalog = spec
    log = []
    try:
        rd = blocking_reader(make_reader(kind, catalog), NestedSource(data, sizes, nest), buf)
        while True:
            yield
            ev = rd.send(NEXT_EVENT)
            log.append(image(ev))
            if ev.event_type is STOP:
                return log
    except (Exception, StopIteration) as e:
        log.append((type(e).__name__,))
        return log


def make_task(ctx, world):
    """(description, function that starts the task afresh)"""
    r = world.r
    x = r.random()
    if x < 0.3:
        kind, data = r.choice(world.data)
        managed = r.random() < 0.75
        spec = (kind, data, cut(r, data) if data else [], world.catalog if r.random() < 0.6 else None, managed, set(r.sample(range(60), r.choice([0, 0, 3]))))
        return ('reader', kind, len(spec[2]), managed, data), lambda nest: task_reader(world, spec, nest)
    if x < 0.5:
        ev = list(r.choice(world.events))
        style = r.choice(['binary', 'binary', 'imports', 'text', 'indent'])
        if r.random() < 0.2:
            ev.insert(r.randint(0, len(ev)), r.choice([IonEvent(END), IonEvent(SCALAR, IonType.INT, 'x'), IonEvent(STOP), IonEvent(MARKER), IonEvent(SCALAR, IonType.STRING, 5)]))
        ev.append(IonEvent(STOP))
        if r.random() < 0.3:
            ev = ev + list(r.choice(world.events)) + [IonEvent(STOP)]
        tables = world.tables[:r.choice([1, 2, 3])]
        make = {'binary': lambda: binary_writer(), 'imports': lambda: binary_writer(tables), 'text': lambda: text_writer(), 'indent': lambda: text_writer(indent='  ')}[style]
        return ('writer', style, len(ev)), lambda nest: task_writer(world, (make, ev), nest)
    if x < 0.6:
        kind, data = r.choice(world.data)
        sizes = [r.choice([1, 2, 3, 5, 8, 100]) for _ in range(r.randint(1, 4))]
        spec = (kind, data, sizes, r.choice([1, 4, 64]), world.catalog)
        return ('blocking', kind, tuple(sizes), data), lambda nest: task_blocking(world, spec, nest)
    if x < 0.75:
        kind, data = r.choice(world.data)
        single = r.random() < 0.2
        cat = world.catalog if r.random() < 0.7 else None
        if r.random() < 0.5:
            f = lambda nest: [picture_free(o) for o in ([loads(data, catalog=cat)] if single else loads(data, catalog=cat, single_value=False))]
            return ('loads', kind, data, single), lambda nest: task_call(world, f, nest)
        sizes = [1000]
        if r.random() < 0.3:
            sizes = [1000, 'fail']
        file = lambda nest: NestedSource(data, [10 ** 6] if sizes[-1] != 'fail' else [10 ** 6], nest)

        def f(nest):
            src = file(nest)
            out = load(src, catalog=cat, single_value=False)
            return [picture_free(o) for o in out]
        return ('load', kind, data), lambda nest: task_call(world, f, nest)
    if x < 0.92:
        kw = {}
        if r.random() < 0.5:
            kw['binary'] = False
            if r.random() < 0.3:
                kw['indent'] = ' '
        elif r.random() < 0.3:
            kw['imports'] = world.tables[:r.choice([1, 3])]
        if r.random() < 0.4:
            kw['tuple_as_sexp'] = r.random() < 0.7
        if kw.get('binary') is False and r.random() < 0.3:
            kw['omit_version_marker'] = True
        obj = r.choice(world.objects)
        if r.random() < 0.25:
            obj = r.choice(world.bad)
        elif r.random() < 0.5:
            kw['sequence_as_stream'] = True
        if r.random() < 0.5:
            return ('dumps', kw.get('binary'), 'imports' in kw), lambda nest: task_call(world, lambda nest: dumps(obj, **kw), nest)
        fail = r.choice([None, None, 0, 1, 2])

        def f(nest):
            s = NestedSink(nest, fail)
            dump(obj, s, **kw)
            return b''.join(s.out)
        return ('dump', kw.get('binary'), fail), lambda nest: task_call(world, f, nest)
    a, b = r.choice(world.objects), r.choice(world.objects)
    if r.random() < 0.5:
        b = a
    instants = r.random() < 0.5
    return ('equals',), lambda nest: task_call(world, lambda nest: ion_equals(a, b, instants), nest)


def run_alone(start):
    nest = Nesting()
    g = start(nest)
    n = 0
    while True:
        try:
            next(g)
            n += 1
        except StopIteration as e:
            return e.value, n


# -- canaries ----------------------------------------------------------------------------------------------------------
CANARY_VALUE = IonPyDict.from_value(IonType.STRUCT, {'a': 1, 'b': [1.5, None, Decimal('1.10'), 'x', b'y', SymbolToken('s', None), True]}, ('ann',))
CANARY_TEXT = ("$ion_1_0 $ion_symbol_table::{symbols:[\"k1\",\"k2\"]} $10 {$11: a::b::(1 -2e0 3.40 + '''l''' '''m''') , 'x y': 2007-02-23T12:14:33.079-08:00} null.clob "
               "{{aGVsbG8=}} {{\"clob\"}} $ion_symbol_table::{imports:$ion_symbol_table,symbols:[\"k3\"]} $12 [ ] +inf 0xFf")

CANARY_IMPORTS = '$ion_symbol_table::{imports:[{name:"t",version:1,max_id:2},{name:"t",version:3,max_id:4},{name:"u",version:1,max_id:2}]} [$10,$11,$12,$13,$14,$15,$16,$17]'


def canary():
    out = []
    out.append(dumps(CANARY_VALUE))
    out.append(dumps(CANARY_VALUE, binary=False))
    out.append(dumps([CANARY_VALUE, 1], binary=False, indent='\t', sequence_as_stream=True))
    # No catalog knows these tables.
    out.append([picture_free(v) for v in loads(CANARY_IMPORTS, single_value=False)])
    vs = loads(CANARY_TEXT, single_value=False)
    out.append([picture_free(v) for v in vs])
    b = dumps(vs, sequence_as_stream=True)
    out.append(b)
    out.append([picture_free(v) for v in loads(b, single_value=False)])
    out.append(dumps(vs, binary=False, sequence_as_stream=True))
    out.append(ion_equals(vs, loads(b, single_value=False)))
    for bad in (b'\xe0\x01\x00\xea\xde', '{a:', '"\\u12', b'\xe0\x01\x00\xea\x21', '$99', 'a::'):
        out.append(call(lambda: loads(bad)))
    out.append(call(lambda: dumps(object())))
    c = decimal.getcontext()
    out.append((c.prec, c.rounding, sorted(str(k) for k, v in c.traps.items() if v), c.Emin, c.Emax, c.capitals, c.clamp))
    out.append([token_image(t) for t in SYSTEM_SYMBOL_TABLE])
    out.append(repr(list(IonType)))
    return repr(out)


FIRST = []


def check_canary(ctx, when):
    ctx.n('canaries')
    now = canary()
    if not FIRST:
        FIRST.append(now)
    elif FIRST[0] != now:
        i = next((i for i, (a, b) in enumerate(zip(FIRST[0], now)) if a != b), min(len(now), len(FIRST[0])))
        ctx.fail('the canary computations changed %s: %s instead of %s' % (when, now[max(0, i - 80):i + 120], FIRST[0][max(0, i - 80):i + 120]))


# -- families ----------------------------------------------------------------------------------------------------------
def expected(ctx, tasks):
    out = []
    for what, start in tasks:
        log, _ = run_alone(start)
        again, _ = run_alone(start)
        if log != again:
            ctx.fail('%r gives %s when repeated' % (what, difference(log, again)))
        ctx.n('repeated')
        ctx.n('tasks')
        if log and isinstance(log[-1], tuple) and (log[-1][0] in ('error', 'Boom') or len(log[-1]) == 2 and log[-1][0].endswith(('Error', 'Exception'))):
            ctx.n('failing')
        out.append(log)
    return out


def difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'at %d %s instead of %s' % (i, repr(y)[:400], repr(x)[:400])
    return '%d entries instead of %d: %s' % (len(b), len(a), repr((a + b)[min(len(a), len(b)):])[:300])


def unchanged(ctx, before, after, when):
    ctx.n('snapshots')
    for x, y in zip(before, after):
        if x != y:
            ctx.fail('shared arguments changed %s: %s' % (when, difference(list(x), list(y))))


def interleaved(ctx):
    r = ctx.rng
    check_canary(ctx, 'before the case')
    world = World(ctx)
    before = world.photo()
    tasks = [make_task(ctx, world) for _ in range(r.choice([2, 3, 5, 8]))]
    ctx.note(repr([t[0] for t in tasks]))
    logs = expected(ctx, tasks)
    unchanged(ctx, before, world.photo(), 'when the tasks ran alone')
    nest = Nesting()
    running = {}
    results = {}
    active = []
    last = [None]
    schedule = []

    def step(i):
        active.append(i)
        try:
            schedule.append(i)
            ctx.n('steps.interleaved')
            if last[0] != i:
                ctx.n('switches')
                last[0] = i
            try:
                next(running[i])
            except StopIteration as e:
                results[i] = e.value
                del running[i]
        finally:
            active.pop()

    def hook():
        # Called inside a file call of a running task: give some other tasks a turn.
        for _ in range(r.choice([0, 1, 2])):
            free = [i for i in running if i not in active]
            if free and len(active) < 5:
                ctx.n('nested')
                step(r.choice(free))
    nest.hook = hook
    for i, (what, start) in enumerate(tasks):
        running[i] = start(nest)
    n = 0
    sticky = r.choice([0, 0.5, 0.9])
    cur = None
    while running:
        if cur not in running or r.random() > sticky:
            cur = r.choice(list(running))
        step(cur)
        n += 1
        if n % 200 == 0 and r.random() < 0.3:
            check_canary(ctx, 'between steps')
        if n > 200000:
            ctx.fail('no end')
    for i, (what, start) in enumerate(tasks):
        if results[i] != logs[i]:
            ctx.fail('interleaved with %r, %r gives %s' % ([t[0][:3] for t in tasks], what, difference(logs[i], results[i])))
    unchanged(ctx, before, world.photo(), 'when the tasks were interleaved')
    for (what, start), log in list(zip(tasks, logs))[:2]:
        again, _ = run_alone(start)
        if again != log:
            ctx.fail('after the others, %r gives %s' % (what, difference(log, again)))
    check_canary(ctx, 'after interleaving')
    ctx.distinct([t[0][:3] for t in tasks], tuple(schedule[:300]))
    if ctx.wants_sample():
        ctx.sample('%r, schedule %r' % ([t[0][:2] for t in tasks], schedule[:60]))


def threaded(ctx):
    r = ctx.rng
    world = World(ctx)
    before = world.photo()
    k = r.choice([2, 3, 4, 6])
    plans = []
    pool = [make_task(ctx, world) for _ in range(r.choice([2, 4, 6]))]
    logs = expected(ctx, pool)
    for _ in range(k):
        plans.append([r.randrange(len(pool)) for _ in range(r.choice([2, 4]))])
    errors = []
    barrier = threading.Barrier(k)
    counts = [0] * k

    def work(t):
        try:
            barrier.wait(30)
            for i in plans[t]:
                got, n = run_alone(pool[i][1])
                counts[t] += 1
                if got != logs[i]:
                    errors.append('in %d threads, %r gives %s' % (k, pool[i][0], difference(logs[i], got)))
                    return
        except BaseException as e:
            errors.append('in %d threads: %s' % (k, describe_error(e)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    try:
        threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(k)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if errors:
        ctx.fail(errors[0])
    if any(t.is_alive() for t in threads):
        ctx.fail('a thread does not end')
    ctx.n('threads', k)
    ctx.n('tasks.threaded', sum(counts))
    unchanged(ctx, before, world.photo(), 'when the tasks ran in threads')
    check_canary(ctx, 'after threads')
    ctx.distinct([t[0][:3] for t in pool], plans)


def arguments(ctx):
    """Single calls: nothing given to them changes, whether they succeed or fail, and they can be repeated."""
    r = ctx.rng
    world = World(ctx)
    before = world.photo()
    for _ in range(6):
        what, start = make_task(ctx, world)
        log, _ = run_alone(start)
        unchanged(ctx, before, world.photo(), 'by %r' % (what,))
        again, _ = run_alone(start)
        ctx.n('tasks')
        ctx.n('repeated')
        if again != log:
            ctx.fail('%r gives %s when repeated' % (what, difference(log, again)))
    # Mutable data given to readers and to load.
    kind, data = r.choice([d for d in world.data if d[0] != 'unicode'])
    buf = bytearray(data)
    kinds = [lambda: read_pieces(kind, [buf] if buf else [])[0].values, lambda: load(BytesIO(buf), single_value=False)]
    for f in kinds:
        call(f)
        if bytes(buf) != data:
            ctx.fail('%r was changed to %r' % (data, buf))
    ctx.n('snapshots')
    # The lists given as options.
    imports = list(world.tables)
    ids = [id(t) for t in imports]
    objs = r.choice(world.objects)
    for f in (lambda: dumps(objs, imports=imports), lambda: dumps(objs, imports=imports, sequence_as_stream=True), lambda: binary_writer(imports), lambda: local_symbol_table(imports, ['a', 'zz']).intern('new'),
              lambda: dumps([object()], imports=imports)):
        call(f)
        if [id(t) for t in imports] != ids:
            ctx.fail('the list of imports was changed')
    unchanged(ctx, before, world.photo(), 'by dumping with imports')
    # Results belong to the caller: changing them changes nothing later.
    kind, data = r.choice(world.data)
    first = call(lambda: loads(data, catalog=world.catalog, single_value=False))
    if first[0] == 'ok':
        shown = views(first[1])
        for o in list(first[1]):
            spoil(o)
        del first[1][:]
        second = loads(data, catalog=world.catalog, single_value=False)
        if views(second) != shown:
            ctx.fail('changing what loads returned changes what it returns the next time: %r' % difference(shown, views(second)))
        ctx.n('repeated')
    check_canary(ctx, 'after single calls')
    ctx.distinct(repr(world.data[0])[:200], repr(world.data[1])[:200])


def spoil(o):
    if isinstance(o, IonPyList):
        for x in o:
            spoil(x)
        del o[:]
        o.append(99)
    elif isinstance(o, IonPyDict):
        for _, x in o.items():
            spoil(x)
        o['spoiled'] = 1
    try:
        o.ion_annotations = ('spoiled',)
        o.ion_type = IonType.BLOB
    except AttributeError:
        pass


def after_failures(ctx):
    """A long series of failing calls, then everything works as before."""
    r = ctx.rng
    world = World(ctx)
    good = [t for t in [make_task(ctx, world) for _ in range(4)]]
    logs = expected(ctx, good)
    before = world.photo()
    for _ in range(20):
        x = r.random()
        if x < 0.4:
            kind, data = r.choice(world.data)
            bad = mutate(r, data) if kind == 'binary' else (data[:r.randint(0, len(data))] + r.choice(['"', '}', '{{', "'''", '$999', '1a', '\\']).encode('utf-8')) if kind == 'text' else data[:r.randint(0, len(data))] + '\\'
            res = call(lambda: [picture_free(o) for o in loads(bad, catalog=world.catalog, single_value=False)])
        elif x < 0.7:
            kw = {'binary': r.random() < 0.5}
            obj = [r.choice(world.objects), r.choice(world.bad)]
            res = call(lambda: dumps(obj, **kw))
        elif x < 0.8:
            res = call(lambda: dump(r.choice(world.objects), NestedSink(Nesting(), 0)))
        elif x < 0.9:
            rd = make_reader(r.choice(['binary', 'text', 'unicode']), world.catalog)
            res = call(lambda: rd.send(r.choice([SKIP_EVENT, None, read_data_event(b'x')])))
            rd = make_reader('text', world.catalog)
            call(lambda: rd.send(NEXT_EVENT))
            call(lambda: rd.send(read_data_event(b'[{a:')))
            call(lambda: rd.send(NEXT_EVENT))
            # Left in the middle, or closed there.
            if r.random() < 0.5:
                call(rd.close)
        else:
            w = r.choice([binary_writer, text_writer])()
            res = call(lambda: w.send(r.choice([IonEvent(END), None, IonEvent(SCALAR, IonType.INT, 'x')])))
            w = r.choice([binary_writer, text_writer])()
            call(lambda: w.send(IonEvent(START, IonType.STRUCT)))
            if r.random() < 0.5:
                call(w.close)
        if res[0] != 'ok':
            ctx.n('failing')
    unchanged(ctx, before, world.photo(), 'by failing calls')
    for (what, start), log in zip(good, logs):
        again, _ = run_alone(start)
        ctx.n('repeated')
        if again != log:
            ctx.fail('after failing calls, %r gives %s' % (what, difference(log, again)))
    check_canary(ctx, 'after failing calls')
    ctx.distinct([t[0][:3] for t in good], repr(world.data[-1])[:100])


# -- the same tasks in processes that have done nothing else -----------------------------------------------------------
class Pristine(object):
    """A process forked before the first case; it runs tasks in children that have done nothing else."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(b)
                os.close(c)
                self.serve(a, d)
                code = 0
            finally:
                os._exit(code)
        os.close(a)
        os.close(d)
        self.pid = pid
        self.to, self.back = b, c

    @staticmethod
    def read(fd, n):
        out = b''
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out

    def serve(self, a, d):
        signal.setitimer(signal.ITIMER_REAL, 0)
        while True:
            try:
                key = self.read(a, struct.unpack('>I', self.read(a, 4))[0]).decode()
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(35)
                    self.answer(key, d)
                    code = 0
                finally:
                    os._exit(code)
            os.waitpid(pid, 0)
            os.write(d, struct.pack('>I', 0xffffffff))

    def answer(self, key, d):
        ctx = Quiet(random.Random(key))
        world = World(ctx)
        tasks = plan(ctx, world)
        for what, start in tasks:
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    log, _ = run_alone(start)
                    data = text_of(log)
                    data = struct.pack('>I', len(data)) + data
                    while data:
                        data = data[os.write(d, data):]
                    code = 0
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            if status:
                return

    def close(self):
        for fd in (self.to, self.back):
            try:
                os.close(fd)
            except OSError:
                pass

    def ask(self, key):
        data = key.encode()
        os.write(self.to, struct.pack('>I', len(data)) + data)
        out = []
        while True:
            n = struct.unpack('>I', self.read(self.back, 4))[0]
            if n == 0xffffffff:
                return out
            out.append(self.read(self.back, n).decode('utf-8', 'backslashreplace'))


class Quiet(object):
    """Stands for the context of a case in the other process."""

    def __init__(self, rng):
        self.rng = rng

    def n(self, *args):
        pass

    note = n


PRISTINE = []


def begin():
    PRISTINE.append(Pristine())


def text_of(log):
    return re.sub('0x[0-9a-f]{4,}', '0x', repr(log)).encode('utf-8', 'backslashreplace')


def plan(ctx, world):
    return [make_task(ctx, world) for _ in range(ctx.rng.choice([3, 5, 7]))]


def fresh(ctx):
    """Each task gives here, in a process with a long history, what it gives in a process that does nothing else."""
    r = ctx.rng
    key = 'fresh/%d' % r.getrandbits(60)
    other = Quiet(random.Random(key))
    world = World(other)
    tasks = plan(other, world)
    ctx.note(repr([t[0] for t in tasks]))
    order = list(range(len(tasks))) * 2
    r.shuffle(order)
    got = [[] for _ in tasks]
    for i in order:
        got[i].append(text_of(run_alone(tasks[i][1])[0]).decode())
    try:
        alone = PRISTINE[0].ask(key)
    except (EOFError, OSError):
        # Nothing can be said without that process; too few answers make the run worthless.
        ctx.n('fresh.lost')
        return
    except BaseException:
        PRISTINE[0].close()
        raise
    if len(alone) != len(tasks):
        # The process may have been stopped; what it answered still counts.
        ctx.n('fresh.unanswered', len(tasks) - len(alone))
    for (what, start), a, b in zip(tasks, alone, got):
        for x in b:
            if x != a:
                k = next((k for k, (p, q) in enumerate(zip(a, x)) if p != q), min(len(a), len(x)))
                ctx.fail('%r gives ...%s here, and ...%s in a process of its own' % (what, x[max(0, k - 200):k + 200], a[max(0, k - 200):k + 200]))
        ctx.n('fresh')
    ctx.distinct([t[0][:3] for t in tasks], key)


FAMILIES = [('interleaved', interleaved, 1200), ('threads', threaded, 500), ('arguments', arguments, 700), ('after_failures', after_failures, 500), ('fresh', fresh, 500)]
