import bz2
import gc
import gzip
import io
import os
import shutil
import tempfile
import threading
from amazon.ion.core import ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.exceptions import IonException
from amazon.ion.reader import blocking_reader, NEXT_EVENT
from amazon.ion.simpleion import load, dump, dumps
from amazon.ion.writer import blocking_writer, WriteEventType
from ..common import *

RULE = ('Random values are read from and written to file-like objects whose every call is recorded.  A fault-free run is recorded first '
        '(each call and each event in order); then the same run is repeated with an error injected at one call (read, tell, seek, write), '
        'with short reads of random sizes, with partial writes before the error, and with real files, pipes, compressed files and full devices. '
        'The recorded run with the fault must be the fault-free run up to the fault and end with that very error; short reads must change nothing. '
        'Distinct: different input, place and kind of the fault.')
ASSUMPTIONS = ['a file returns at least one unit per read before its end, and write takes everything or raises (as Python buffered files do)']
MIN = {'faults.read': 6000, 'faults.tell': 80, 'faults.seek': 80, 'faults.write': 6000, 'faults.partial-write': 1500, 'short.loads': 3000, 'short.events': 2000,
       'offset': 1500, 'real.files': 150, 'pipes': 50, 'device-full': 30, 'mixed': 800, 'malformed': 500, 'ended.refused': 2500, 'ended.complete': 800}
THOROUGH = 25


class Halt(BaseException):
    pass


class Odd(Exception):
    pass


class OddIon(IonException):
    pass


FAULTS = [OSError, BlockingIOError, InterruptedError, ConnectionResetError, BrokenPipeError, TimeoutError, EOFError, ValueError, TypeError,
          AttributeError, KeyError, IndexError, AssertionError, UnicodeError, MemoryError, RuntimeError, LookupError, ArithmeticError,
          NotImplementedError, io.UnsupportedOperation, Halt, Odd, OddIon, IonException, KeyboardInterrupt]


class Files(object):
    """Counts the calls on file-like objects, and fails one of them."""

    def __init__(self, at=None, error=None):
        self.log = []
        self.calls = 0
        self.at = at
        self.error = error
        self.kinds = []

    def call(self, kind, detail=None):
        self.calls += 1
        self.kinds.append(kind)
        self.log.append((kind, detail))
        if self.calls == self.at:
            self.log.append(('fault',))
            raise self.error
        if self.calls > 10 ** 6:
            raise Violation('a million calls')


class In(object):
    """An octet source."""

    def __init__(self, f, data, start=0, rng=None, sizes=None):
        self.f = f
        self.data = data
        self.at = start
        self.start = start
        self.rng = rng
        self.sizes = sizes
        self.lowest = None

    def read(self, n=-1):
        self.f.call('read', n)
        left = len(self.data) - self.at
        k = left if n is None or n < 0 else min(n, left)
        if k > 1 and self.rng is not None:
            k = min(k, self.rng.choice(self.sizes))
        if self.at < self.start:
            raise Violation('data before the position of the source was read')
        out = self.data[self.at:self.at + k]
        self.at += k
        return out

    def tell(self):
        self.f.call('tell')
        return self.at

    def seek(self, to, whence=0):
        self.f.call('seek')
        if whence == 1:
            to += self.at
        elif whence == 2:
            to += len(self.data)
        if to < 0:
            raise ValueError('negative position')
        self.at = to
        return to

    def seekable(self):
        return True


class TextIn(io.TextIOBase):
    """A character source."""

    def __init__(self, *a):
        self.s = In(*a)

    def read(self, n=-1):
        return self.s.read(n)

    def tell(self):
        return self.s.tell()

    def seek(self, to, whence=0):
        return self.s.seek(to, whence)


class Out(object):
    """A sink; at a fault it takes part of the data first."""

    def __init__(self, f, part=None):
        self.f = f
        self.part = part
        self.data = []

    def write(self, data):
        try:
            self.f.call('write', bytes(data))
        except BaseException:
            if self.part is not None:
                self.data.append(bytes(data)[:self.part])
            raise
        self.data.append(bytes(data))
        return len(data)

    def flush(self):
        self.f.call('flush')


def make(r, kind, values):
    if kind == 'binary':
        return StreamEnc(r, wild=0.2, nops=0.05).stream(values)
    t = TextEnc(r, wild=0.4).stream(values)
    return t.encode('utf-8') if kind == 'text' else t


def source(kind, f, data, start=0, rng=None, sizes=None):
    return (TextIn if kind == 'unicode' else In)(f, data, start, rng, sizes)


def junk(r, kind):
    """What lies before the position the source is at."""
    j = r.choice(['', '[1,2', '"', '{{', '\xe0\x01\x00\xea', '\xe0\x01', '/*', "'''", '1 2 3 ', '\x0b', '\xe0\x01\x00\xea\x21', '$ion_1_0 '])
    return j if kind == 'unicode' else j.encode('latin-1')


def sizes(r):
    return r.choice([[1], [1, 2], [1, 2, 3], [2], [3], [3, 5], [4], [5], [1, 7, 50], [64], [1000, 1]])


def setting(ctx, budget=(5, 20, 40)):
    r = ctx.rng
    kind = r.choice(['binary', 'text', 'unicode'])
    values = Gen(r, budget=r.choice(budget), deep=0.02).stream()
    data = make(r, kind, values)
    return r, kind, values, data


def snapshot(files, data, kind):
    return '%d calls on %s %s' % (files.calls, kind, data.hex()[:300] if kind == 'binary' else ascii(data)[:400])


def short_load(ctx):
    """Short reads change nothing, and input starts at the position of the source."""
    r, kind, values, data = setting(ctx)
    before = junk(r, kind) if r.random() < 0.5 else data[:0]
    if before:
        ctx.n('offset')
    f = Files()
    src = source(kind, f, before + data, len(before), r, sizes(r))
    ctx.note('%s at %d: %r' % (kind, len(before), before + data))
    want = [loaded_view(v) for v in values]
    single = r.random() < 0.3
    try:
        got = load(src, single_value=single)
    except IonException as e:
        if single and len(values) != 1:
            ctx.n('single.refused')
            return
        ctx.fail('short reads: %s: %s' % (snapshot(f, before + data, kind), describe_error(e)))
    if single:
        got = [got]
    same(want, [value_of(o) for o in got], 'short reads of %r from %d: %s' % (src, len(before), snapshot(f, before + data, kind)))
    ctx.n('short.loads')
    ctx.distinct(kind, f.calls, [shape(v) for v in values])
    if ctx.wants_sample():
        ctx.sample('%s in %d calls' % (ascii(data)[:300], f.calls))


def events_of(kind, src, buffer_size, f, fail=None):
    """Runs the blocking reader; the calls and events go to the log of f.  Returns the error."""
    raw = make_reader(kind)
    reader = blocking_reader(raw, src) if buffer_size is None else blocking_reader(raw, src, buffer_size)
    while True:
        answered = False
        try:
            ev = reader.send(NEXT_EVENT)
            answered = True
            seen = image(ev)    # looks at the value, which may be malformed
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ == 'Hang':
                raise
            f.log.append(('error', type(e)))
            if answered:
                return e
            # Nothing comes after an error.
            try:
                ev = reader.send(NEXT_EVENT)
            except Exception:
                return e
            raise Violation('%r after the error %s' % (ev, describe_error(e)))
        f.log.append(('event', seen))
        if ev.event_type is STOP:
            return None
        if len(f.log) > 10 ** 6:
            raise Violation('no end')


def events_in(log):
    return [x for x in log if x[0] == 'event']


def short_events(ctx):
    """The event trace is the same whatever the reads return."""
    r, kind, values, data = setting(ctx)
    malformed = r.random() < 0.25
    if malformed:
        if kind == 'unicode':
            data = data[:r.randint(0, len(data))] + r.choice([')', '}', ']', '"', '{', '::', "'", '{{', '/*', '\x00', '1.2.3 ', ',']) + ' x'
        elif kind == 'text':
            data = mutate(r, data)
        else:
            data = IVM + mutate(r, data[4:])
    f1, f2 = Files(), Files()
    e1 = events_of(kind, source(kind, f1, data), None, f1)
    size = r.choice([None, 1, 2, 3, 16, 100])
    e2 = events_of(kind, source(kind, f2, data, 0, r, sizes(r)), size, f2)
    ctx.note('%s: %r' % (kind, data))
    if (e1 is None) != (e2 is None):
        ctx.fail('whole reads end with %r, short reads with %r: %s' % (e1, e2, snapshot(f2, data, kind)))
    if e1 is None:
        a, b = events_in(f1.log), events_in(f2.log)
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ctx.fail('event %d is %r with whole reads, %r with short reads: %s' % (i, a[i:i + 1], b[i:i + 1], snapshot(f2, data, kind)))
        ctx.n('short.events')
    else:
        ctx.n('malformed')
    ctx.distinct(kind, f2.calls, size, malformed, len(f1.log))


def ended(ctx):
    """A source that ends too early: what was there is not returned as if it were all."""
    r, kind, values, data = setting(ctx)
    while len(data) < 6:
        kind, values, data = setting(ctx)[1:]
    for end in sorted(r.sample(range(1, len(data)), min(6, len(data) - 1))):
        part = data[:end]
        if kind == 'binary' and end < 4:
            continue
        try:
            if kind == 'binary':
                want = BinDec(part).decode()
            else:
                want = TextDec(part if kind == 'unicode' else part.decode('utf-8', 'ignore')).decode()
                if kind == 'text' and part.decode('utf-8', 'ignore').encode('utf-8') != part:
                    # A piece of a character, in a comment.
                    continue
            want = [loaded_view(v) for v in want]
        except Bad:
            want = None
        except Unsure:
            continue
        f = Files()
        src = source(kind, f, part, 0, r, sizes(r)) if r.random() < 0.7 else source(kind, f, part)
        what = 'a source that ends after %d units: %s' % (end, snapshot(f, part, kind))
        try:
            got = [value_of(o) for o in load(src, single_value=False)]
        except Exception as e:
            if want is not None:
                ctx.fail('%s: %s' % (what, describe_error(e)))
            if isinstance(e, (StopIteration, RecursionError, AttributeError)):
                raise
            ctx.n('ended.refused')
        else:
            if want is None:
                ctx.fail('%s: %r is returned' % (what, got))
            same(want, got, what)
            ctx.n('ended.complete')
        f = Files()
        err = events_of(kind, source(kind, f, part, 0, r, sizes(r)), r.choice([None, 1, 3, 100]), f)
        if (err is None) != (want is not None):
            ctx.fail('%s: the blocking reader ends with %r' % (what, err))
        ctx.distinct(kind, part)


def error(r):
    t = r.choice(FAULTS)
    return t('injected') if not issubclass(t, OSError) else t(5, 'injected')


def places(r, n, most=6):
    return range(1, n + 1) if n <= most else sorted(set([1, 2, 3, n, n - 1] + [r.randint(1, n) for _ in range(most)]))


def failing_load(ctx):
    """An error at each call of load."""
    r, kind, values, data = setting(ctx)
    before = junk(r, kind) if r.random() < 0.3 else data[:0]
    seed = r.getrandbits(32)
    import random
    f = Files()
    how = sizes(r) if r.random() < 0.8 else None
    src = source(kind, f, before + data, len(before), random.Random(seed) if how else None, how)
    ctx.note('%s at %d: %r' % (kind, len(before), before + data))
    whole = [value_of(o) for o in load(src, single_value=False)]
    same([loaded_view(v) for v in values], whole, 'fault-free load: ' + snapshot(f, before + data, kind))
    for at in places(r, f.calls):
        e = error(r)
        g = Files(at, e)
        src = source(kind, g, before + data, len(before), random.Random(seed) if how else None, how)
        what = '%s at call %d (%s) of %s' % (type(e).__name__, at, f.kinds[at - 1], snapshot(f, before + data, kind))
        try:
            got = load(src, single_value=False)
        except BaseException as x:
            if isinstance(x, Violation) or type(x).__name__ == 'Hang':
                raise
            if x is not e:
                ctx.fail('%s: %s surfaces instead: %s' % (what, type(x).__name__, x))
        else:
            # Only right if the fault changed nothing.
            same(whole, [value_of(o) for o in got], what + ': the error is lost')
        if g.calls < at:
            ctx.fail(what + ': the call is not made again')
        if g.kinds[:at] != f.kinds[:at]:
            ctx.fail('%s: the calls %r became %r' % (what, f.kinds[:at], g.kinds[:at]))
        ctx.n('faults.' + f.kinds[at - 1])
        ctx.distinct(kind, type(e).__name__, f.kinds[at - 1], at, f.calls, data)


def failing_events(ctx):
    """An error at each read of the blocking reader: the trace up to it is the fault-free one."""
    r, kind, values, data = setting(ctx)
    import random
    seed = r.getrandbits(32)
    how = sizes(r) if r.random() < 0.8 else None
    size = r.choice([None, 1, 2, 3, 16, 100])
    f = Files()
    ctx.note('%s: %r' % (kind, data))
    err = events_of(kind, source(kind, f, data, 0, random.Random(seed) if how else None, how), size, f)
    if err is not None:
        ctx.fail('fault-free run: %s: %s' % (describe_error(err), snapshot(f, data, kind)))
    for at in places(r, f.calls):
        e = error(r)
        g = Files(at, e)
        err = events_of(kind, source(kind, g, data, 0, random.Random(seed) if how else None, how), size, g)
        what = '%s at read %d of %s' % (type(e).__name__, at, snapshot(f, data, kind))
        if err is None:
            if events_in(f.log) != events_in(g.log):
                ctx.fail(what + ': the error is lost and the events differ')
        elif err is not e:
            ctx.fail('%s: %s surfaces instead: %s' % (what, type(err).__name__, err))
        k = g.log.index(('fault',))
        if g.log[:k] != f.log[:k]:
            ctx.fail('%s: the run before the fault differs' % what)
        if err is not None and events_in(g.log) != events_in(f.log[:k]):
            ctx.fail('%s: events come after the fault' % what)
        ctx.n('faults.read')
        ctx.distinct(kind, type(e).__name__, at, f.calls, size, data)


def to_dump(r):
    values = Gen(r, budget=r.choice([5, 20, 40]), sym0=False, deep=0.02).stream()
    native = r.choice([0.0, 0.5, 1.0])
    objs = [to_mixed(v, r, native) for v in values]
    kw = {'binary': r.random() < 0.5}
    if len(objs) == 1 and r.random() < 0.5:
        obj = objs[0]
    else:
        obj = objs
        kw['sequence_as_stream'] = r.random() < 0.7
    if not kw['binary'] and r.random() < 0.3:
        kw['indent'] = r.choice(['', ' ', '\t'])
    if not kw['binary'] and r.random() < 0.3:
        kw['omit_version_marker'] = True
    return values, obj, kw


def failing_dump(ctx):
    """An error at each write of dump."""
    r = ctx.rng
    values, obj, kw = to_dump(r)
    f = Files()
    out = Out(f)
    dump(obj, out, **kw)
    whole = b''.join(out.data)
    text = dumps(obj, **kw)
    if whole != (text if kw['binary'] else text.encode('utf-8')):
        ctx.fail('dump and dumps differ: %r, %r' % (whole, text))
    ctx.note('%r %r' % (kw, whole))
    for at in places(r, f.calls):
        if f.kinds[at - 1] != 'write':
            continue
        e = error(r)
        part = None
        if r.random() < 0.4:
            part = r.randint(0, len(f.log[at - 1][1]))
            ctx.n('faults.partial-write')
        g = Files(at, e)
        out = Out(g, part)
        what = '%s at write %d of %d of %r %r' % (type(e).__name__, at, f.calls, whole, kw)
        before = b''.join(x[1] for x in f.log[:at - 1] if x[0] == 'write')
        faulted(ctx, lambda: dump(obj, out, **kw), e, what, out, whole, before, part)
        ctx.n('faults.write')
        ctx.distinct(type(e).__name__, at, part, whole)


def faulted(ctx, run, e, what, out, whole, before, part):
    try:
        run()
    except BaseException as x:
        if isinstance(x, Violation) or type(x).__name__ == 'Hang':
            raise
        if x is not e:
            ctx.fail('%s: %s surfaces instead: %s' % (what, type(x).__name__, x))
        del x
        lost = False
    else:
        lost = True
    if ctx.rng.random() < 0.01:
        gc.collect()
    found = b''.join(out.data)
    if lost:
        if found != whole:
            ctx.fail('%s: the error is lost, and %r is written' % (what, found))
        return
    if not whole.startswith(found):
        ctx.fail('%s: %r is at the sink, no prefix of the output' % (what, found))
    if not found.startswith(before):
        ctx.fail('%s: only %r is at the sink' % (what, found))


def failing_writer(ctx):
    """An error at each write of the blocking writer."""
    r = ctx.rng
    binary = r.random() < 0.5
    evs = []
    for _ in range(r.choice([1, 1, 2])):
        for v in Gen(r, budget=r.choice([5, 20, 40]), deep=0.02).stream():
            evs += to_events(v, r)
        evs.append(ION_STREAM_END_EVENT)
    indent = r.choice([None, None, '', '  '])
    make_writer = lambda: binary_writer() if binary else text_writer(indent=indent)
    f = Files()
    out = Out(f)
    w = blocking_writer(make_writer(), out)
    answers = [w.send(e) for e in evs]
    whole = b''.join(out.data)
    if written(make_writer(), evs) != whole:
        ctx.fail('the blocking writer wrote %r' % whole)
    for e, a in zip(evs, answers):
        if a not in (WriteEventType.COMPLETE, WriteEventType.NEEDS_INPUT):
            ctx.fail('answer %r to %r' % (a, e))
    ctx.note('%r' % whole)
    for at in places(r, f.calls):
        e = error(r)
        part = r.randint(0, len(f.log[at - 1][1])) if r.random() < 0.4 else None
        if part is not None:
            ctx.n('faults.partial-write')
        g = Files(at, e)
        out = Out(g, part)
        what = '%s at write %d of %d of %r' % (type(e).__name__, at, f.calls, whole)
        before = b''.join(x[1] for x in f.log[:at - 1])
        w = blocking_writer(make_writer(), out)
        sent = [0]
        got = []

        def run():
            for ev in evs:
                sent[0] += 1
                got.append(w.send(ev))
        faulted(ctx, run, e, what, out, whole, before, part)
        if got != answers[:len(got)]:
            ctx.fail('%s: answers %r instead of %r' % (what, got, answers[:len(got)]))
        # A writer that failed does not go on as if nothing had happened.
        if g.calls == at and len(got) < len(evs):
            for ev in evs[sent[0]:sent[0] + 2]:
                try:
                    a = w.send(ev)
                except Exception:
                    pass
                else:
                    if not whole.startswith(b''.join(out.data)):
                        ctx.fail('%s: the writer goes on with %r after the fault' % (what, a))
        ctx.n('faults.write')
        ctx.distinct(type(e).__name__, at, part, whole)


def mixed(ctx):
    """A copy from a failing source to a failing sink."""
    r, kind, values, data = setting(ctx)
    binary = r.random() < 0.5
    import random
    seed = r.getrandbits(32)
    how = sizes(r)

    def copy(f):
        out = Out(f)
        src = source(kind, f, data, 0, random.Random(seed), how)
        reader = blocking_reader(make_reader(kind), src, 7)
        writer = blocking_writer(binary_writer() if binary else text_writer(), out)
        try:
            while True:
                ev = reader.send(NEXT_EVENT)
                writer.send(ev)
                if ev.event_type is STOP:
                    return out, None
        except BaseException as e:
            if isinstance(e, Violation) or type(e).__name__ == 'Hang':
                raise
            return out, e
    f = Files()
    out, err = copy(f)
    if err is not None:
        ctx.fail('fault-free copy: %s: %s' % (describe_error(err), snapshot(f, data, kind)))
    whole = b''.join(out.data)
    if binary:
        found = BinDec(whole).decode() if whole else []
    else:
        found = TextDec(whole.decode('utf-8')).decode()
    same(values, found, 'copy of %s' % snapshot(f, data, kind))
    ctx.note('%s: %r' % (kind, data))
    for at in places(r, f.calls, 4):
        e = error(r)
        g = Files(at, e)
        out, err = copy(g)
        what = '%s at call %d of a copy of %s' % (type(e).__name__, at, snapshot(f, data, kind))
        if err is not None and err is not e:
            ctx.fail('%s: %s surfaces instead: %s' % (what, type(err).__name__, err))
        got = b''.join(out.data)
        if err is None and got != whole:
            ctx.fail('%s: the error is lost' % what)
        if not whole.startswith(got):
            ctx.fail('%s: %r is no prefix of the output' % (what, got))
        k = g.log.index(('fault',))
        if g.log[:k - 1] != f.log[:k - 1]:
            ctx.fail('%s: the run before the fault differs' % what)
        if err is not None and len(g.log) != k + 1:
            ctx.fail('%s: calls after the fault: %r' % (what, g.log[k + 1:]))
        ctx.n('mixed')
        ctx.n('faults.' + f.kinds[at - 1])
        ctx.distinct(kind, binary, type(e).__name__, at, data)


def real(ctx):
    """Real files: unbuffered, buffered, text, compressed; at a position; to a full device."""
    r, kind, values, data = setting(ctx)
    folder = tempfile.mkdtemp(prefix='ionmon-c19-')
    try:
        real_in(ctx, r, kind, values, data, folder)
    finally:
        shutil.rmtree(folder)


def real_in(ctx, r, kind, values, data, folder):
    name = os.path.join(folder, 'f')
    octets = data.encode('utf-8') if kind == 'unicode' else data
    before = b'' if r.random() < 0.4 else r.choice([b'\xe0\x01\x00\xea', b'[1,', b'{{', b'xyz'])
    want = [loaded_view(v) for v in values]
    if kind == 'unicode':
        if '\r' in data:
            return
        with open(name, 'wb') as o:
            o.write(octets)
        how = 'text'
        fp = io.open(name, encoding='utf-8', newline=r.choice(['', '\n']))
    else:
        how = r.choice(['raw', 'buffered', 'random', 'gzip', 'bz2', 'small'])
        opener = {'gzip': gzip.open, 'bz2': bz2.open}.get(how, open)
        with opener(name, 'wb') as o:
            o.write(before + octets)
        if how == 'raw':
            fp = open(name, 'rb', buffering=0)
        elif how == 'small':
            fp = open(name, 'rb', buffering=r.choice([2, 3, 16]))
        elif how == 'random':
            fp = open(name, 'r+b')
        else:
            fp = opener(name, 'rb')
        fp.seek(len(before))
    with fp:
        got = load(fp, single_value=False)
        if fp.read() not in ('', b''):
            ctx.fail('load leaves data in the file: %r' % data)
    same(want, [value_of(o) for o in got], 'load of a %s file: %r' % (how, data))
    ctx.n('real.files')
    ctx.n('real.' + how)
    ctx.distinct(how, data)
    # A closed file.
    try:
        got = load(fp, single_value=False)
    except Exception:
        pass
    else:
        ctx.fail('load of a closed file returns %r' % (got,))
    # Out again.
    vs, obj, kw = to_dump(r)
    text = dumps(obj, **kw)
    octets = text if kw['binary'] else text.encode('utf-8')
    with open(name, 'wb', buffering=r.choice([0, -1])) as fp:
        fp.write(b'junk')
        dump(obj, fp, **kw)
    with open(name, 'rb') as fp:
        found = fp.read()
    if found != b'junk' + octets:
        ctx.fail('dump to a file wrote %r instead of %r' % (found, octets))
    for bad in [lambda: open(name, 'rb', buffering=0), lambda: closed(name)]:
        if not octets:
            continue
        fp = bad()
        try:
            dump(obj, fp, **kw)
        except (OSError, ValueError):
            pass
        else:
            ctx.fail('dump to a file that cannot be written succeeds: %r' % octets)
        finally:
            fp.close()
    if octets and os.path.exists('/dev/full'):
        fp = open('/dev/full', 'wb', buffering=0)
        try:
            dump(obj, fp, **kw)
        except OSError:
            ctx.n('device-full')
        else:
            ctx.fail('dump to a full device succeeds: %r' % octets)
        finally:
            fp.close()


def closed(name):
    fp = open(name, 'ab')
    fp.close()
    return fp


def pipe(ctx):
    """A pipe whose writer gives pieces at its own pace, or goes away."""
    r, kind, values, data = setting(ctx)
    if kind == 'unicode':
        kind, data = 'text', data.encode('utf-8')
    pieces = cut(r, data)[:60]
    data = b''.join(pieces)
    truncated = r.random() < 0.3 and len(data) > 4
    a, b = os.pipe()

    def feed():
        try:
            for p in pieces:
                os.write(b, p)
        finally:
            os.close(b)
    f1 = Files()
    e1 = events_of(kind, source(kind, f1, data), None, f1)
    t = threading.Thread(target=feed)
    t.start()
    f2 = Files()
    with open(a, 'rb', buffering=0) as fp:
        e2 = events_of(kind, fp, r.choice([None, 1, 5, 100]), f2)
        if e2 is not None:
            while fp.read(10 ** 6):
                pass
    t.join()
    if type(e1) is not type(e2) or events_in(f1.log) != events_in(f2.log) and e1 is None:
        ctx.fail('a pipe gives %r and %r instead of %r and %r: %r' % (e2, events_in(f2.log), e1, events_in(f1.log), data))
    ctx.n('pipes')
    ctx.distinct(kind, data, len(pieces))
    # Not seekable: load cannot go back, and says so or works.
    a, b = os.pipe()
    os.write(b, IVM + b'\x21\x01')
    os.close(b)
    with open(a, 'rb', buffering=0) as fp:
        try:
            got = load(fp)
        except OSError:
            pass
        else:
            if got != 1:
                ctx.fail('load from a pipe returns %r' % (got,))


FAMILIES = [('short_load', short_load, 6000), ('ended', ended, 1500), ('short_events', short_events, 4000), ('failing_load', failing_load, 2500),
            ('failing_events', failing_events, 2500), ('failing_dump', failing_dump, 2500), ('failing_writer', failing_writer, 2000),
            ('mixed', mixed, 700), ('real', real, 400), ('pipe', pipe, 120)]
