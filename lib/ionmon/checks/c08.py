from ..common import *
from amazon.ion.core import DataEvent
from amazon.ion.reader import ReadEventType

RULE = ('Raw, managed and blocking readers are driven by random requests over well-formed, edited and random inputs in random pieces.  '
        'An online monitor checks every event against the tree grammar (starts and ends match in type and depth, field names exactly on '
        'struct members, no value on containers, stream signals only where they may come, no system data from managed readers) and a '
        'model of the protocol decides which requests are legal; illegal ones are injected at random moments and must raise and leave '
        'no living reader behind.  Distinct: different input and requests; runs without events do not count.')
ASSUMPTIONS = ['a request is legal as the documentation of reader_trampoline says: NEXT first, DATA exactly after a stream signal (or NEXT '
               'after INCOMPLETE in text), SKIP only inside a container']
MIN = {'events': 100000, 'refused.data-unasked': 500, 'refused.empty': 500, 'refused.skip-top': 500, 'refused.start': 300, 'refused.next-hungry': 400,
       'refused.skip-hungry': 300, 'wellformed': 2000, 'garbage': 2000, 'skips': 1500}
THOROUGH = 20


def data_for(ctx, r, kind):
    """An input; the reference values when it is well-formed."""
    x = r.random()
    if x < 0.12:
        n = r.randint(1, 40)
        ctx.n('garbage')
        if kind == 'binary':
            return IVM + bytes([r.choice([r.getrandbits(8), 0xee, 0xe3, 0xde, 0xb3, 0xd2, 0x21, 0x0f, 0x81, 0x82, 0x84, 0, 0xd1, 0xc0]) for _ in range(n)]), None
        s = ''.join([r.choice('{}[]()\'",:/*\\ \n_-+.019abeT$Z::x') for _ in range(n)])
        return (s if kind == 'unicode' else s.encode('utf-8')), None
    g = Gen(r, depth=r.choice([2, 4, 6]), budget=r.choice([3, 10, 25]), long_text=0, big=0, deep=0.01)
    if r.random() < 0.2:
        g.pool += ['$ion_symbol_table', '$ion_1_0', '$ion_symbol_table', 'symbols']
    values = g.stream()
    if kind == 'binary':
        data = StreamEnc(r, wild=r.choice([0.1, 0.5]), nops=r.choice([0, 0.1, 0.3])).stream(values)
    else:
        data = TextEnc(r, wild=r.choice([0.2, 0.6])).stream(values)
    if x < 0.45:
        ctx.n('garbage')
        if kind == 'binary':
            data = IVM + mutate(r, data[4:]) if r.random() < 0.7 else data[:r.randint(4, len(data))]
        elif kind == 'text':
            data = mutate(r, data.encode('utf-8'))
        else:
            m = list(data)
            for _ in range(r.choice([1, 2])):
                i = r.randrange(len(m) + 1)
                if r.random() < 0.5:
                    m[i:i] = [r.choice('{}[]()\'",:;/*\\ \n\r\t_-+.019abdefnuxT$Zz=')]
                else:
                    del m[i:i + r.choice([1, 1, 2, 30])]
            data = ''.join(m)
        return data, None
    if kind == 'text':
        data = data.encode('utf-8')
    ctx.n('wellformed')
    return data, values


def refuse(ctx, reader, request, why, what):
    try:
        ev = reader.send(request)
    except (TypeError, ValueError) as e:
        ctx.n('refused.' + why)
    except Exception as e:
        ctx.fail('%s: %s raises %s' % (what, why, describe_error(e)))
    else:
        ctx.fail('%s: %s is answered with %r' % (what, why, ev))
    for req in (NEXT_EVENT, SKIP_EVENT, NEXT_EVENT):
        try:
            ev = reader.send(req)
        except Exception:
            continue
        ctx.fail('%s: a reader that refused a request (%s) goes on with %r' % (what, why, ev))


def requests(ctx):
    r = ctx.rng
    kind = r.choice(['binary', 'binary', 'text', 'unicode'])
    managed = r.random() < 0.6
    data, values = data_for(ctx, r, kind)
    if kind == 'binary' and values is None:
        from .c06 import costly
        if costly(data):
            return
    shown = data.hex() if kind == 'binary' else ascii(data)
    ctx.note('%s %s: %s' % (kind, 'managed' if managed else 'raw', shown[:3000]))
    what = '%s %s reader, %s' % (kind, 'managed' if managed else 'raw', shown[:500])
    reader = make_reader(kind, None, managed)
    empty = '' if kind == 'unicode' else b''
    some = 'x' if kind == 'unicode' else b'\x0f'
    pieces = cut(r, data) if data else []
    tree = Tree(raw=not managed, managed=managed)
    illegal = r.choice([0, 0.02, 0.1, 0.5])
    skips = r.choice([0, 0, 0.1, 0.4])
    skipped = False
    if r.random() < 0.04:
        refuse(ctx, reader, r.choice([read_data_event(some), read_data_event(data or some), SKIP_EVENT, None, read_data_event(empty)]), 'start', what)
        return
    ev = reader.send(NEXT_EVENT)
    i = 0
    flushed = 0
    trace = []
    try:
        while True:
            trace.append(ev.event_type)
            if len(trace) > 10 ** 5:
                ctx.fail('%s: no end' % what)
            try:
                signal = tree.feed(ev)
            except Violation:
                raise
            except Exception as e:
                # A value that is malformed may be refused only when it is looked at.
                if values is not None:
                    ctx.fail('%s: %s' % (what, describe_error(e)))
                ctx.n('rejected')
                return
            ctx.n('events')
            if signal:
                if ev.ion_type is not None or ev.value is not None or ev.field_name is not None or ev.annotations:
                    ctx.fail('%s: a stream signal with content: %r' % (what, ev))
                if ev.event_type is STOP and tree.stack:
                    ctx.fail('%s: end of stream inside a container' % what)
                if r.random() < illegal:
                    hungry = ev.event_type is STOP or kind == 'binary'
                    x = r.random()
                    if x < 0.3 and hungry:
                        return refuse(ctx, reader, NEXT_EVENT, 'next-hungry', what)
                    if x < 0.6:
                        return refuse(ctx, reader, SKIP_EVENT, 'skip-hungry', what)
                    return refuse(ctx, reader, read_data_event(empty), 'empty', what)
                if i < len(pieces):
                    ev = reader.send(read_data_event(pieces[i]))
                    i += 1
                    flushed = 0
                    continue
                if ev.event_type is STOP:
                    break
                if kind == 'binary':
                    return refuse(ctx, reader, NEXT_EVENT, 'next-hungry', what)
                if flushed == 2:
                    ctx.fail('%s: data is asked for again after a flush' % what)
                flushed += 1
                ev = reader.send(NEXT_EVENT)
                continue
            flushed = 0
            if ev.event_type is MARKER and (ev.depth != 0 or ev.value is not None and False or ev.annotations or ev.field_name is not None):
                ctx.fail('%s: a version marker with content: %r' % (what, ev))
            if r.random() < illegal:
                x = r.random()
                if x < 0.4 and not tree.stack:
                    return refuse(ctx, reader, SKIP_EVENT, 'skip-top', what)
                if x < 0.8:
                    return refuse(ctx, reader, read_data_event(some), 'data-unasked', what)
                return refuse(ctx, reader, read_data_event(empty), 'empty', what)
            if tree.stack and r.random() < skips:
                skipped = True
                ctx.n('skips')
                ev = reader.send(SKIP_EVENT)
            else:
                ev = reader.send(NEXT_EVENT)
    except Violation:
        raise
    except StopIteration:
        ctx.fail('%s: the reader stopped' % what)
    except Exception as e:
        if values is not None:
            ctx.fail('%s: %s' % (what, describe_error(e)))
        ctx.n('rejected')
        # A reader that failed stays silent.
        for req in (NEXT_EVENT, read_data_event(some), NEXT_EVENT):
            try:
                ev = reader.send(req)
            except Exception:
                continue
            ctx.fail('%s: a reader that failed (%s) goes on with %r' % (what, describe_error(e), ev))
        return
    finally:
        if len(trace) > 1:
            ctx.distinct(shown, len(trace))
    if tree.stack:
        ctx.fail('%s: the stream ends inside a container' % what)
    if values is not None and managed and not skipped:
        same(values, tree.values, what)
    if ctx.wants_sample():
        ctx.sample('%s: %s' % (shown[:300], ' '.join(str(t.name) for t in trace[:30])))


def blocking(ctx):
    """The same grammar and the same refusals through the blocking reader."""
    r = ctx.rng
    kind = r.choice(['binary', 'text', 'unicode'])
    managed = r.random() < 0.7
    data, values = data_for(ctx, r, kind)
    if kind == 'binary' and values is None:
        from .c06 import costly
        if costly(data):
            return
    shown = data.hex() if kind == 'binary' else ascii(data)
    ctx.note('%s: %s' % (kind, shown[:3000]))
    what = 'blocking %s %s reader, %s' % (kind, 'managed' if managed else 'raw', shown[:500])
    src = StringIO(data, newline='') if kind == 'unicode' else BytesIO(data)
    reader = blocking_reader(make_reader(kind, None, managed), src, r.choice([1, 3, 50, 8196]))
    tree = Tree(raw=not managed, managed=managed)
    skips = r.choice([0, 0, 0.2])
    skipped = False
    illegal = r.choice([0, 0.05])
    if r.random() < 0.05:
        return refuse(ctx, reader, SKIP_EVENT, 'start', what)
    request = NEXT_EVENT
    try:
        while True:
            ev = reader.send(request)
            ctx.n('events')
            if tree.feed(ev):
                if ev.event_type is not STOP:
                    ctx.fail('%s: %r' % (what, ev))
                break
            if r.random() < illegal:
                if not tree.stack:
                    return refuse(ctx, reader, SKIP_EVENT, 'skip-top', what)
                return refuse(ctx, reader, read_data_event('x' if kind == 'unicode' else b'x'), 'data-unasked', what)
            request = NEXT_EVENT
            if tree.stack and r.random() < skips:
                request = SKIP_EVENT
                skipped = True
    except Violation:
        raise
    except StopIteration:
        ctx.fail('%s: the reader stopped' % what)
    except Exception as e:
        if values is not None:
            ctx.fail('%s: %s' % (what, describe_error(e)))
        ctx.n('rejected')
        return
    ctx.distinct(shown)
    if values is not None and managed and not skipped:
        same(values, tree.values, what)


FAMILIES = [('requests', requests, 24000), ('blocking', blocking, 8000)]
