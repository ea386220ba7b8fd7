from amazon.ion.reader import BufferQueue
from ..common import *

RULE = ('Well-formed and malformed binary and text inputs are read whole and under many chunk schedules: one unit at a time, every '
        'two-piece cut of short inputs, random cuts, with the same random skips; a monitor compares the exact image of every event '
        '(types, values, tokens with IDs and locations, depths) and the accept-or-reject outcome, and checks every request for data: '
        'an end-of-stream signal must come exactly where a strict reference decoder accepts the data so far, with all of its values '
        'reported.  Distinct: different input together with the chunk schedule; inputs without events do not count.')
ASSUMPTIONS = ['lib/ionmon/binref.py and textref.py decide which prefixes are complete',
               'in text, a reader may ask for more data at a complete prefix whose last token could go on']
MIN = {'schedules': 40000, 'signals.end': 20000, 'signals.incomplete': 100000, 'binary.wellformed': 1000, 'text.wellformed': 1000,
       'malformed.rejected': 1000, 'skips': 700, 'flushes': 500, 'large': 60, 'tokens': 1500, 'queues': 4000}
THOROUGH = 20


def run(kind, pieces, managed, choices, signals=None, ahead=0):
    """choices: None, or a list of booleans that says which events are followed by a skip.  ahead: how many pieces lie in a queue
    of the caller's before the reader starts."""
    reader = None
    if ahead:
        queue = BufferQueue(is_unicode=kind == 'unicode')
        for p in pieces[:ahead]:
            if p:
                queue.extend(p)
        pieces = pieces[ahead:]
        reader = binary_reader(queue) if kind == 'binary' else text_reader(queue, is_unicode=kind == 'unicode')
        if managed:
            reader = managed_reader(reader)
    tree = Tree(raw=not managed, managed=managed)
    tree.trace = []
    skipped = [0]

    def skip(tree):
        c = choices[len(tree.trace) % len(choices)]
        skipped[0] += c
        return c
    tree, err = read_pieces(kind, pieces, managed=managed, tree=tree, signals=signals, skip=skip if choices else None,
                            reader=reader)
    tree.skipped = skipped[0]
    return tree, err


def schedules(r, data, n):
    yield 'units', cut(r, data, 'units')
    if len(data) <= 60:
        for i in range(1, len(data)):
            yield 'two at %d' % i, [data[:i], data[i:]]
    else:
        for i in sorted(r.sample(range(1, len(data)), 12)):
            yield 'two at %d' % i, [data[:i], data[i:]]
    for _ in range(n):
        s = r.choice(['small', 'few', 'mixed'])
        yield s, cut(r, data, s)


def show_data(data):
    return data.hex()[:600] if isinstance(data, bytes) and data[:4] == IVM else ascii(data)[:600]


def compare(ctx, kind, data, managed, choices, marks, n=4, schedules=schedules):
    """Reads data whole and in pieces.  marks: None or a function from a prefix length to the number of values complete
    there, or None when the data so far is not complete."""
    r = ctx.rng
    if not data:
        return None
    ctx.note('%s %s: %s' % (kind, 'managed' if managed else 'raw', show_data(data)))
    base, err = run(kind, [data], managed, choices)
    ctx.n('skips', base.skipped)
    for name, pieces in schedules(r, data, n):
        signals = []
        ahead = min(r.choice([1, 1, 2, 1000]), len(pieces)) if r.random() < 0.1 else 0
        tree, e = run(kind, pieces, managed, choices, signals, ahead)
        if ahead:
            ctx.n('queues')
            name = '%s (%d of them in the queue before)' % (name, ahead)
        ctx.n('schedules')
        ctx.n('events', tree.events)
        ctx.max('pieces', len(pieces))
        where = '%s %s reader, pieces %s of %s' % (kind, 'managed' if managed else 'raw', name, show_data(data))
        if (e is None) != (err is None):
            ctx.fail('%s: %s, and whole: %s' % (where, 'accepted' if e is None else describe_error(e),
                                                'accepted' if err is None else describe_error(err)))
        if tree.trace != base.trace:
            k = 0
            while k < min(len(tree.trace), len(base.trace)) and tree.trace[k] == base.trace[k]:
                k += 1
            ctx.fail('%s: event %d is %r, and whole: %r' % (where, k, tree.trace[k:k + 1], base.trace[k:k + 1]))
        if marks is None:
            continue
        size = 0
        ends = [0]
        for p in pieces:
            size += len(p)
            ends.append(size)
        for (signal, i, values, depth, flushed) in signals:
            at = ends[i + ahead]
            m = marks(at)
            if signal is STOP:
                ctx.n('signals.end')
                if m is None:
                    ctx.fail('%s: end of stream signalled after %d units, where the data is not complete' % (where, at))
                if m != values:
                    ctx.fail('%s: %d values reported at the end of stream signalled after %d units, which hold %d' % (where, values, at, m))
            else:
                ctx.n('signals.incomplete')
                if kind == 'binary' and m is not None:
                    ctx.fail('%s: incomplete value signalled after %d octets, where the data is complete' % (where, at))
    return base, err


def skips(r):
    if r.random() < 0.45:
        p = r.choice([0.05, 0.2, 0.5])
        return [r.random() < p for _ in range(37)] or None
    return None


def text_marks(text, encoded):
    """Completeness of the prefixes of a text; lengths count bytes when encoded."""
    memo = {}
    sure = [True]

    def f(n):
        if n not in memo:
            if encoded:
                try:
                    prefix = encoded[:n].decode('utf-8')
                except UnicodeDecodeError:
                    memo[n] = None
                    return None
            else:
                prefix = text[:n]
            try:
                memo[n] = len(TextDec(prefix).decode())
            except Bad:
                memo[n] = None
        return memo[n]
    return f


def binary(ctx):
    r = ctx.rng
    managed = r.random() < 0.7
    g = Gen(r, budget=r.choice([2, 5, 10, 20]), long_text=0.02, big=0)
    values = g.stream(r.choice([1, 1, 2, 3]))
    e = StreamEnc(r, wild=r.choice([0.1, 0.5]), nops=r.choice([0, 0.1, 0.2]))
    data = e.stream(values)
    d = BinDec(data)
    d.decode()
    done = {}
    if managed:
        counts = {}
        n = 0
        starts = iter(d.extents)
        # the values complete at each mark
        ext = []
        k = 0
        for ev in d.events:
            if ev[0] != 'ivm':
                ext.append((d.extents[k][1], ev[0]))
                k += 1
        for m in d.marks:
            done[m] = len([1 for end, what in ext if end <= m and what == 'value'])
    else:
        for m in d.marks:
            done[m] = len([1 for _, end in d.extents if end <= m])
    ctx.distinct(data)
    ctx.n('binary.wellformed')
    count_values(ctx, values)
    choices = skips(r)
    out = compare(ctx, 'binary', data, managed, choices, done.get)
    base, err = out
    if err is not None:
        ctx.fail('well-formed octets %s refused: %s' % (data.hex()[:600], describe_error(err)))
    if managed and choices is None:
        same(values, base.values, 'octets %s' % data.hex()[:600])
    if ctx.wants_sample():
        ctx.sample(data.hex()[:400])


def text(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([2, 4, 8, 15]), long_text=0, big=0, tricky=r.choice([0.2, 0.6]))
    values = g.stream(r.choice([1, 1, 2, 3]))
    e = TextEnc(r, wild=r.choice([0.1, 0.5]))
    s = e.stream(values)
    kind = r.choice(['text', 'text', 'unicode'])
    data = s if kind == 'unicode' else s.encode('utf-8')
    ctx.distinct(s, kind)
    ctx.n('text.wellformed')
    count_values(ctx, values)
    managed = r.random() < 0.8
    choices = skips(r)
    try:
        marks = text_marks(s, None if kind == 'unicode' else data) if managed and len(data) < 120 else None
        out = compare(ctx, kind, data, managed, choices, marks, 3)
    except Unsure:
        ctx.n('text.unsure')
        out = compare(ctx, kind, data, managed, choices, None, 3)
    if out is None:
        return
    base, err = out
    if err is not None:
        ctx.fail('well-formed text %s refused: %s' % (ascii(s)[:600], describe_error(err)))
    if managed and choices is None:
        same(values, base.values, 'text %s' % ascii(s)[:600])
    if ctx.wants_sample():
        ctx.sample(ascii(s)[:400])


def malformed(ctx):
    """Edited and truncated inputs: the cuts change neither the events before the error nor the outcome."""
    r = ctx.rng
    g = Gen(r, budget=r.choice([1, 3, 6]), long_text=0, big=0)
    values = g.stream(r.choice([1, 2]))
    for _ in range(4):
        if r.random() < 0.5:
            data = StreamEnc(r, wild=0.3, nops=0.1).stream(values)
            if r.random() < 0.3:
                data = data[:r.randrange(4, len(data) + 1)]
            else:
                data = IVM + mutate(r, data[4:])
            kind = 'binary'
            if costly(data):
                continue
        else:
            s = TextEnc(r, wild=0.4).stream(values)
            kind = r.choice(['text', 'unicode'])
            if kind == 'unicode':
                m = list(s)
                for _ in range(r.choice([1, 1, 2])):
                    i = r.randrange(len(m) + 1)
                    if r.random() < 0.5:
                        m[i:i] = [r.choice('{}[]()\'",:;/*\\ \n\r\t_-+.0123456789abdefnuxT$Zz=\u2603')]
                    else:
                        del m[i:i + r.choice([1, 1, 2, 50])]
                data = ''.join(m)
            else:
                data = s.encode('utf-8')
                data = data[:r.randrange(len(data) + 1)] if r.random() < 0.3 else mutate(r, data)
        out = compare(ctx, kind, data, r.random() < 0.8, skips(r), None, 2)
        if out is None:
            continue
        ctx.distinct(kind, data)
        ctx.n('malformed.accepted' if out[1] is None else 'malformed.rejected')


def costly(data):
    """A huge number field costs time, not insight."""
    try:
        BinDec(data).decode()
    except Unsure as e:
        return str(e) in ('huge max_id', 'exponent', 'very long fraction')
    except Bad:
        pass
    return False


def flush(ctx):
    """A stream that pauses between values: at the pause the reader is told that nothing follows for now, and goes on later."""
    r = ctx.rng
    kind = r.choice(['text', 'unicode', 'binary'])
    g = Gen(r, budget=8, long_text=0, big=0)
    parts = [g.stream(r.choice([1, 1, 2])) for _ in range(r.choice([2, 3]))]
    tree = Tree()
    expected = []
    reader = make_reader(kind)
    if kind == 'binary':
        enc = StreamEnc(r, wild=0.3, nops=0.05)
    for k, values in enumerate(parts):
        if kind == 'binary':
            data = enc.stream(values)
        else:
            data = TextEnc(r, wild=0.3).stream(values)
            if kind == 'text':
                data = data.encode('utf-8')
        expected += values
        ctx.note('part %d: %s' % (k, show_data(data)))
        pieces = cut(r, data)
        tree, err = continue_reading(tree, reader, pieces, k == 0)
        if err is not None:
            ctx.fail('%s reader, part %d of a stream with pauses, %s: %s' % (kind, k, show_data(data), describe_error(err)))
        same(expected, tree.values, '%s reader, part %d of a stream with pauses, %s' % (kind, k, show_data(data)))
        ctx.n('flushes')
    ctx.distinct([[shape(v) for v in p] for p in parts], kind)


def continue_reading(tree, reader, pieces, first):
    try:
        if first:
            ev = reader.send(NEXT_EVENT)
            if ev.event_type is not STOP:
                raise Violation('a new reader yields %r' % (ev,))
        for p in pieces:
            ev = reader.send(read_data_event(p))
            while not tree.feed(ev):
                ev = reader.send(NEXT_EVENT)
        n = 0
        while ev.event_type is not STOP:
            n += 1
            if n > 2:
                raise Violation('the reader asks for data again after a flush at the end of the input')
            ev = reader.send(NEXT_EVENT)
            while not tree.feed(ev):
                ev = reader.send(NEXT_EVENT)
                n = 0
        return tree, None
    except Violation:
        raise
    except Exception as e:
        return tree, e


def large(ctx):
    """Values of sizes around those at which length fields and buffers grow, in pieces of the sizes in which files are read."""
    r = ctx.rng
    kind = r.choice(['binary', 'binary', 'text', 'unicode'])
    values = large_values(r, 10 ** 9 if kind == 'binary' else 9000)
    if kind == 'binary':
        e = StreamEnc(r, wild=0.1, nops=r.choice([0, 0.1]))
        e.enc.long_nops = True
        data = e.stream(values)
    else:
        data = TextEnc(r, wild=0.1).stream(values)
        if kind == 'text':
            data = data.encode('utf-8')
    managed = r.random() < 0.7
    choices = skips(r)
    ctx.n('large')
    ctx.distinct(kind, data)
    base, err = compare(ctx, kind, data, managed, choices, None, 4,
                        lambda r, data, n: [('large', large_cut(r, data)) for _ in range(n)])
    if err is not None:
        ctx.fail('well-formed data %s refused: %s' % (show_data(data), describe_error(err)))
    if managed and choices is None:
        same(values, base.values, 'data %s' % show_data(data))


def tokens(ctx):
    """Strings over the alphabet of one kind of token: most are near to legal, many have several meanings until the next character."""
    r = ctx.rng
    alphabet = r.choice(ALPHABETS)
    for _ in range(4):
        s = near_text(r, alphabet)
        kind = r.choice(['text', 'unicode'])
        data = s.encode('utf-8') if kind == 'text' else s
        if not data:
            continue
        managed = r.random() < 0.8
        choices = skips(r)
        try:
            marks = text_marks(s, data if kind == 'text' else None) if managed and choices is None else None
            out = compare(ctx, kind, data, managed, choices, marks, 2)
        except Unsure:
            ctx.n('text.unsure')
            out = compare(ctx, kind, data, managed, choices, None, 2)
        ctx.distinct(kind, data)
        ctx.n('tokens')
        ctx.n('malformed.accepted' if out[1] is None else 'malformed.rejected')


FAMILIES = [('binary', binary, 2200), ('text', text, 2200), ('malformed', malformed, 1500), ('flush', flush, 1200), ('large', large, 120), ('tokens', tokens, 700)]
