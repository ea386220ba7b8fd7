from amazon.ion.exceptions import IonException
from amazon.ion.reader import blocking_reader
from ..common import *

RULE = ('Well-formed binary and text streams are first read completely (and compared with the reference values), then read again with '
        'skips: one skip at every single position inside containers, several skips in a row, and random mixtures, under random chunk '
        'schedules.  The monitor computes from the complete event list which events must remain and compares exact images, evaluated '
        'at once or only at the end.  Blocking readers over such streams, and over streams cut short, must end as they do without skips: '
        'in an error if a container is open.  Distinct: different stream together with the positions of the skips; runs without a skip do not count.')
ASSUMPTIONS = ['the complete event list is the one checked against lib/ionmon/binref.py and textref.py in the same case']
MIN = {'skips': 40000, 'runs': 25000, 'binary': 1000, 'text': 800, 'double-skips': 2000, 'skipped events': 40000, 'large': 60, 'cut': 7000, 'blocking': 2000}
THOROUGH = 20


def play(kind, pieces, managed, plan, late):
    """Reads with skips where plan(position in the complete list, depth) says; returns the list of event images and how
    many skips were made.  late: events are looked at only at the end of the stream."""
    tree = Tree(raw=not managed, managed=managed)
    reader = make_reader(kind, None, managed)
    out = []
    raw = []
    i = 0
    depth = 0
    flushed = 0
    n = [0]
    ev = reader.send(NEXT_EVENT)
    while True:
        if len(raw) > 10 ** 5:
            raise Violation('no end of stream')
        k = ev.event_type
        if k is STOP or k is INCOMPLETE:
            if i < len(pieces):
                ev = reader.send(read_data_event(pieces[i]))
                i += 1
                flushed = 0
                continue
            if k is STOP:
                break
            if flushed == 2:
                raise Violation('the reader asks for data again after a flush at the end of the input')
            flushed += 1
            ev = reader.send(NEXT_EVENT)
            continue
        flushed = 0
        raw.append(ev)
        if not late:
            out.append(image(ev))
        if k is START:
            depth += 1
        elif k is END:
            depth -= 1
        if depth > 0 and plan(out if not late else raw, depth):
            n[0] += 1
            ev = reader.send(SKIP_EVENT)
        else:
            ev = reader.send(NEXT_EVENT)
    if late:
        out = [image(e) for e in raw]
    return out, n[0]


def model(full, plan):
    """The images that remain of the complete list when plan says where to skip; also how often."""
    out = []
    depth = 0
    i = 0
    skips = 0
    lost = 0
    while i < len(full):
        out.append(full[i])
        k = full[i][0]
        if k == 'CONTAINER_START':
            depth += 1
        elif k == 'CONTAINER_END':
            depth -= 1
        i += 1
        if depth > 0 and plan(out, depth):
            skips += 1
            level = depth
            while True:
                k = full[i][0]
                if k == 'CONTAINER_START':
                    level += 1
                elif k == 'CONTAINER_END':
                    level -= 1
                    if level < depth:
                        break
                i += 1
                lost += 1
    return out, skips, lost


def make(ctx):
    r = ctx.rng
    g = Gen(r, depth=r.choice([2, 4, 6]), budget=r.choice([8, 15, 30]), long_text=0.01, big=0, deep=0.02)
    if r.random() < 0.3:
        g.pool += ['$ion_symbol_table', 'symbols', 'imports', '$ion_1_0']
    n = r.choice([1, 1, 2, 3])
    values = []
    while len(values) < n:
        v = g.value(top=True)
        if v.v is not None and v.t >= LIST or r.random() < 0.3:
            values.append(v)
        g.budget = max(g.budget, 5)
    if r.random() < 0.5:
        kind = 'binary'
        data = StreamEnc(r, wild=r.choice([0.1, 0.5]), nops=r.choice([0, 0.1])).stream(values)
    else:
        kind = r.choice(['text', 'unicode'])
        data = TextEnc(r, wild=r.choice([0.2, 0.6])).stream(values)
        if kind == 'text':
            data = data.encode('utf-8')
    return values, kind, data


def run(ctx, made=None, cut=cut):
    r = ctx.rng
    values, kind, data = made or make(ctx)
    if not data:
        return
    managed = r.random() < 0.75
    ctx.n('binary' if kind == 'binary' else 'text')
    shown = data.hex() if kind == 'binary' else ascii(data)
    ctx.note('%s %s: %s' % (kind, 'managed' if managed else 'raw', shown[:3000]))
    tree = Tree(raw=not managed, managed=managed)
    tree.trace = []
    tree, err = read_pieces(kind, [data], managed=managed, tree=tree)
    if err is not None:
        ctx.fail('%s reader refuses %s: %s' % (kind, shown[:500], describe_error(err)))
    if managed:
        same(values, tree.values, '%s reader, %s' % (kind, shown[:500]))
    full = tree.trace
    plans = []
    inside = []
    depth = 0
    for i, im in enumerate(full):
        depth += {'CONTAINER_START': 1, 'CONTAINER_END': -1}.get(im[0], 0)
        if depth > 0:
            inside.append(i + 1)
    if made:
        ctx.n('large')
        at = sorted(set(inside[:3] + inside[-3:] + r.sample(inside, min(3, len(inside)))))
    else:
        at = inside if len(inside) <= 14 else sorted(r.sample(inside, 12))
    for p in at:
        plans.append(('one at %d' % p, lambda p=p: (lambda seen, depth: len(seen) == p)))
    for p in r.sample(inside, min(3, len(inside))):
        k = r.choice([2, 3, 5])
        # a skip, and then again after each of the ends it brings
        plans.append(('%d from %d' % (k, p), lambda p=p, k=k: (lambda seen, depth: p <= len(seen) < p + k)))
        ctx.n('double-skips')
    for _ in range(1 if made else 4):
        seed = r.getrandbits(32)
        prob = r.choice([0.1, 0.3, 0.6, 0.9])

        def plan(seed=seed, prob=prob):
            import random
            rr = random.Random(seed)
            return lambda seen, depth: rr.random() < prob
        plans.append(('random %d %.1f' % (seed, prob), plan))
    for name, mk in plans:
        expected, skips, lost = model(full, mk())
        ctx.n('skips', skips)
        ctx.n('skipped events', lost)
        ctx.n('runs')
        pieces = [data] if r.random() < 0.3 else cut(r, data)
        late = r.random() < 0.2
        what = '%s %s reader, skips %s, pieces %r, %s' % (kind, 'managed' if managed else 'raw', name, [len(p) for p in pieces][:40], shown[:600])
        try:
            found, n = play(kind, pieces, managed, mk(), late)
        except Violation:
            raise
        except Exception as e:
            ctx.fail('%s: %s' % (what, describe_error(e)))
        if found != expected:
            k = 0
            while k < min(len(found), len(expected)) and found[k] == expected[k]:
                k += 1
            ctx.fail('%s: event %d is %r instead of %r' % (what, k, found[k:k + 1], expected[k:k + 1]))
        if skips:
            ctx.distinct(data, name)
    if ctx.wants_sample():
        ctx.sample(shown[:400])


def large(ctx):
    """Skips over values of sizes around those at which length fields and buffers grow."""
    r = ctx.rng
    kind = r.choice(['binary', 'binary', 'text', 'unicode'])
    values = large_values(r, 10 ** 9 if kind == 'binary' else 9000)
    if kind == 'binary':
        e = StreamEnc(r, wild=0.1, nops=r.choice([0, 0.1]))
        e.enc.long_nops = True
        data = e.stream(values)
    else:
        data = TextEnc(r, wild=0.1).stream(values)
        if kind == 'text':
            data = data.encode('utf-8')
    run(ctx, (values, kind, data), large_cut)


class Short(object):
    """A source that returns what it likes."""

    def __init__(self, data, r):
        self.data = data
        self.r = r
        self.at = 0

    def read(self, n=-1):
        k = self.r.choice([1, 3, 50, 1000])
        out = self.data[self.at:self.at + (k if n < 0 else min(k, n))]
        self.at += len(out)
        return out


def play_blocking(kind, data, managed, plan, r):
    """The same with the blocking reader, which reads on by itself.  Returns the images, the error, and the depth at its end."""
    reader = blocking_reader(make_reader(kind, None, managed), Short(data, r), r.choice([1, 7, 8192]))
    out = []
    depth = 0
    request = NEXT_EVENT
    while True:
        if len(out) > 10 ** 5:
            raise Violation('no end of stream')
        try:
            ev = reader.send(request)
            k = ev.event_type
            if k is STOP:
                return out, None, depth
            if k is INCOMPLETE:
                raise Violation('the blocking reader reports INCOMPLETE')
            out.append(image(ev))
        except Violation:
            raise
        except (IonException, TypeError) as e:
            return out, e, depth
        depth += {START: 1, END: -1}.get(k, 0)
        request = SKIP_EVENT if depth > 0 and plan(out, depth) else NEXT_EVENT


def truncated(ctx):
    """Input that ends inside what is read or skipped is not taken for complete, whole input is."""
    import random
    r = ctx.rng
    values, kind, data = make(ctx)
    if len(data) < 5:
        return
    managed = r.random() < 0.75
    tree = Tree(raw=not managed, managed=managed)
    tree.trace = []
    tree, err = read_pieces(kind, [data], managed=managed, tree=tree)
    if err is not None:
        ctx.fail('%s reader refuses %r: %s' % (kind, data[:500], describe_error(err)))
    full = tree.trace
    ends = sorted(set([len(data)] + [r.randint(4, len(data) - 1) for _ in range(5)]))
    for end in ends:
        part = data[:end]
        if kind == 'text' and part.decode('utf-8', 'ignore').encode('utf-8') != part:
            continue
        ctx.note('%s %s: %r of %r' % (kind, 'managed' if managed else 'raw', part[:1500], data[:1500]))
        visited, err, depth = play_blocking(kind, part, managed, lambda seen, depth: False, r)
        what = '%s %s reader, %r' % (kind, 'managed' if managed else 'raw', part[:600])
        if depth > 0 and err is None:
            ctx.fail('%s: the input ends in an open container, and the reader reports the end of the stream' % what)
        if end == len(data) and err is not None:
            ctx.fail('%s: %s' % (what, describe_error(err)))
        if visited[:-1] != full[:max(0, len(visited) - 1)]:
            ctx.fail('%s: the events %r are no part of %r' % (what, visited[-3:], full[:len(visited)][-3:]))
        inside = []
        level = 0
        for i, im in enumerate(visited):
            level += {'CONTAINER_START': 1, 'CONTAINER_END': -1}.get(im[0], 0)
            if level > 0:
                inside.append(i + 1)
        plans = [('one at %d' % p, lambda p=p: (lambda seen, depth: len(seen) == p)) for p in r.sample(inside, min(3, len(inside)))]
        for prob in (0.1, 0.5):
            seed = r.getrandbits(32)

            def plan(seed=seed, prob=prob):
                rr = random.Random(seed)
                return lambda seen, depth: rr.random() < prob
            plans.append(('random %d %.1f' % (seed, prob), plan))
        for name, mk in plans:
            expected, skips, lost = model(full, mk())
            found, e, at = play_blocking(kind, part, managed, mk(), r)
            if (e is None) != (err is None):
                ctx.fail('%s, skips %s: ends with %s; without skips, with %s' % (what, name, e and describe_error(e), err and describe_error(err)))
            k = len(found) if err is None and end == len(data) else max(0, len(found) - 1)
            if found[:k] != expected[:k] or end == len(data) and len(found) != len(expected):
                ctx.fail('%s, skips %s: the events %r instead of %r' % (what, name, found[-3:], expected[:len(found)][-3:]))
            ctx.n('cut' if err is not None else 'blocking')
            if skips:
                ctx.distinct(part, name)


FAMILIES = [('truncated', truncated, 900), ('skips', run, 3600), ('large', large, 120)]
