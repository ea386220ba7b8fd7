from amazon.ion.reader import BufferQueue, CodePointArray
from amazon.ion.writer_buffer import BufferTree
from ..common import *

RULE = ('Random histories of operations run on the read queue (bytes and characters) and the write tree next to shadow models (a plain '
        'sequence with a position; a list of pieces with a stack of lengths).  After every operation the returned units, the length, the '
        'position and the container lengths are compared, refused operations must leave the state as it was, and at the end everything '
        'left is drained and compared.  A further family drives the real writer with containers of exact sizes around every length '
        'encoding, and the real reader over hostile segmentations.  Distinct: different histories.')
ASSUMPTIONS = ['segments are not empty (the reader protocol refuses empty data)', 'only units that were consumed directly before are unread']
MIN = {'ops.queue': 100000, 'reads.across-segments': 2000, 'unreads': 8000, 'skips.beyond': 300, 'refused': 3000, 'eof': 500, 'ops.tree': 60000, 'drains': 3000,
       'containers': 20000, 'containers.empty': 3000, 'lengths.exact': 800}
THOROUGH = 25
EOT = object()
ASTRAL = '\U0001f600'


def units(r, n, text):
    if text:
        return ''.join(r.choice('ab\x04\n\u00e9\u2603\uffff' + ASTRAL + 'xyz') for _ in range(n))
    return bytes(r.choice([0, 4, 10, 127, 128, 255, r.getrandbits(8)]) for _ in range(n))


class Queue(object):
    """The real queue with its shadow: all units so far, and how many are consumed."""

    def __init__(self, ctx, text):
        self.ctx = ctx
        self.text = text
        self.q = BufferQueue(is_unicode=text)
        self.left = []      # units still there
        self.done = []      # units consumed, the latest last; None where only the count is known
        self.bounds = set()
        self.log = []

    def lst(self, data):
        return list(data)

    def check(self, what):
        q = self.q
        if len(q) != len(self.left):
            self.ctx.fail('%s: length %d instead of %d after %s' % (what, len(q), len(self.left), self.tail()))
        if q.position != len(self.done):
            self.ctx.fail('%s: position %d instead of %d after %s' % (what, q.position, len(self.done), self.tail()))

    def tail(self):
        return '; '.join(self.log[-25:])

    def one(self, x):
        """What read_byte shows of a unit."""
        return ord(x) if self.text else x

    def take(self, k):
        out = self.left[:k]
        del self.left[:k]
        self.done += out
        return out

    def compare(self, want, got, what):
        if EOT in want:
            return
        if self.text:
            ok = isinstance(got, str) and got == ''.join(want)
        else:
            ok = isinstance(got, (bytes, bytearray)) and bytes(got) == bytes(want)
        if not ok:
            self.ctx.fail('%s: %r instead of %r after %s' % (what, got, want, self.tail()))

    def unit(self, want, got, what):
        if want is EOT:
            if not BufferQueue.is_eof(got):
                self.ctx.fail('%s: %r instead of the end mark after %s' % (what, got, self.tail()))
            self.ctx.n('eof')
        else:
            if BufferQueue.is_eof(got):
                self.ctx.fail('%s: an end mark instead of %r after %s' % (what, want, self.tail()))
            if got != self.one(want):
                self.ctx.fail('%s: %r instead of %r after %s' % (what, got, self.one(want), self.tail()))


def queue(ctx):
    r = ctx.rng
    text = r.random() < 0.5
    s = Queue(ctx, text)
    q = s.q
    cap = r.choice([5, 20, 200])
    for _ in range(r.choice([10, 40, 120])):
        x = r.random()
        n = len(s.left)
        ctx.n('ops.queue')
        if x < 0.22 or n == 0 and x < 0.8 and r.random() < 0.9:
            data = units(r, r.choice([1, 1, 2, 3, 5, 8, cap]), text)
            s.log.append('extend %r' % (data,))
            q.extend(data)
            if s.left:
                ctx.n('several-segments')
            s.left += list(data)
        elif x < 0.42:
            k = r.choice([0, 1, 1, 2, 3, n, max(0, n - 1), r.randint(0, n)])
            k = min(k, n)
            if EOT in s.left[:k]:
                k = s.left.index(EOT)
            s.log.append('read %d' % k)
            want = s.take(k)
            got = q.read(k)
            s.compare(want, got, 'read %d' % k)
            if k > 1:
                ctx.n('reads.across-segments')
        elif x < 0.55:
            s.log.append('read_byte')
            if n:
                want = s.take(1)[0]
                s.unit(want, q.read_byte(), 'read_byte')
            else:
                refuse(ctx, s, IndexError, q.read_byte)
        elif x < 0.6:
            # Iteration, abandoned at some point.
            k = r.randint(0, min(n, 6))
            s.log.append('iterate %d' % k)
            if k:
                it = iter(q)
                for want in s.take(k):
                    s.unit(want, next(it), 'iteration')
            if not s.left and r.random() < 0.5:
                if list(q):
                    ctx.fail('iteration over an empty queue')
        elif x < 0.78:
            # Unread some of the units consumed last, latest first.
            for _ in range(r.choice([1, 1, 2, 3, 6])):
                if not s.done or s.done[-1] in (EOT, None):
                    break
                u = s.done.pop()
                c = u
                if text and r.random() < 0.5:
                    c = ord(u)
                s.log.append('unread %r' % (c,))
                q.unread(c)
                s.left.insert(0, u)
                ctx.n('unreads')
                s.check('unread')
            if not s.done:
                refuse(ctx, s, IndexError, lambda: q.unread('a' if text else 97))
        elif x < 0.88:
            k = r.choice([0, 1, 2, n, n + 1, n + r.randint(1, 50), r.randint(0, n)])
            if EOT in s.left and k < n:
                k = min(k, s.left.index(EOT))
            s.log.append('skip %d' % k)
            rest = q.skip(k)
            if rest != max(0, k - n):
                ctx.fail('skip %d of %d leaves %r after %s' % (k, n, rest, s.tail()))
            s.take(min(k, n))
            if k > n:
                ctx.n('skips.beyond')
        elif x < 0.92:
            k = r.randint(0, n)
            if EOT not in s.left[:k]:
                s.log.append('read %d, skip' % k)
                s.take(k)
                q.read(k, skip=True)
        elif x < 0.95:
            refuse(ctx, s, IndexError, lambda: q.read(n + r.choice([1, 2, 100])))
            refuse(ctx, s, ValueError, lambda: q.extend(b'abc' if text else 'abc'))
        elif x < 0.97 and EOT not in s.left:
            s.log.append('mark_eof')
            q.mark_eof()
            s.left.append(EOT)
        s.check('queue')
    # What is left comes out, in order.
    while s.left:
        if s.left[0] is EOT or r.random() < 0.3:
            s.unit(s.take(1)[0], q.read_byte(), 'draining')
        else:
            k = s.left.index(EOT) if EOT in s.left else len(s.left)
            k = r.randint(1, k)
            s.compare(s.take(k), q.read(k), 'draining')
        s.check('draining')
    if len(q):
        ctx.fail('the drained queue has length %d' % len(q))
    ctx.distinct(s.log)
    if ctx.wants_sample():
        ctx.sample('; '.join(s.log)[:500])


def refuse(ctx, s, kind, f):
    try:
        got = f()
    except kind:
        ctx.n('refused')
    else:
        ctx.fail('%r instead of %s after %s' % (got, kind.__name__, s.tail()))
    s.check('refused operation')


def code_points(ctx):
    """The accumulator of text."""
    r = ctx.rng
    a = CodePointArray(units(r, r.randint(0, 5), False)) if r.random() < 0.3 else CodePointArray()
    want = a.as_text()
    for _ in range(r.randint(1, 30)):
        x = r.random()
        if x < 0.5:
            c = r.choice([0, 4, 65, 0xe9, 0x2603, 0xffff, 0x10000, 0x10ffff])
            a.append(c)
            want += chr(c)
        elif x < 0.75:
            t = units(r, r.randint(0, 5), True)
            a.extend(t)
            want += t
        else:
            b = units(r, r.randint(0, 5), False)
            a.extend(b)
            want += b.decode('latin-1')
        ctx.n('ops.queue')
        if r.random() < 0.1:
            # Only the end grows.
            k = r.randint(0, max(0, len(want) - 1))
            f = r.choice([lambda: a.insert(k, 65), lambda: a.__setitem__(k, 65), lambda: a.__delitem__(k)])
            try:
                f()
            except ValueError:
                ctx.n('refused')
            else:
                ctx.fail('the text %r is changed in the middle to %r' % (want, a.as_text()))
        if want and [a[i] for i in range(len(want))] != list(want):
            ctx.fail('%r instead of %r' % ([a[i] for i in range(len(want))], want))
        if a.as_text() != want or len(a) != len(want):
            ctx.fail('text %r instead of %r' % (a.as_text(), want))
    s = a.as_symbol()
    if s.text != want or s.sid is not None or s.location is not None:
        ctx.fail('symbol %r instead of %r' % (s, want))
    ctx.distinct(want)


class Tree_(object):
    def __init__(self):
        self.out = [[]]         # pieces of each open container
        self.length = [0]

    def scalar(self, b):
        self.out[-1].append(b)
        self.length[-1] += len(b)

    def start(self):
        self.out.append([])
        self.length.append(0)

    def end(self, b):
        pieces = self.out.pop()
        n = self.length.pop()
        self.out[-1] += [b] + pieces
        self.length[-1] += n + len(b)


def tree(ctx):
    r = ctx.rng
    t = BufferTree()
    log = []
    for _ in range(r.randint(1, 4)):
        m = Tree_()
        deep = r.choice([0.15, 0.3, 0.5, 0.63])
        for _ in range(r.choice([3, 15, 15, 60, 200])):
            ctx.n('ops.tree')
            x = r.random()
            if x < deep and len(m.out) < 140:
                t.start_container()
                m.start()
                log.append('start')
            elif x < 0.65:
                if len(m.out) > 1:
                    if not m.out[-1]:
                        ctx.n('containers.empty')
                    b = piece(r)
                    t.end_container(b)
                    m.end(b)
                    ctx.n('containers')
                    log.append('end %r' % bytes(b))
                else:
                    expect(ctx, ValueError, lambda: t.end_container(b'x'), log)
            elif x < 0.95:
                b = piece(r)
                t.add_scalar_value(b)
                m.scalar(b)
                log.append('scalar %r' % bytes(b))
            elif len(m.out) > 1:
                expect(ctx, ValueError, lambda: list(t.drain()), log)
            if t.current_container_length != m.length[-1]:
                ctx.fail('container length %r instead of %d after %s' % (t.current_container_length, m.length[-1], '; '.join(log[-25:])))
        while len(m.out) > 1:
            b = piece(r)
            t.end_container(b)
            m.end(b)
            ctx.n('containers')
            log.append('end %r' % bytes(b))
            if t.current_container_length != m.length[-1]:
                ctx.fail('container length %r instead of %d after %s' % (t.current_container_length, m.length[-1], '; '.join(log[-25:])))
        got = list(t.drain())
        log.append('drain')
        ctx.n('drains')
        if [bytes(b) for b in got] != [bytes(b) for b in m.out[0]]:
            ctx.fail('drained %r instead of %r after %s' % (got, m.out[0], '; '.join(log[-40:])))
        if t.current_container_length != 0 or list(t.drain()):
            ctx.fail('not empty after a drain: %s' % '; '.join(log[-40:]))
    ctx.distinct(log)
    if ctx.wants_sample():
        ctx.sample('; '.join(log)[:500])


def piece(r):
    b = bytes([r.getrandbits(8) for _ in range(r.choice([0, 1, 1, 2, 5, 20]))])
    return bytearray(b) if r.random() < 0.5 else b


def expect(ctx, kind, f, log):
    try:
        got = f()
    except kind:
        ctx.n('refused')
    else:
        ctx.fail('%r instead of %s after %s' % (got, kind.__name__, '; '.join(log[-25:])))


EXACT = [0, 1, 12, 13, 14, 15, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 8190, 8191, 8192, 8196, 16382, 16383, 16384, 16385, 40000]


def lengths(ctx):
    """Containers whose contents have an exact size, through the real writer and reader."""
    r = ctx.rng
    n = EXACT[ctx.i % len(EXACT)] if r.random() < 0.7 else r.randint(0, 300)
    kids = []
    left = n
    while left > 0:
        # A blob of size m takes 1 + m octets below 14, and 2 + m below 128, and 3 + m below 16384.
        m = min(left, r.choice([1, 2, 3, 14, 15, 64, 129, 130, 131, 20000, left]))
        size = lambda k: k + 1 if k < 14 else k + 2 if k < 128 else k + 3 if k < 16384 else k + 4
        k = m - 1
        while k > 0 and size(k) > m:
            k -= 1
        kids.append(V(BLOB, bytes([7]) * k) if k or r.random() < 0.5 else V(INT, 0))
        left -= size(k)
    v = V(r.choice([LIST, SEXP]), kids)
    if r.random() < 0.4:
        v = V(STRUCT, [('name', c) for c in kids])
    outer = v
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        t = r.choice([LIST, SEXP, STRUCT])
        x = V(INT, 1)
        inner = [outer, x] if r.random() < 0.5 else [x, outer]
        outer = V(t, [('name', c) for c in inner] if t == STRUCT else inner, ('name',) if r.random() < 0.3 else ())
    values = [outer, V(INT, 5)]
    events = []
    for x in values:
        events += to_events(x)
    w = binary_writer()
    data = written(w, events + [ION_STREAM_END_EVENT])
    ctx.n('lengths.exact')
    ctx.max('octets', len(data))
    try:
        found = BinDec(data).decode()
    except (Bad, Unsure) as e:
        ctx.fail('container of %d octets: %s: %s' % (n, e, data.hex()[:300]))
    same(values, found, 'container of %d octets' % n)
    pieces = cut(r, data) if len(data) < 2000 else cut(r, data, 'few')
    tree_, err = read_pieces('binary', pieces)
    if err is not None:
        ctx.fail('container of %d octets, read in pieces of %r: %s' % (n, [len(p) for p in pieces][:30], describe_error(err)))
    same(values, tree_.values, 'container of %d octets, read in pieces' % n)
    ctx.distinct(n, len(pieces), shape(outer)[:200])


FAMILIES = [('queue', queue, 6000), ('code_points', code_points, 800), ('tree', tree, 3000), ('lengths', lengths, 1200)]
