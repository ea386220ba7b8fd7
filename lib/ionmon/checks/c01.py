from amazon.ion.simpleion import load, loads
from .. import grids
from ..common import *

RULE = ('Random values are encoded by an independent encoder that picks a random legal encoding for every field (padding, '
        'length forms, NOP pads, float widths, ordered structs, symbol tables), or encodings are mutated and kept when an independent '
        'strict decoder accepts them; the events of the real reader are rebuilt online and compared value by value.  Small domains (integers, decimals, floats of every exponent, offsets, days, times, years, lengths, every code point, symbols of two characters, lobs of two octets) are gone through completely.  Distinct: '
        'different shape of the values (types, sizes, precisions) together with the kinds of encoding used; streams without any '
        'value do not count.')
ASSUMPTIONS = ['lib/ionmon/binref.py states what octets denote according to the Ion 1.0 specification',
               'nesting depth of at most about 100, timestamps whose UTC fields lie in years 1-9999 and offsets only with a time']
MIN = {'grid.ints': 18000, 'grid.points': 15000, 'grid.decimals': 20000, 'grid.offsets': 2000, 'values.struct': 1000, 'values.timestamp': 1000, 'values.decimal': 1000, 'enc.nop': 1000, 'enc.padded-field': 1000,
       'enc.ordered-struct': 100, 'enc.float32': 100, 'octets': 3000, 'mutants.accepted': 500, 'loads': 1000}
THOROUGH = 20


def check(ctx, data, expected, what):
    r = ctx.rng
    ctx.note('octets: ' + data.hex())
    tree, err = read_pieces('binary', [data] if data else [])
    ctx.n('events', tree.events)
    if err is not None:
        ctx.fail('%s: well-formed octets %s refused with %s' % (what, data.hex()[:400], describe_error(err)))
    same(expected, tree.values, '%s: octets %s' % (what, data.hex()[:400]))
    x = r.random()
    if x < 0.25:
        tree, err = read_source('binary', BytesIO(data), buffer_size=r.choice([1, 2, 16, 4096, None]))
        if err is not None:
            ctx.fail('%s: blocking reader refuses octets %s with %s' % (what, data.hex()[:400], describe_error(err)))
        same(expected, tree.values, '%s: blocking reader, octets %s' % (what, data.hex()[:400]))
        ctx.n('blocking')
    elif x < 0.55 and data:
        try:
            if r.random() < 0.5:
                out = loads(data, single_value=False)
            else:
                out = load(BytesIO(data), single_value=False)
        except Exception as e:
            ctx.fail('%s: load refuses octets %s with %s' % (what, data.hex()[:400], describe_error(e)))
        same([loaded_view(v) for v in expected], [value_of(o) for o in out], '%s: load, octets %s' % (what, data.hex()[:400]))
        ctx.n('loads')


def record(ctx, values, stats, data):
    count_values(ctx, values)
    ctx.stats('enc.', stats)
    ctx.max('octets', len(data))
    if values:
        ctx.distinct([shape(v) for v in values], sorted(stats))
        if ctx.wants_sample():
            ctx.sample('%s <- %s' % (', '.join(show(v) for v in values)[:250], data.hex()[:300]))


def stream(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([5, 20, 40, 80]), deep=0.03)
    values = g.stream()
    e = StreamEnc(r, wild=r.choice([0.0, 0.3, 0.6]), nops=r.choice([0, 0.05, 0.2]))
    e.enc.long_nops = r.random() < 0.1
    data = e.stream(values)
    record(ctx, values, e.enc.stats, data)
    check(ctx, data, values, 'stream')


def scalars(ctx):
    r = ctx.rng
    t = r.choice([BOOL, INT, FLOAT, DECIMAL, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB])
    g = Gen(r, types=[t], depth=0, ann=0.02, null=0.03)
    values = g.stream(r.randint(5, 30))
    if t == TIMESTAMP and r.random() < 0.5:
        # Around the turn of a day, month or year in both directions.
        values = [V(TIMESTAMP, ts) for ts in edge_timestamps(r, 20)]
    e = StreamEnc(r, wild=r.choice([0.1, 0.6]), nops=0.02)
    data = e.stream(values)
    record(ctx, values, e.enc.stats, data)
    check(ctx, data, values, 'scalars')


def edge_timestamps(r, n):
    from ..gen import days_in, utc_in_range
    out = []
    while len(out) < n:
        y = r.choice([1, 2, 4, 100, 400, 1900, 1999, 2000, 2001, 2004, 2016, 2100, 9998, 9999])
        mo = r.choice([1, 2, 3, 6, 12])
        d = r.choice([1, days_in(y, mo)])
        h, mi = r.choice([(0, 0), (23, 59), (0, 1), (23, 0), (12, 0)])
        off = r.choice([1, -1, 60, -60, 1439, -1439, 720, -720, r.randint(-1439, 1439)])
        p = r.choice([MINUTE, SECOND])
        s = r.choice([0, 59]) if p == SECOND else 0
        f = (r.choice([0, 1, 999, 10 ** 6 - 1]), r.choice([6, 7, 9])) if p == SECOND and r.random() < 0.5 else None
        ts = (p, y, mo, d, h, mi, s, f, off)
        if utc_in_range(ts):
            out.append(ts)
    return out


def raw(ctx):
    """The unmanaged reader shows symbol IDs and version markers as they stand."""
    r = ctx.rng
    ids = [('sid', n) for n in (0, 1, 4, 9, 10, 11, 127, 128, 255, 256, 300, 16383, 16384, 65535, 65536, 2 ** 21, 2 ** 31)]
    g = Gen(r, budget=30, words=ids, sym0=False, tricky=0)
    g.word = lambda: r.choice(ids)
    strings = Gen(r)
    g.string = strings.string
    values = [g.value() for _ in range(r.randint(1, 5))]
    e = BinEnc(r, lambda s: [s[1]], wild=r.choice([0, 0.3, 0.6]), nops=r.choice([0, 0.1]))
    out = [IVM]
    marks = [0]
    for i, v in enumerate(values):
        out.append(e.value(v))
        if r.random() < 0.1:
            out.append(IVM)
            marks.append(i + 1)
    data = b''.join(out)
    ctx.note('octets: ' + data.hex())
    tree, err = read_pieces('binary', [data], managed=False)
    if err is not None:
        ctx.fail('raw reader refuses octets %s with %s' % (data.hex()[:400], describe_error(err)))
    same(values, tree.values, 'raw reader, octets %s' % data.hex()[:400])
    if tree.log != marks:
        ctx.fail('version markers at %r, reported at %r: octets %s' % (marks, tree.log, data.hex()[:400]))
    record(ctx, values, e.stats, data)


def octet(ctx):
    """Every type octet with bodies of exactly its length."""
    r = ctx.rng
    t = ctx.i % 256
    hn, ln = t >> 4, t & 15
    for attempt in range(12):
        if ln == 15 or (hn == 1) or (hn in (0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13) and ln == 0):
            body = b''
        else:
            n = ln
            prefix = b''
            if ln == 14 or t == 0xd1:
                n = r.choice([0, 1, 2, 3, 8, 13, 14, 15, 127, 128])
                from ..binref import varuint
                prefix = varuint(n, r.choice([0, 0, 1, 2]))
            if hn in (11, 12, 13, 14):
                body = prefix + small_body(r, hn, n)
            elif hn == 6:
                body = prefix + timestamp_body(r, n)
            elif hn == 8:
                body = prefix + bytes([r.randint(0x20, 0x7e) for _ in range(n)])
            else:
                body = prefix + bytes([r.choice([0, 1, 0x7f, 0x80, 0x81, 0xc1, 0xff, r.getrandbits(8)]) for _ in range(n)])
        tail = r.choice([b'', b'\x21\x05', b'\x0f', b'\x00', b'\xe0\x01\x00\xea\x11'])
        data = IVM + bytes([t]) + body + tail
        d = BinDec(data)
        ctx.n('octets')
        try:
            expected = d.decode()
        except Unsure:
            ctx.n('octets.undecided')
            continue
        except Bad:
            ctx.n('octets.bad')
            continue
        ctx.n('octets.accepted')
        if expected:
            ctx.distinct(t, len(body), shape(expected[0]))
        check(ctx, data, expected, 'type octet %02x' % t)


def small_body(r, hn, n):
    """n octets that often form values."""
    out = b''
    if hn == 14:
        if n < 3:
            return bytes([0x81] * n)
        k = r.choice([1, 1, 2])
        out = bytes([0x80 | k]) + bytes([0x80 | r.randint(0, 9) for _ in range(k)])
        left = n - len(out)
        if left <= 0:
            return out[:n]
        if left <= 14:
            return out + bytes([r.choice([2, 8, 9, 10]) << 4 | (left - 1)]) + bytes([r.randint(1, 0x7e) for _ in range(left - 1)])
        from ..binref import varuint
        k = len(varuint(left))
        return (out + b'\x8e' + varuint(left - 1 - k, 0) + b'x' * (left - 1 - len(varuint(left - 1 - k))))[:n]
    while len(out) < n:
        left = n - len(out)
        if hn == 13:
            out += bytes([0x80 | r.randint(0, 9)])
            left -= 1
            if left == 0:
                break
        k = min(left - 1, r.choice([0, 0, 1, 2, 13]))
        out += bytes([r.choice([2, 3, 8, 9, 10, 0, 0]) << 4 | k]) + bytes([r.randint(1, 0x7e) for _ in range(k)])
    return out[:n]


def timestamp_body(r, n):
    fields = [r.choice([0x80, 0xc0, 0xbc, 0xfc, r.getrandbits(8) | 0x80]), 0x0f, 0xd0 | r.randint(0, 15), 0x80 | r.randint(1, 12), 0x80 | r.randint(1, 28),
              0x80 | r.randint(0, 23), 0x80 | r.randint(0, 59), 0x80 | r.randint(0, 59), r.choice([0xc1, 0xc2, 0xc3, 0xc6, 0xc9, 0x80])]
    while len(fields) < n:
        fields.append(r.choice([0, 1, 0x0f]))
    return bytes(fields[:n])


def mutants(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([2, 5, 10]), long_text=0, big=0)
    values = g.stream(r.choice([1, 1, 2]))
    e = StreamEnc(r, wild=0.3, nops=0.1)
    data = e.stream(values)
    for _ in range(6):
        m = IVM + mutate(r, data[4:])
        ctx.n('mutants')
        d = BinDec(m)
        try:
            expected = d.decode()
        except (Bad, Unsure):
            continue
        ctx.n('mutants.accepted')
        if expected:
            ctx.distinct([shape(v) for v in expected], len(m))
        check(ctx, m, expected, 'mutant')


def mixed(r, n, fill, odd):
    """A sequence of n units, mostly the same, with others at the start, at the end or in between."""
    one = r.choice(fill)
    if n < 1 or r.random() < 0.3:
        return one * n
    units = [one] * n
    at = r.choice([0, n - 1, n - 1, n // 2, r.randrange(n)])
    for i in range(at, min(n, at + r.choice([1, 1, 2, 5]))):
        units[i] = r.choice(odd)
    return type(one)().join(units)


def large(ctx):
    """Lengths around the sizes at which length fields and buffers grow."""
    r = ctx.rng
    n = r.choice([13, 14, 127, 128, 8195, 8196, 8197, 16383, 16384, 16385, 2 ** 17, int(2 ** r.uniform(3, 17)), int(2 ** r.uniform(3, 17))]) + r.choice([-1, 0, 0, 1])
    kind = r.choice([STRING, CLOB, BLOB, LIST, SEXP, STRUCT, INT, SYMBOL])
    if kind == STRING:
        v = V(STRING, mixed(r, n, ['a', '\u00e9', '\u2603', '\U0001f600'], ['\0', '\n', ' ', '\ufeff', '\U0010ffff', '\x7f', '"']))
    elif kind == SYMBOL:
        v = V(SYMBOL, mixed(r, n, ['s'], ['\0', '\n', ' ', '\ufeff', '\u00e9', "'"]))
    elif kind in (CLOB, BLOB):
        b = bytes([r.getrandbits(8)])
        v = V(kind, mixed(r, n, [b], [b'\0', b'\n', b' ', b'\xff']))
    elif kind == INT:
        v = V(INT, (1 << min(n, 20000) * 8) - 1)
    else:
        one = r.choice([V(INT, 0), V(BOOL, True), V(STRING, 'xy'), V(NULL), V(INT, 300)])
        v = V(kind, [('name', one)] * n if kind == STRUCT else [one] * n)
    values = [V(INT, 1), v, V(INT, 2)]
    e = StreamEnc(r, wild=0.1, nops=0)
    pads = b''
    if r.random() < 0.3:
        # NOP pads of the same sizes.
        body = (bytes([r.choice([0x2f, 0x0f, 0xe0, 0, r.getrandbits(8)])]) + b'/') * n
        pads = b'\x0e' + e.enc.vu(n) + body[:n]
        values = values[:1] + values[2:] if r.random() < 0.5 else values
    data = e.stream(values) + pads
    if pads:
        data += StreamEnc(r, wild=0.1, nops=0).stream([V(STRING, 'z')])
        values = values + [V(STRING, 'z')]
        ctx.n('pads.large')
    record(ctx, [V(kind, None)], e.enc.stats, data)
    ctx.distinct(kind, n)
    check(ctx, data, values, 'large')


def edges(ctx):
    """Long texts and lobs that begin or end with characters that are often trimmed, or hold one."""
    r = ctx.rng
    n = [14, 128, 1025, 4097, 8197, 16384, 16385, 20000, 32768, 65537][ctx.i % 10] + r.choice([0, 0, 1, 7])
    values = []
    for odd in '\0', '\n', ' ', '\t', '\r', '\ufeff', "'", '"', '\\', '\x7f', '\u2028':
        w = 'a' * (n - 1)
        at = r.randrange(n)
        for s in (w + odd, odd + w, w[:at] + odd + w[at:]):
            t = r.choice([STRING, STRING, SYMBOL, CLOB, BLOB])
            values.append(V(t, s if t in (STRING, SYMBOL) else s.encode('utf-8')))
    ctx.n('edges', len(values))
    ctx.distinct('edges', n)
    check(ctx, StreamEnc(r, wild=0.1, nops=0).stream(values), values, 'edges')


def grid(ctx):
    """Small domains, completely."""
    r = ctx.rng
    name, values = grids.block(ctx.i, r)
    ctx.n('grid.' + name.split()[0], len(values))
    ctx.distinct(name)
    check(ctx, StreamEnc(r, wild=r.choice([0.0, 0.4]), nops=0).stream(values), values, 'all ' + name)


FAMILIES = [('grid', grid, 1267), ('stream', stream, 14000), ('scalars', scalars, 5000), ('raw', raw, 5000), ('octet', octet, 3072),
            ('mutants', mutants, 6000), ('large', large, 128), ('edges', edges, 20)]
