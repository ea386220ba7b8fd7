from amazon.ion.core import ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.simpleion import dump, dumps
from amazon.ion.symbols import shared_symbol_table
from .. import grids
from ..common import *

RULE = ('Random values are written with the binary writer at event level (several segments, with and without imported tables, symbols '
        'given as text, tokens and known symbol IDs) and with dump and dumps (Ion values and native values mixed); a strict independent '
        'decoder must decode the bytes to exactly what was written.  Small domains (integers, decimals, floats of every exponent, offsets, days, times, years, lengths, every code point, symbols of two characters, lobs of two octets) are gone through completely.  Distinct: different shape of the values and way of writing; '
        'empty outputs do not count.')
ASSUMPTIONS = ['lib/ionmon/binref.py states what octets denote according to the Ion 1.0 specification',
               'structs written with dump come out with the repeated fields of one name next to each other, as items() lists them']
MIN = {'grid.ints': 18000, 'grid.points': 15000, 'grid.decimals': 20000, 'grid.offsets': 2000, 'values.struct': 1000, 'values.timestamp': 1000, 'values.decimal': 1000, 'events': 20000, 'dumps': 2000, 'segments': 3000,
       'imports': 500, 'values.annotated': 2000, 'large': 40}
THOROUGH = 20


def judge(ctx, data, expected, what, catalog=None):
    """The bytes must be a strictly legal stream of exactly the expected values."""
    ctx.note('written: ' + data.hex()[:3000])
    d = BinDec(data, catalog)
    if data[:4] != IVM:
        ctx.fail('%s: the output does not start with a version marker: %s' % (what, data.hex()[:100]))
    try:
        found = d.decode()
    except Bad as e:
        ctx.fail('%s: illegal output (%s) for %s: %s' % (what, e, ', '.join(show(v) for v in expected)[:400], data.hex()[:600]))
    except Unsure as e:
        ctx.fail('%s: doubtful output (%s) for %s: %s' % (what, e, ', '.join(show(v) for v in expected)[:400], data.hex()[:600]))
    same(expected, found, '%s, octets %s' % (what, data.hex()[:600]))
    return d


def tables(r):
    """Shared tables to import, and the reference catalog that holds them."""
    from ..gen import ASCII_WORDS
    cat = Catalog()
    out = []
    for i in range(r.choice([1, 1, 2, 3])):
        name = 'table%d' % i
        version = r.choice([1, 1, 2, 17])
        syms = [r.choice(ASCII_WORDS + ['sym%d' % k for k in range(30)]) for _ in range(r.choice([0, 1, 3, 10, 130]))]
        seen, uniq = set(), []
        for s in syms:
            if s not in seen:
                seen.add(s)
                uniq.append(s)
        cat.add(name, version, uniq)
        out.append(shared_symbol_table(name, version, uniq))
    return out, cat


def top_table(cat, imports):
    """What a symbol ID means under the imports."""
    t = Table()
    for i in imports or ():
        t.entries += cat.resolve(i.name, i.version, i.max_id)
    return t


def events(ctx):
    r = ctx.rng
    imports, cat = tables(r) if r.random() < 0.3 else (None, None)
    table = top_table(cat, imports)
    if imports:
        ctx.n('imports')
    sids = [('sid', n) for n in r.sample(range(1, table.max_id + 1), min(4, table.max_id))] if r.random() < 0.5 else []
    writer = binary_writer(imports)
    out = []
    expected = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        g = Gen(r, budget=r.choice([5, 20, 40, 80]), unknown=sids, deep=0.03)
        values = g.stream()
        evs = []
        if r.random() < 0.2:
            evs.append(ION_VERSION_MARKER_EVENT)
        for v in values:
            resolved = resolve_sids(v, table)
            if is_system(resolved):
                continue
            expected.append(resolved)
            evs += to_events(v, r)
        evs.append(ION_STREAM_END_EVENT)
        ctx.n('events', len(evs))
        try:
            out.append(written(writer, evs))
        except Violation:
            raise
        except Exception as e:
            ctx.fail('binary writer refuses %s with %s' % (', '.join(show(v) for v in expected)[:500], describe_error(e)))
        ctx.n('segments')
    data = b''.join(out)
    count_values(ctx, expected)
    if not data:
        if expected:
            ctx.fail('no output for %s' % ', '.join(show(v) for v in expected)[:500])
        return
    if expected:
        ctx.distinct([shape(v) for v in expected], bool(imports), len(out))
        if ctx.wants_sample():
            ctx.sample('%s -> %s' % (', '.join(show(v) for v in expected)[:250], data.hex()[:300]))
    judge(ctx, data, expected, 'binary writer', cat)


def is_system(v):
    return v.t == STRUCT and v.ann[:1] == ('$ion_symbol_table',) or v.t == SYMBOL and v.v == '$ion_1_0' and not v.ann


def dumping(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([5, 20, 40]), sym0=False, deep=0.02)
    values = g.stream()
    native = r.choice([0.0, 0.5, 1.0])
    expected = [grouped(v) for v in values]
    imports, cat = tables(r) if r.random() < 0.15 else (None, None)
    objs = [to_mixed(v, r, native) for v in values]
    count_values(ctx, values)
    try:
        if len(objs) == 1 and r.random() < 0.8:
            data = dumps(objs[0], imports=imports) if r.random() < 0.5 else dump_to(objs[0], imports=imports)
        else:
            seq = objs if r.random() < 0.7 else tuple(objs)
            data = dumps(seq, imports=imports, sequence_as_stream=True) if r.random() < 0.5 else \
                dump_to(seq, imports=imports, sequence_as_stream=True, binary=True)
    except Violation:
        raise
    except Exception as e:
        ctx.fail('dump refuses %s with %s' % (', '.join(show(v) for v in values)[:500], describe_error(e)))
    if not isinstance(data, bytes):
        ctx.fail('dumps returned %s' % type(data).__name__)
    ctx.n('dumps')
    if values:
        ctx.distinct([shape(v) for v in values], native)
    judge(ctx, data, expected, 'dump', cat)


def dump_to(obj, **kw):
    out = BytesIO()
    dump(obj, out, **kw)
    return out.getvalue()


def scalars(ctx):
    """Many values of one type, with its boundary cases, in one stream."""
    r = ctx.rng
    t = r.choice([BOOL, INT, FLOAT, DECIMAL, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB])
    g = Gen(r, types=[t], depth=0, ann=0.02, null=0.02, tricky=0.5)
    values = g.stream(r.randint(5, 30))
    if t == TIMESTAMP and r.random() < 0.5:
        from .c01 import edge_timestamps
        values = [V(TIMESTAMP, ts) for ts in edge_timestamps(r, 15)]
    writer = binary_writer()
    evs = []
    for v in values:
        evs += to_events(v, r)
    evs.append(ION_STREAM_END_EVENT)
    ctx.n('events', len(evs))
    count_values(ctx, values)
    ctx.distinct([shape(v) for v in values])
    try:
        data = written(writer, evs)
    except Violation:
        raise
    except Exception as e:
        ctx.fail('binary writer refuses %s with %s' % (', '.join(show(v) for v in values)[:500], describe_error(e)))
    judge(ctx, data, values, 'binary writer')


SIZES = [12, 13, 14, 125, 126, 127, 128, 129, 130, 16380, 16381, 16382, 16383, 16384, 16385]


def large(ctx):
    """Lengths and symbol IDs around the sizes at which length fields grow, nested and annotated."""
    r = ctx.rng
    n = r.choice(SIZES[:9] * 4 + SIZES)
    if r.random() < 0.02:
        n = 2 ** 21 + r.choice([-2, -1, 0, 1])
    kind = r.choice([STRING, CLOB, BLOB, LIST, SEXP, STRUCT, INT, SYMBOL, DECIMAL, 'symbols', 'annotations', 'nested', 'nested'])
    if kind == STRING:
        c = r.choice(['a', '\u00e9', '\u2603', '\U0001f600'])
        v = V(STRING, c * (n // len(c.encode())) + 'x' * (n % len(c.encode())))
    elif kind == SYMBOL:
        v = V(SYMBOL, 's' * min(n, 20000))
    elif kind in (CLOB, BLOB):
        v = V(kind, bytes([r.getrandbits(8)]) * n)
    elif kind == INT:
        n = min(n, 20000)
        v = V(INT, r.choice([(1 << n * 8) - 1, 1 << (n * 8 - 1), 1 << (n * 8), -((1 << n * 8) - 1)]))
    elif kind == DECIMAL:
        n = min(n, 1700)
        v = V(DECIMAL, (r.random() < 0.5, r.choice([(1 << n * 8 - 1) - 1, 1 << (n * 8 - 1), (1 << n * 8) - 1]), r.choice([0, -1, 63, 64, -64, 10000])))
    elif kind == 'symbols':
        # Enough local symbols for symbol IDs to take another octet.
        n = r.choice([100, 116, 117, 118, 119, 120, 245, 246, 247, 248, 250] + [16373, 16374, 16375, 16376] * (r.random() < 0.3))
        names = ['s%d' % i for i in range(n)]
        v = V(r.choice([LIST, SEXP]), [V(SYMBOL, s) for s in names])
        if r.random() < 0.3:
            v = V(STRUCT, [(s, V(BOOL, True)) for s in names])
        tail = names[-3:]
        v = V(LIST, [v, V(INT, 1, tail), V(STRUCT, [(s, V(SYMBOL, s, tail[:1])) for s in tail])])
    elif kind == 'annotations':
        n = min(n, 16390)
        names = [r.choice(['a', 'b', 'name', 'c']) for _ in range(n)]
        v = V(r.choice([INT, LIST]), None, names)
    elif kind == 'nested':
        n = min(n, 20000)
        k = r.randint(1, 12)
        v = V(BLOB, b'x' * max(0, n - k * r.choice([1, 2, 3])))
        for _ in range(k):
            t = r.choice([LIST, SEXP, STRUCT])
            ann = [r.choice(['a', 'b'])] if r.random() < 0.3 else ()
            v = V(t, [('f', v)] if t == STRUCT else [v], ann)
    else:
        n = min(n, 20000)
        one = r.choice([V(INT, 0), V(BOOL, True), V(STRING, 'xy'), V(NULL), V(INT, 300)])
        v = V(kind, [('name', one)] * n if kind == STRUCT else [one] * n)
    if r.random() < 0.3 and not v.ann:
        v = V(v.t, v.v, ['ann%d' % i for i in range(r.choice([1, 2, 13, 127, 128]))])
    values = [V(INT, 1), v, V(SYMBOL, 'after')]
    evs = []
    for x in values:
        evs += to_events(x)
    evs.append(ION_STREAM_END_EVENT)
    data = written(binary_writer(), evs)
    ctx.n('large')
    ctx.max('octets', len(data))
    ctx.distinct(str(kind), n)
    judge(ctx, data, values, 'binary writer, large ' + str(kind))


def grid(ctx):
    """Small domains, completely."""
    r = ctx.rng
    name, values = grids.block(ctx.i, r)
    ctx.n('grid.' + name.split()[0], len(values))
    ctx.distinct(name)
    if r.random() < 0.4:
        values = [V(r.choice([LIST, SEXP]), values)]
    evs = []
    for v in values:
        evs += to_events(v, r)
    evs.append(ION_STREAM_END_EVENT)
    judge(ctx, written(binary_writer(), evs), values, 'binary writer, all ' + name)


FAMILIES = [('grid', grid, 1267), ('events', events, 9000), ('dumping', dumping, 7000), ('scalars', scalars, 5000), ('large', large, 1600)]
