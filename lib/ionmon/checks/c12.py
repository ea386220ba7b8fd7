from amazon.ion.core import ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.simpleion import dump, dumps
from amazon.ion.symbols import SYSTEM_SYMBOL_TABLE, local_symbol_table, shared_symbol_table, substitute_symbol_table
from ..common import *

RULE = ('Random histories of values, flushes, empty flushes and version markers through binary writers with random imported tables '
        '(repeated and shadowed texts, unknown entries, substitutes), with symbols as text, tokens and known IDs.  A monitor on the output '
        'of every single event checks that only a version marker comes out before a flush, cuts the output into segments, and an '
        'independent decoder reads each segment on its own and records its symbol tables and every symbol ID it uses: the imports must be '
        'the given ones, the local symbols exactly the texts the segment needs, once each and none that an import defines, every text '
        'must have the ID that defines it first, and the values must be those of the segment, in order.  Distinct: different history.')
ASSUMPTIONS = ['a symbol given as a bare ID keeps that ID']
MIN = {'many': 40, 'segments': 10000, 'segments.empty': 1500, 'segments.first-symbols': 4000, 'imports.used': 3000, 'locals.declared': 10000, 'pieces.before-flush': 5000, 'markers': 800,
       'without-table': 250, 'dumps': 1500, 'refused.imports': 200}
THOROUGH = 20

WORDS = ['a', 'b', 'c', 'name', 'version', 'symbols', 'imports', 'max_id', '$ion', '$ion_symbol_table', '', ' ', '\u2603', '\U0001f600', '$10', '$0', 'foo', 'bar', 'x', 'y', 'null', 's0', 's1', 's2', 's3']


def make_imports(r):
    """(real tables, names with versions and sizes, reference catalog, table of IDs)."""
    cat = Catalog()
    reals, specs = [], []
    table = Table()
    for i in range(r.choice([0, 1, 1, 2, 3])):
        if specs and r.random() < 0.1:
            k = r.randrange(len(specs))
            reals.append(reals[k])
            specs.append(specs[k])
        else:
            name = 'import%d' % i if r.random() < 0.8 else '\u00e9 %d' % i
            version = r.choice([1, 1, 2, 17, 300])
            texts = [r.choice(WORDS) if r.random() < 0.93 else None for _ in range(r.choice([0, 1, 3, 6, 130]))]
            if r.random() < 0.15:
                full = shared_symbol_table(name, version + 1, texts)
                n = max(0, len(texts) + r.choice([-1, 1, 2]))
                real = substitute_symbol_table(full, version, n)
                texts = (texts + [None] * 3)[:n]
            else:
                real = shared_symbol_table(name, version, texts)
            cat.add(name, version, texts)
            reals.append(real)
            specs.append((name, version, len(texts)))
        table.entries += cat.resolve(*specs[-1])
    return reals, specs, cat, table


def is_system(v):
    return v.t == STRUCT and v.ann[:1] == ('$ion_symbol_table',) or v.t == SYMBOL and v.v == '$ion_1_0' and not v.ann


def explicit(x, out):
    """The symbol IDs a value was written with."""
    for s in symbols_of(x):
        if s[:1] == ('sid',):
            out.add(s[1])


def check_segment(ctx, data, specs, cat, written_, resolved, what):
    ctx.n('segments')
    what = '%s, segment %s' % (what, data.hex()[:500])
    if not data:
        ctx.n('segments.empty')
        if resolved:
            ctx.fail('%s: no output for %d values' % (what, len(resolved)))
        return
    if data[:4] != IVM:
        ctx.fail('%s: a segment does not start with a version marker' % what)
    if not resolved:
        if data != IVM:
            ctx.fail('%s: output of a segment without values' % what)
        ctx.n('segments.empty')
        return
    d = BinDec(data, cat)
    try:
        found = d.decode()
    except (Bad, Unsure) as e:
        ctx.fail('%s: not decodable on its own: %s' % (what, e))
    same(resolved, found, what)
    if [e[0] for e in d.events].count('ivm') != 1:
        ctx.fail('%s: version markers inside a segment' % what)
    if len(d.lsts) > 1 or d.lsts and d.lsts[0][0] != 0:
        ctx.fail('%s: %d symbol tables' % (what, len(d.lsts)))
    needed = []
    seen = set()
    bare = set()
    for v in written_:
        explicit(v, bare)
        for s in symbols_of(v):
            if isinstance(s, str) and s not in seen:
                seen.add(s)
                needed.append(s)
    base = Table()
    for spec in specs:
        base.entries += cat.resolve(*spec)
    known = base.index()
    new = [s for s in needed if s not in known]
    if not d.lsts:
        if specs or new:
            ctx.fail('%s: no symbol table' % what)
        ctx.n('without-table')
        return
    lst = d.lsts[0][1]
    if not specs and not any(True for v in written_ for s in symbols_of(v)):
        ctx.fail('%s: a symbol table without need' % what)
    fields = dict(lst.v)
    if len(fields) != len(lst.v) or not set(fields) <= {'imports', 'symbols'} or len(lst.ann) != 1:
        ctx.fail('%s: symbol table %s' % (what, show(lst)))
    imports = fields.get('imports')
    if specs:
        if imports is None or imports.t != LIST:
            ctx.fail('%s: imports %s' % (what, imports and show(imports)))
        got = []
        for i in imports.v:
            f = dict((n, c.v) for n, c in i.v)
            if sorted(f) != ['max_id', 'name', 'version'] or len(i.v) != 3:
                ctx.fail('%s: import %s' % (what, show(i)))
            got.append((f['name'], f['version'], f['max_id']))
        if got != specs:
            ctx.fail('%s: imports %r instead of %r' % (what, got, specs))
        ctx.n('imports.used')
    elif imports is not None:
        ctx.fail('%s: imports %s without imported tables' % (what, show(imports)))
    symbols = fields.get('symbols')
    texts = []
    if symbols is not None:
        if symbols.t != LIST or any(s.t != STRING or s.v is None or s.ann for s in symbols.v):
            ctx.fail('%s: symbols %s' % (what, show(symbols)))
        texts = [s.v for s in symbols.v]
    if sorted(texts) != sorted(new):
        ctx.fail('%s: local symbols %r, needed: %r' % (what, texts, new))
    ctx.n('locals.declared', len(texts))
    ctx.max('locals', len(texts))
    if texts:
        ctx.n('segments.first-symbols')
    # Every ID used is the first one of its text.
    table, used = d.uses[-1]
    index = table.index()
    for sid in used:
        s = table.lookup(sid)
        if isinstance(s, str) and index[s][0] != sid and sid not in bare:
            ctx.fail('%s: symbol ID %d for %r, which is %r' % (what, sid, s, index[s]))


def histories(ctx):
    r = ctx.rng
    reals, specs, cat, table = make_imports(r)
    imports = reals if reals else r.choice([None, None, [], ()])
    if reals and r.random() < 0.3:
        imports = tuple(reals)
    writer = binary_writer(imports)
    if r.random() < 0.3:
        writer = binary_writer(imports=imports)
    log = []
    segment, values = [], []
    sids = [('sid', n) for n in r.sample(range(1, table.max_id + 1), min(4, table.max_id))] if r.random() < 0.4 else []
    explicit_marker = False
    total = []
    everything = []
    marked = False
    for step in range(r.choice([2, 4, 8, 14])):
        x = r.random()
        if x < 0.3 or step == 0 and r.random() < 0.3:
            evs = [ION_STREAM_END_EVENT]
            kind = 'flush'
        elif x < 0.4:
            if values:
                continue
            evs = [ION_VERSION_MARKER_EVENT]
            kind = 'marker'
            ctx.n('markers')
        else:
            g = Gen(r, budget=r.choice([1, 5, 15, 40]), unknown=sids, long_text=0, big=0, words=r.sample(WORDS, r.randint(1, 8)), tricky=0.05,
                    types=None if r.random() < 0.5 else [SYMBOL, STRUCT, LIST, STRUCT, INT], ann=0.4)
            if r.random() < 0.05:
                g.pool = ['w%d' % i for i in range(150)]
                g.budget = 150
            v = g.value()
            m = resolve_sids(v, table)
            if is_system(m):
                continue
            evs = to_events(v, r)
            kind = 'value'
        ctx.n('events', len(evs))
        for e in evs:
            try:
                got = drive_writer(writer, [e])[0]
            except Violation:
                raise
            except Exception as err:
                ctx.fail('after %s: %r refused: %s' % (log, e, describe_error(err)))
            data = b''.join([p for p, _ in got])
            if kind != 'flush' and data:
                ctx.n('pieces.before-flush')
                if data != IVM or marked:
                    ctx.fail('after %s: output %s before a flush' % (log, data.hex()))
                marked = True
            segment.append(data)
        if kind == 'value':
            log.append(show(v)[:200])
            values.append((v, m))
        else:
            log.append(kind)
        if kind == 'flush':
            out = b''.join(segment)
            ctx.note('segment %s of %s' % (out.hex()[:2000], log))
            check_segment(ctx, out, specs, cat, [v for v, _ in values], [m for _, m in values], 'imports %r, history %s' % (specs, ' | '.join(log)[-600:]))
            if not marked and out:
                ctx.fail('after %s: output %s' % (log, out.hex()[:300]))
            total.append(out)
            everything += [m for _, m in values]
            segment, values = [], []
            marked = False
    ctx.distinct(log)
    whole = b''.join(total)
    if whole:
        try:
            same(everything, BinDec(whole, cat).decode(), 'all segments of %s' % ' | '.join(log)[-600:])
        except (Bad, Unsure) as e:
            ctx.fail('all segments of %s: %s' % (' | '.join(log)[-600:], e))
    if ctx.wants_sample():
        ctx.sample('imports %r: %s -> %s' % (specs, ' | '.join(log)[:250], whole.hex()[:200]))


def dumping(ctx):
    """dump and dumps write segments of their own."""
    r = ctx.rng
    reals, specs, cat, table = make_imports(r)
    out = BytesIO()
    last = 0
    everything = []
    log = []
    for _ in range(r.choice([1, 2, 3])):
        g = Gen(r, budget=r.choice([5, 20]), sym0=False, long_text=0, big=0, words=r.sample(WORDS, r.randint(1, 8)), tricky=0.05, ann=0.4)
        values = [v for v in g.stream(r.choice([0, 1, 1, 2, 3])) if not is_system(v)]
        objs = [to_mixed(v, r, 0.4) for v in values]
        expected = [grouped(v) for v in values]
        log.append(', '.join(show(v) for v in values)[:200])
        try:
            if len(objs) == 1 and r.random() < 0.6:
                dump(objs[0], out, imports=reals or None)
            elif r.random() < 0.3:
                out.write(dumps(objs, imports=reals or None, sequence_as_stream=True))
            else:
                dump(objs, out, imports=reals or None, sequence_as_stream=True)
        except Exception as e:
            ctx.fail('dump of %s: %s' % (log, describe_error(e)))
        data = out.getvalue()[last:]
        last = len(out.getvalue())
        ctx.n('dumps')
        ctx.note('dumped %s of %s' % (data.hex()[:2000], log))
        if data[:4] != IVM and data:
            ctx.fail('dump of %s: %s' % (log, data.hex()[:300]))
        check_segment(ctx, data, specs, cat, expected, expected, 'dump, imports %r, %s' % (specs, ' | '.join(log)[-600:]))
        everything += expected
    ctx.distinct(log, specs)
    if out.getvalue():
        try:
            same(everything, BinDec(out.getvalue(), cat).decode(), 'all dumps %s' % log)
        except (Bad, Unsure) as e:
            ctx.fail('all dumps %s: %s' % (log, e))


def many(ctx):
    """Segments with many different symbols, each used several times."""
    r = ctx.rng
    reals, specs, cat, table = make_imports(r)
    n = int(2 ** r.uniform(4, 12))
    kind = r.randrange(3)
    texts = ['s%d' % i if kind == 0 else chr(0x4e00 + i) if kind == 1 else chr(0x21 + i % 90) * (1 + i // 90 % 50) for i in range(n)]
    picks = texts + [r.choice(texts) for _ in range(n // 2)]
    r.shuffle(picks)
    values = []
    i = 0
    while i < len(picks):
        k = r.choice([1, 1, 2, 30])
        part = picks[i:i + k]
        x = r.random()
        if x < 0.3:
            values.append(V(STRUCT, [(t, V(INT, 1)) for t in part]))
        elif x < 0.6:
            values.append(V(INT, 1, tuple(part)))
        else:
            values.append(V(LIST, [V(SYMBOL, t) for t in part]))
        i += k
    values = [v for v in values if not is_system(v)]
    objs = [to_ion(v, r) for v in values]
    what = '%d symbols, imports %r' % (n, specs)
    try:
        data = dumps(objs, imports=reals or None, sequence_as_stream=True)
    except Exception as e:
        ctx.fail('dump of %s: %s' % (what, describe_error(e)))
    expected = [grouped(v) for v in values]
    ctx.n('many')
    check_segment(ctx, data, specs, cat, expected, expected, what)
    ctx.distinct(what, kind)


def wrong_imports(ctx):
    """Only shared tables can be imported."""
    r = ctx.rng
    good = shared_symbol_table('t', 1, ['a'])
    bad = r.choice([local_symbol_table(), SYSTEM_SYMBOL_TABLE, local_symbol_table(symbols=['a', 'b'])])
    tables = [bad] + [good] * r.choice([0, 1, 2])
    r.shuffle(tables)
    g = Gen(r, budget=4)
    v = g.value(top=True)
    try:
        data = written(binary_writer(tables), to_events(v) + [ION_STREAM_END_EVENT])
    except Violation:
        raise
    except Exception as e:
        ctx.n('refused.imports')
        return
    ctx.fail('a table that is not shared is imported: %s' % data.hex()[:200])


FAMILIES = [('histories', histories, 6500), ('dumping', dumping, 1500), ('many', many, 60), ('wrong-imports', wrong_imports, 300)]
