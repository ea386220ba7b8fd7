from amazon.ion.core import ION_STREAM_END_EVENT
from amazon.ion.equivalence import ion_equals
from amazon.ion.simpleion import dump, dumps, load, loads
from .. import grids
from ..common import *

RULE = ('Random values are dumped, loaded, dumped and loaded again through random chains of formats (binary, binary with imports, text, '
        'indented text, files and strings), starting from Python values or from wild legal encodings; after every step the loaded '
        'values must equal the reference, and two dumps of loaded values in the same format must be identical.  Events of readers '
        'are also piped straight into writers, alternating text and binary.  Small domains (as for C01) are gone through completely.  Distinct: different shape of the values and chain.')
ASSUMPTIONS = ['struct fields with unknown text load under the name None, so only symbol zero is used as such a name in load chains',
               'a loaded struct lists the repeated fields of one name next to each other']
MIN = {'grid.ints': 18000, 'grid.points': 15000, 'grid.decimals': 20000, 'grid.offsets': 2000, 'values.struct': 1000, 'values.timestamp': 500, 'values.decimal': 500, 'steps': 8000, 'fixpoints': 3000, 'piped': 1500}
THOROUGH = 20

FORMATS = ['binary', 'text', 'indented', 'binary-file', 'text-file', 'imports', 'bare-text']


def fields_zero(x):
    """Field names without text become symbol zero, the only one a loaded struct can hold."""
    if x.v is None:
        return x
    if x.t in (LIST, SEXP):
        return V(x.t, [fields_zero(c) for c in x.v], x.ann)
    if x.t == STRUCT:
        return V(x.t, [(n if isinstance(n, str) else SYM0, fields_zero(c)) for n, c in x.v], x.ann)
    return x


def dump_as(r, fmt, objs, single, imports=None):
    kw = {}
    if fmt in ('text', 'indented', 'text-file', 'bare-text'):
        kw['binary'] = False
    if fmt == 'indented':
        kw['indent'] = r.choice(['  ', '\t', '', ' '])
    if fmt == 'bare-text':
        kw['omit_version_marker'] = True
    if fmt == 'imports':
        kw['imports'] = imports
    obj = objs[0] if single else (objs if r.random() < 0.7 else tuple(objs))
    if not single:
        kw['sequence_as_stream'] = True
    if fmt.endswith('file'):
        out = BytesIO()
        if r.random() < 0.3:
            out.write(b'abc')
            dump(obj, out, **kw)
            return out.getvalue()[3:]
        dump(obj, out, **kw)
        return out.getvalue()
    return dumps(obj, **kw)


def load_back(r, data, single, catalog):
    # A dumped list that holds one value may be loaded as a single value.
    if isinstance(data, bytes):
        x = r.random()
        if x < 0.4:
            if x < 0.2:
                f = BytesIO(b'junk' + data)
                f.read(4)
            else:
                f = BytesIO(data)
            out = load(f, catalog=catalog, single_value=single)
        else:
            out = loads(data, catalog=catalog, single_value=single)
    else:
        x = r.random()
        if x < 0.4:
            out = load(StringIO(data, newline=''), catalog=catalog, single_value=single)
        elif x < 0.6:
            out = loads(data.encode('utf-8'), catalog=catalog, single_value=single)
        else:
            out = loads(data, catalog=catalog, single_value=single)
    return [out] if single else out


def tables(r, words):
    from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table
    cat = SymbolTableCatalog()
    out = []
    for i in range(r.choice([1, 2])):
        syms = [w for w in words if r.random() < 0.6]
        t = shared_symbol_table('shared%d' % i, r.choice([1, 3]), syms)
        cat.register(t)
        out.append(t)
    return out, cat


def view(v):
    return loaded_view(fields_zero(v))


def chain(ctx, objs, values, r, words, start):
    """objs stand for values; runs them through formats and back."""
    expected = [view(v) for v in values]
    imports, cat = tables(r, words)
    single = len(values) == 1 and r.random() < 0.7
    first = {}
    fmts = [r.choice(FORMATS) for _ in range(r.choice([2, 3, 4]))]
    fmts.append(r.choice(fmts))
    if r.random() < 0.5:
        fmts.append(fmts[0])
    for k, fmt in enumerate(fmts):
        indent_seed = r.getrandbits(30)
        import random
        rr = random.Random(indent_seed if fmt != 'indented' else 1)
        what = '%s, %s' % (start, ' > '.join(fmts[:k + 1]))
        try:
            data = dump_as(rr, fmt, objs, single, imports)
        except Exception as e:
            ctx.fail('%s: dump refuses %s with %s' % (what, ', '.join(show(v) for v in values)[:500], describe_error(e)))
        shown = data.hex() if isinstance(data, bytes) else ascii(data)
        ctx.note('%s: %s' % (what, shown[:2000]))
        try:
            objs = load_back(r, data, single, cat)
        except Exception as e:
            ctx.fail('%s: load refuses what dump made of %s, %s: %s' % (what, ', '.join(show(v) for v in values)[:400], shown[:500], describe_error(e)))
        found = [value_of(o) for o in objs]
        same(expected, found, '%s: %s' % (what, shown[:500]))
        ctx.n('steps')
        if k > 0:
            # From the second step on the dumped values are loaded ones: the same output every time.
            base = {'binary-file': 'binary', 'text-file': 'text'}.get(fmt, fmt)
            flat = data if isinstance(data, bytes) else data.encode('utf-8')
            if base in first:
                if first[base] != flat:
                    ctx.fail('%s: dumping the loaded values gives %r, and %r before' % (what, flat[:400], first[base][:400]))
                ctx.n('fixpoints')
            else:
                first[base] = flat
    return objs


def roundtrip(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([5, 20, 40]), sym0=r.random() < 0.3, deep=0.02)
    values = g.stream()
    native = 0.0 if g.sym0 else r.choice([0.0, 0.5, 1.0])
    objs = [to_mixed(v, r, native) for v in values]
    count_values(ctx, values)
    if values:
        ctx.distinct([shape(v) for v in values], native)
        if ctx.wants_sample():
            ctx.sample(', '.join(show(v) for v in values)[:300])
    out = chain(ctx, objs, values, r, [w for w in g.pool if w], 'from Python')
    # The library's own equality agrees for Ion values with text names.
    if native == 0.0:
        for o, a in zip(objs, out):
            if not ion_equals(o, a):
                ctx.fail('ion_equals denies that %s survived the chain' % show(value_of(a))[:400])
            ctx.n('ion_equals')


def encodings(ctx):
    """The chain starts with a wild legal encoding made by the independent encoder."""
    r = ctx.rng
    g = Gen(r, budget=r.choice([5, 20, 40]), deep=0.02)
    values = g.stream()
    if r.random() < 0.5:
        e = StreamEnc(r, wild=r.choice([0.2, 0.6]), nops=0.05)
        data = e.stream(values)
    else:
        e = TextEnc(r, wild=r.choice([0.2, 0.6]))
        data = e.stream(values).encode('utf-8')
    count_values(ctx, values)
    if values:
        ctx.distinct([shape(v) for v in values], sorted(getattr(e, 'stats', {})))
    ctx.note('start: %r' % data[:3000])
    try:
        objs = loads(data, single_value=False)
    except Exception as e:
        ctx.fail('load refuses %r: %s' % (data[:500], describe_error(e)))
    chain(ctx, objs, values, r, [w for w in g.pool if w], 'from an encoding')


def events_of(kind, data):
    """The raw list of events of a managed reader over all the data."""
    src = BytesIO(data)
    reader = blocking_reader(make_reader(kind), src)
    out = []
    while True:
        e = reader.send(NEXT_EVENT)
        out.append(e)
        if e.event_type is STOP:
            return out
        if len(out) > 10 ** 5:
            raise Violation('no end of stream')


def piping(ctx):
    """Transcoding at event level: what a reader reports goes straight into a writer, several times."""
    r = ctx.rng
    g = Gen(r, budget=r.choice([5, 20, 60]), deep=0.02)
    values = g.stream()
    if r.random() < 0.5:
        kind, data = 'binary', StreamEnc(r, wild=0.3, nops=0.05).stream(values)
    else:
        kind, data = 'text', TextEnc(r, wild=0.4).stream(values).encode('utf-8')
    count_values(ctx, values)
    if values:
        ctx.distinct([shape(v) for v in values], kind)
    seen = {}
    for k in range(r.choice([2, 3, 4])):
        try:
            evs = events_of(kind, data)
        except Violation:
            raise
        except Exception as e:
            ctx.fail('step %d: the %s reader refuses %r: %s' % (k, kind, data[:500], describe_error(e)))
        new = r.choice(['binary', 'text'])
        indent = None
        if new == 'text':
            indent = r.choice([None, None, '  '])
            writer = text_writer(indent=indent)
        else:
            writer = binary_writer()
        try:
            out = written(writer, evs)
        except Violation:
            raise
        except Exception as e:
            ctx.fail('step %d: the %s writer refuses the events of %r: %s' % (k, new, data[:500], describe_error(e)))
        ctx.n('piped')
        ctx.note('%s: %r' % (new, out[:2000]))
        try:
            found = (BinDec(out) if new == 'binary' else TextDec(out.decode('utf-8'))).decode()
        except (Bad, Unsure) as e:
            ctx.fail('step %d: %s output %r of %r is not legal: %s' % (k, new, out[:500], data[:500], e))
        same(values, found, 'step %d: %r written as %r' % (k, data[:400], out[:400]))
        slot = (new, indent)
        if k > 0 and slot in seen and seen[slot] != out:
            ctx.fail('step %d: %r written before as %r' % (k, out[:400], seen[slot][:400]))
        if k > 0:
            seen[slot] = out
        kind, data = new, out
        if kind == 'binary' and not out and values:
            ctx.fail('nothing written')


def grid(ctx):
    """Small domains, completely: Python values to octets and back, then to text and back, or the other way round."""
    r = ctx.rng
    name, values = grids.block(ctx.i, r)
    ctx.n('grid.' + name.split()[0], len(values))
    ctx.distinct(name)
    for v in values:
        Gen.fix_top(None, v)
    values = [grouped(v) for v in values]
    objs = [to_mixed(v, r, r.choice([0.0, 1.0])) for v in values]
    expected = [view(v) for v in values]
    for binary in r.choice([(True, False), (False, True)]):
        data = dumps(objs, binary=binary, sequence_as_stream=True)
        objs = loads(data, single_value=False)
        same(expected, [value_of(o) for o in objs], 'all %s, %s' % (name, 'binary' if binary else 'text'))


FAMILIES = [('grid', grid, 1267), ('roundtrip', roundtrip, 3500), ('encodings', encodings, 2500), ('piping', piping, 2500)]
