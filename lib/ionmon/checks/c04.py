from amazon.ion.core import ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.simpleion import dump, dumps
from .. import grids
from ..common import *

RULE = ('Random values are written with the text writer at event level and with dump and dumps (Ion and native values mixed), under random '
        'indentation; a strict independent parser must read exactly what was written, and the indented output must differ from the '
        'compact one in whitespace between tokens only, with every member on a line of its own at its depth.  Small domains (integers, decimals, floats of every exponent, offsets, days, times, years, lengths, every code point, symbols of two characters, lobs of two octets) are gone through completely.  Distinct: different '
        'shape of the values and way of writing; empty outputs do not count.')
ASSUMPTIONS = ['lib/ionmon/textref.py states what characters denote according to the Ion 1.0 specification',
               'a top-level unannotated symbol $ion_1_0 and a top-level struct annotated $ion_symbol_table are system data and left out']
MIN = {'grid.ints': 18000, 'grid.points': 15000, 'grid.decimals': 20000, 'grid.offsets': 2000, 'values.struct': 1000, 'values.timestamp': 1000, 'values.decimal': 1000, 'events': 20000, 'dumps': 2000, 'indented': 3000,
       'values.annotated': 2000, 'code points': 20000}
THOROUGH = 20

INDENTS = ['', ' ', '  ', '    ', '\t', ' \t', '\n', '\r\n', '\x0b', '\x0c', '\t\t ']


def tokens(text):
    """The text cut at whitespace between tokens: quoted text stays whole, punctuation stands alone."""
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c in ' \t\n\r\x0b\x0c':
            i += 1
            continue
        if c in '"\'':
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == '\\' else 1
            out.append(text[i:j + 1])
            i = j + 1
            continue
        if c in '{}[](),:':
            out.append(c)
            i += 1
            continue
        j = i
        while j < n and text[j] not in ' \t\n\r\x0b\x0c"\'{}[](),:':
            j += 1
        out.append(text[i:j])
        i = j
    return out


def judge(ctx, text, expected, what):
    ctx.note('written: ' + ascii(text)[:3000])
    try:
        found = TextDec(text).decode()
    except Bad as e:
        ctx.fail('%s: illegal output (%s) for %s: %s' % (what, e, ', '.join(show(v) for v in expected)[:400], ascii(text)[:600]))
    except Unsure as e:
        ctx.fail('%s: doubtful output (%s) for %s: %s' % (what, e, ', '.join(show(v) for v in expected)[:400], ascii(text)[:600]))
    same(expected, found, '%s, text %s' % (what, ascii(text)[:600]))


def layout(ctx, compact, pretty, indent):
    """Indentation changes whitespace only, and puts each member on a line of its own at its depth."""
    if '\n' in compact or '\r' in compact:
        ctx.fail('line breaks in compact output %s' % ascii(compact)[:400])
    if tokens(compact) != tokens(pretty):
        ctx.fail('indentation %r changes more than whitespace: %s and %s' % (indent, ascii(compact)[:400], ascii(pretty)[:400]))
    if indent.strip(' \t'):
        return
    depth = 0
    for line in pretty.split('\n'):
        body = line.lstrip(' \t')
        toks = tokens(body)
        here = depth
        for k, t in enumerate(toks):
            if t in '{[(' and len(t) == 1:
                depth += 1
            elif t in '}])' and len(t) == 1:
                depth -= 1
        if toks and toks[0] in ('}', ']', ')') and '{{' not in body:
            here -= 1
        if body and line[:len(line) - len(body)] != indent * here:
            ctx.fail('indentation %r, depth %d: line %s of %s' % (indent, here, ascii(line)[:200], ascii(pretty)[:400]))
        if '{{' not in body and len([t for t in toks if t == ',']) > (1 if toks[-1:] == [','] else 0):
            ctx.fail('indentation %r: several members in line %s of %s' % (indent, ascii(line)[:200], ascii(pretty)[:400]))
    ctx.n('indented')


def write(evs, indent):
    return written(text_writer(indent=indent), evs).decode('utf-8')


def events(ctx):
    r = ctx.rng
    sids = [('sid', n) for n in r.sample(range(1, 10), 3)] if r.random() < 0.3 else []
    g = Gen(r, budget=r.choice([5, 20, 40, 80]), unknown=sids, deep=0.03)
    table = Table()
    evs, expected = [], []
    if r.random() < 0.3:
        evs.append(ION_VERSION_MARKER_EVENT)
    for v in g.stream():
        x = resolve_sids(v, table)
        if x.t == STRUCT and x.ann[:1] == ('$ion_symbol_table',) or x.t == SYMBOL and x.v == '$ion_1_0' and not x.ann:
            continue
        expected.append(x)
        evs += to_events(v, r)
        if r.random() < 0.05:
            evs.append(r.choice([ION_VERSION_MARKER_EVENT, ION_STREAM_END_EVENT]))
    evs.append(ION_STREAM_END_EVENT)
    ctx.n('events', len(evs))
    count_values(ctx, expected)
    try:
        text = write(evs, None)
    except Violation:
        raise
    except Exception as e:
        ctx.fail('text writer refuses %s with %s' % (', '.join(show(v) for v in expected)[:500], describe_error(e)))
    if expected:
        ctx.distinct([shape(v) for v in expected])
        if ctx.wants_sample():
            ctx.sample('%s -> %s' % (', '.join(show(v) for v in expected)[:250], ascii(text)[:300]))
    judge(ctx, text, expected, 'text writer')
    if r.random() < 0.6:
        indent = r.choice(INDENTS)
        pretty = write(evs, indent)
        judge(ctx, pretty, expected, 'text writer, indentation %r' % indent)
        layout(ctx, text, pretty, indent)


def dumping(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([5, 20, 40]), sym0=False, deep=0.02)
    values = g.stream()
    native = r.choice([0.0, 0.5, 1.0])
    expected = [grouped(v) for v in values]
    objs = [to_mixed(v, r, native) for v in values]
    count_values(ctx, values)
    indent = r.choice(INDENTS) if r.random() < 0.4 else None
    omit = r.random() < 0.4
    seq = len(objs) != 1 or r.random() < 0.2

    def run(indent):
        kw = {'binary': False, 'indent': indent}
        if omit:
            kw['omit_version_marker'] = True
        if seq:
            kw['sequence_as_stream'] = True
        obj = objs if seq else objs[0]
        if r.random() < 0.5:
            out = dumps(obj, **kw)
            if not isinstance(out, str):
                ctx.fail('dumps returned %s' % type(out).__name__)
            return out
        fp = BytesIO()
        dump(obj, fp, **kw)
        return fp.getvalue().decode('utf-8')
    try:
        text = run(indent)
    except Violation:
        raise
    except Exception as e:
        ctx.fail('dump refuses %s with %s' % (', '.join(show(v) for v in values)[:500], describe_error(e)))
    ctx.n('dumps')
    if values:
        ctx.distinct([shape(v) for v in values], native, indent)
    if text.startswith('$ion_1_0') == omit and not (omit and values and values[0].t == SYMBOL):
        ctx.fail('version marker with omit_version_marker=%r: %s' % (omit, ascii(text)[:200]))
    judge(ctx, text, expected, 'dump')
    if indent is not None:
        layout(ctx, run(None), text, indent)


def points(ctx):
    """Every code point region in every place that takes text."""
    r = ctx.rng
    texts = []
    base = [0, 0x20, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]
    for _ in range(12):
        x = r.random()
        if x < 0.4:
            cs = [r.randint(0, 0x17f) for _ in range(r.randint(1, 4))]
        elif x < 0.6:
            cs = [min(0x10ffff, max(0, r.choice(base) + r.randint(-1, 1))) for _ in range(2)]
        else:
            cs = [r.choice([r.randint(0, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff), ord(r.choice('nx0uU"\'\\$_:{}a1')), 10, 13, 0x85, 0x2028])
                  for _ in range(r.randint(1, 5))]
        cs = [c if not 0xd800 <= c < 0xe000 else 0xd7ff for c in cs]
        texts.append(''.join(map(chr, cs)))
        ctx.n('code points', len(cs))
    kids = []
    for s in texts:
        kids.append((s, V(r.choice([STRING, SYMBOL]), s, [s] if r.random() < 0.5 else ())))
    v = V(r.choice([LIST, SEXP]), [V(STRUCT, kids), V(CLOB, bytes([r.getrandbits(8) for _ in range(20)])), V(CLOB, bytes([ctx.i % 256]) * 2)])
    top = [V(SYMBOL, s, [s] if r.random() < 0.5 else ()) for s in texts]
    for x in top:
        Gen.fix_top(None, x)
    values = [v] + top
    count_values(ctx, values)
    ctx.distinct(texts)
    evs = []
    for x in values:
        evs += to_events(x, r)
    evs.append(ION_STREAM_END_EVENT)
    text = write(evs, None)
    judge(ctx, text, values, 'text writer')
    if r.random() < 0.3:
        indent = r.choice(INDENTS)
        pretty = write(evs, indent)
        judge(ctx, pretty, values, 'text writer, indentation %r' % indent)
        layout(ctx, text, pretty, indent)


def scalars(ctx):
    r = ctx.rng
    t = r.choice([BOOL, INT, FLOAT, FLOAT, DECIMAL, DECIMAL, TIMESTAMP, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB])
    g = Gen(r, types=[t], depth=0, ann=0.02, null=0.02, tricky=0.5)
    values = g.stream(r.randint(5, 30))
    if t == TIMESTAMP and r.random() < 0.5:
        from .c01 import edge_timestamps
        values = [V(TIMESTAMP, ts) for ts in edge_timestamps(r, 15)]
    if r.random() < 0.5:
        values = [V(r.choice([LIST, SEXP]), values)]
    evs = []
    for v in values:
        g.fix_top(v)
        evs += to_events(v, r)
    evs.append(ION_STREAM_END_EVENT)
    ctx.n('events', len(evs))
    count_values(ctx, values)
    ctx.distinct([shape(v) for v in values])
    try:
        text = write(evs, r.choice([None, None, ' ']))
    except Violation:
        raise
    except Exception as e:
        ctx.fail('text writer refuses %s with %s' % (', '.join(show(v) for v in values)[:500], describe_error(e)))
    judge(ctx, text, values, 'text writer')


def grid(ctx):
    """Small domains, completely."""
    r = ctx.rng
    name, values = grids.block(ctx.i, r)
    ctx.n('grid.' + name.split()[0], len(values))
    ctx.distinct(name)
    for v in values:
        Gen.fix_top(None, v)
    if r.random() < 0.4:
        values = [V(r.choice([LIST, SEXP]), values)]
    evs = []
    for v in values:
        evs += to_events(v, r)
    evs.append(ION_STREAM_END_EVENT)
    judge(ctx, write(evs, r.choice([None, None, '', ' '])), values, 'text writer, all ' + name)


FAMILIES = [('grid', grid, 1267), ('events', events, 6000), ('dumping', dumping, 5000), ('points', points, 4000), ('scalars', scalars, 4000)]
