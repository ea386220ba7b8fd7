from amazon.ion.simpleion import load, loads
from .. import grids
from ..common import *

RULE = ('Random values are written by an independent encoder that picks a random legal notation for every token (radix, underscores, '
        'exponent forms, escapes, long and concatenated strings, quoted, unquoted and operator symbols, symbol IDs, whitespace and '
        'comments), or such texts are edited and kept when an independent strict parser accepts them; the events of the real reader, '
        'over text and over its UTF-8 bytes, are rebuilt online and compared value by value.  Small domains (integers, decimals, floats of every exponent, offsets, days, times, years, lengths, every code point, symbols of two characters, lobs of two octets) are gone through completely.  Distinct: different shape of the values '
        'together with the kinds of notation used; texts without any value do not count.')
ASSUMPTIONS = ['lib/ionmon/textref.py states what characters denote according to the Ion 1.0 specification',
               'no byte order mark, surrogate escapes only in pairs of four digits; a number is not directly followed by a comment or operator; nesting depth of at '
               'most about 100']
MIN = {'grid.ints': 18000, 'grid.points': 15000, 'grid.decimals': 20000, 'grid.offsets': 2000, 'values.struct': 1000, 'values.timestamp': 500, 'values.decimal': 500, 'enc.comment': 1000, 'enc.long-string': 500,
       'enc.concatenated': 300, 'enc.hex': 100, 'enc.binary-int': 100, 'enc.underscore': 300, 'enc.operator': 50, 'operators.long': 300,
       'enc.symbol-id': 200, 'enc.operator-after-keyword': 200, 'tokens.accepted': 3000, 'pairs.accepted': 4000, 'mutants.accepted': 500, 'loads': 1000}
THOROUGH = 20


def check(ctx, text, expected, what, catalog=None):
    r = ctx.rng
    ctx.note('text: ' + ascii(text))
    for kind, data in (('unicode', text), ('text', text.encode('utf-8'))):
        tree, err = read_pieces(kind, [data] if data else [])
        ctx.n('events', tree.events)
        if err is not None:
            ctx.fail('%s (%s): well-formed text %s refused with %s' % (what, kind, ascii(text)[:500], describe_error(err)))
        same(expected, tree.values, '%s (%s): text %s' % (what, kind, ascii(text)[:500]))
    x = r.random()
    if x < 0.15:
        kind = r.choice(['unicode', 'text'])
        src = StringIO(text, newline='') if kind == 'unicode' else BytesIO(text.encode('utf-8'))
        tree, err = read_source(kind, src, buffer_size=r.choice([1, 2, 16, 4096, None]))
        if err is not None:
            ctx.fail('%s: blocking reader refuses text %s with %s' % (what, ascii(text)[:500], describe_error(err)))
        same(expected, tree.values, '%s: blocking reader, text %s' % (what, ascii(text)[:500]))
        ctx.n('blocking')
    elif x < 0.35:
        # load needs to see from the first octets that it is text
        try:
            if r.random() < 0.5:
                out = loads(text if r.random() < 0.5 and '\r' not in text else text.encode('utf-8'), single_value=False)
            else:
                out = load(BytesIO(text.encode('utf-8')), single_value=False)
        except Exception as e:
            ctx.fail('%s: load refuses text %s with %s' % (what, ascii(text)[:500], describe_error(e)))
        same([loaded_view(v) for v in expected], [value_of(o) for o in out], '%s: load, text %s' % (what, ascii(text)[:500]))
        ctx.n('loads')


def record(ctx, values, stats, text):
    count_values(ctx, values)
    ctx.stats('enc.', stats)
    ctx.max('characters', len(text))
    if values:
        ctx.distinct([shape(v) for v in values], sorted(stats))
        if ctx.wants_sample():
            ctx.sample('%s <- %s' % (', '.join(show(v) for v in values)[:250], ascii(text)[:300]))


def stream(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([3, 10, 25, 60]), deep=0.03)
    values = g.stream()
    e = TextEnc(r, wild=r.choice([0.0, 0.3, 0.6]))
    text = e.stream(values)
    record(ctx, values, e.stats, text)
    check(ctx, text, values, 'stream')


def scalars(ctx):
    r = ctx.rng
    t = r.choice([BOOL, INT, FLOAT, DECIMAL, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB])
    g = Gen(r, types=[t], depth=0, ann=0.02, null=0.03, tricky=0.5)
    values = g.stream(r.randint(4, 20))
    if t in (STRING, SYMBOL) and r.random() < 0.4:
        # every code point region, raw and escaped
        values = [V(t, ''.join([chr(c) for c in r.sample(CODES, r.randint(1, 6))])) for _ in range(8)]
    if t == SYMBOL:
        for v in values:
            g.fix_top(v)
    if r.random() < 0.4:
        values = [V(r.choice([LIST, SEXP]), values)]
    e = TextEnc(r, wild=r.choice([0.1, 0.7]))
    text = e.stream(values)
    record(ctx, values, e.stats, text)
    check(ctx, text, values, 'scalars')


CODES = ([c for c in range(0x0, 0x180)] + [0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff])


def sexps(ctx):
    """Operators, adjacent tokens and comments in s-expressions."""
    from ..gen import OPERATORS
    r = ctx.rng
    g = Gen(r, budget=12, types=[SYMBOL, SYMBOL, SYMBOL, INT, STRING, FLOAT, NULL, BOOL, SEXP], words=OPERATORS + ['a', 'inf', 'n', ''], sym0=False)
    g.pool = OPERATORS + ['a', 'inf', 'nan', '']
    if r.random() < 0.3:
        # Operators of any length, the numbers of characters spread over orders of magnitude.
        g.pool += [''.join([r.choice('!#%&*+.;<=>?@^`|~') for _ in range(int(2 ** r.uniform(0, 9)))]) for _ in range(3)]
        ctx.n('operators.long')
    if r.random() < 0.5:
        g.null = 0.3
    values = [V(SEXP, [g.value(1) for _ in range(r.randint(1, 10))])]
    e = TextEnc(r, wild=r.choice([0.2, 0.7]))
    text = e.stream(values)
    record(ctx, values, e.stats, text)
    check(ctx, text, values, 'sexps')


def identifiers(ctx):
    """Symbol identifiers resolved by symbol tables written in the text."""
    r = ctx.rng
    g = Gen(r, budget=15, tricky=0.3)
    texts = [g.word() for _ in range(r.randint(0, 6))]
    table = Table()
    values = []
    out = []
    stats = {}
    for _ in range(r.randint(1, 3)):
        if r.random() < 0.8:
            from ..binref import lst_value
            from ..symref import apply_lst
            kids = [V(STRING, t) for t in texts]
            while r.random() < 0.3:
                kids.insert(r.randint(0, len(kids)), r.choice([V(NULL), V(STRING), V(INT, 1), V(STRING, 'x' * r.randint(0, 3)), V(LIST, [])]))
            lst = lst_value(kids, r.random() < 0.4)
            e = TextEnc(r, None, 0.3)
            body = e.begin()
            e.top(body, lst)
            out.append(e.end(body) + '\n')
            table = apply_lst(lst, table, Catalog())
        index = table.index()
        g.unknown = [s for s in index if not isinstance(s, str)]
        vs = g.stream(r.randint(1, 3))
        e = TextEnc(r, lambda s: index.get(s), r.choice([0.1, 0.5]))
        body = e.begin()
        for v in vs:
            e.top(body, v)
        out.append(e.end(body) + '\n')
        values += vs
        for k, n in e.stats.items():
            stats[k] = stats.get(k, 0) + n
        if r.random() < 0.3:
            out.append('$ion_1_0\n')
            table = Table()
    text = ''.join(out)
    record(ctx, values, stats, text)
    check(ctx, text, values, 'identifiers')


TOKENS = ['1', '-1', '0', '1.5', '1e3', '2d-2', '0xF', '0b10', '2001T', '2001-02T', '2001-02-03', '2001-02-03T04:05Z', 'a', 'null', 'null.int', 'true', 'nan',
          '+inf', '-inf', '"s"', "'q'", "'''l'''", "''", '{{aGk=}}', '{{"c"}}', "{{'''c'''}}", '[', ']', '(', ')', '{', '}', ',', ':', '::', '+', '-', '/', '*',
          '//c\n', '/*c*/', ' ', '\n', '\t', '$0', '$4', '$ion_1_0', '$ion__1', 'a::', 'b:', '"f":', "'''k''':", '.', '1.', '_', '$', '\r\n', '\x0b', '<=', '&&', 'i', 'in', 'inf', 'n', 'nul', 't', '+i', '-in', '+n', '-t']


def soup(ctx):
    """Random sequences of tokens; those the strict parser accepts must be read as it says."""
    r = ctx.rng
    for _ in range(25):
        text = ''.join([r.choice(TOKENS) + r.choice(['', ' ', '']) for _ in range(r.randint(1, 10))])
        x = r.random()
        if x < 0.2:
            text = '[' + text + ']'
        elif x < 0.4:
            text = '(' + text + ')'
        elif x < 0.5:
            text = '{a:' + text + '}'
        ctx.n('soup')
        try:
            expected = TextDec(text).decode()
        except (Bad, Unsure):
            continue
        ctx.n('soup.accepted')
        if expected:
            ctx.distinct(text)
        check(ctx, text, expected, 'tokens')


# Tokens whose end or meaning depends on what follows.
TURNS = ["''", "'''a'''", "''''''", '""', "'a'", 'a', '$', '$4', '$ion_1_0', 'null', 'null.int', 'nan', 'true', '+inf', '-inf', '0', '-0', '1', '1.', '1d0', '1e0', '2001T',
         '2001-01-01', '2001-01-01T', '[]', '()', '{}', '{{}}', '{{""}}', 'a::', "'':: ", '$0', '-', '+']
TAILS = ['', ' ', '\n', '\r', '\t ', '//c', '// c\n', '/**/', '/* */ ', ' //', '\n/*c*/\n', '\x0c']


def pairs(ctx):
    """Two or three tokens with every kind of separator, up to the end of the data."""
    r = ctx.rng
    for _ in range(40):
        text = r.choice(TAILS) if r.random() < 0.2 else ''
        for _ in range(r.choice([1, 2, 2, 3])):
            text += r.choice(TOKENS if r.random() < 0.6 else TURNS) + (r.choice(TAILS) if r.random() < 0.8 else '')
        try:
            expected = TextDec(text).decode()
        except (Bad, Unsure):
            continue
        ctx.n('pairs.accepted')
        if expected:
            ctx.distinct(text)
        for kind, data in (('unicode', text), ('text', text.encode('utf-8'))):
            tree, err = read_pieces(kind, cut(r, data, 'one' if r.random() < 0.7 else 'few') if data else [])
            ctx.n('events', tree.events)
            if err is not None:
                ctx.fail('pairs (%s): well-formed text %s refused with %s' % (kind, ascii(text), describe_error(err)))
            same(expected, tree.values, 'pairs (%s): text %s' % (kind, ascii(text)))


def mutants(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([2, 4, 8]), long_text=0, big=0)
    values = g.stream(r.choice([1, 1, 2]))
    e = TextEnc(r, wild=0.4)
    text = e.stream(values)
    for _ in range(8):
        m = list(text)
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(m) + 1)
            x = r.random()
            if x < 0.4:
                m[i:i] = [r.choice('{}[]()\'",:;/*\\ \n\r\t_-+.0123456789abdefnuxT$Zz=')]
            elif x < 0.7 and i < len(m):
                del m[i:i + r.choice([1, 1, 2])]
            elif i < len(m):
                m[i] = r.choice('{}[]()\'",:/*\\ \n_-+.019abeT$Z')
        m = ''.join(m)
        ctx.n('mutants')
        try:
            expected = TextDec(m).decode()
        except (Bad, Unsure):
            continue
        ctx.n('mutants.accepted')
        if expected:
            ctx.distinct([shape(v) for v in expected], len(m))
        check(ctx, m, expected, 'mutant')


def tokens(ctx):
    """Strings over the alphabet of one kind of token."""
    r = ctx.rng
    alphabet = r.choice(ALPHABETS)
    for _ in range(12):
        s = near_text(r, alphabet)
        ctx.n('tokens')
        try:
            expected = TextDec(s).decode()
        except (Bad, Unsure):
            continue
        ctx.n('tokens.accepted')
        ctx.n('tokens.accepted.' + alphabet[0])
        if expected:
            ctx.distinct(s)
        check(ctx, s, expected, 'tokens')


def grid(ctx):
    """Small domains, completely."""
    r = ctx.rng
    name, values = grids.block(ctx.i, r)
    ctx.n('grid.' + name.split()[0], len(values))
    ctx.distinct(name)
    for v in values:
        Gen.fix_top(None, v)
    if r.random() < 0.4:
        values = [V(r.choice([LIST, SEXP]), values)]
    check(ctx, TextEnc(r, wild=r.choice([0.1, 0.4])).stream(values), values, 'all ' + name)


FAMILIES = [('grid', grid, 1267), ('stream', stream, 4500), ('scalars', scalars, 2500), ('sexps', sexps, 2500), ('identifiers', identifiers, 1800),
            ('soup', soup, 2500), ('pairs', pairs, 500), ('mutants', mutants, 2500), ('tokens', tokens, 3000)]
