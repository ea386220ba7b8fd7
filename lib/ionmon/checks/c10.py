from amazon.ion.simpleion import load, loads
from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table

from ..common import *
from ..binref import BinEnc
from ..symref import apply_lst

RULE = ('Streams of random symbol tables (imports that are exact, too long, too short, of another version or missing in a random '
        'catalog; local symbols with repeats, empty and non-string entries; appended, replaced and reset tables; odd fields) with values '
        'whose symbols are written as symbol IDs of the table in force, in binary and text, in any chunks.  A reference symbol table model '
        'resolves every ID; a monitor compares every value, field name and annotation of the events, looked at once as they come and once '
        'after the whole stream has been read, with text, ID and import location, and the values load returns.  IDs just beyond the table '
        'must raise.  Distinct: different history of tables together with the shape of the values.')
ASSUMPTIONS = ['lib/ionmon/symref.py states what a local symbol table defines, following the Ion 1.0 specification',
               'a symbol table with undecodable content is left to C09; a repeated field in an import is not decided']
MIN = {'tables': 8000, 'imports.odd': 400, 'imports.exact': 1000, 'imports.substituted': 1500, 'imports.missing': 600, 'appended': 1000, 'resets': 500, 'symbols': 50000,
       'symbols.unknown': 4000, 'symbols.imported': 8000, 'undefined': 500, 'late': 1500, 'loads': 800, 'text': 1500, 'unresolvable': 100, 'faux-markers': 500}
THOROUGH = 20

NAMES_ = ['t', 'u', 'com.example', 'x y', '\u00e9\u2603', '$ion_symbol_table', 'name']
SYMBOLS = ['a', 'b', 'c', 'name', 'version', 'imports', 'symbols', 'max_id', '$ion', '$ion_1_0', '$ion_symbol_table', '', ' ', '\u2603', '\U0001f600', '$10', '$0', 'x', 'y', 'z',
           'null', 'foo', 'foo', 'one', 'two', 'three']


def make_catalog(r):
    ref, real = Catalog(), SymbolTableCatalog()
    todo = []
    for name in r.sample(NAMES_, r.randint(0, 4)):
        for version in r.sample([1, 1, 2, 3, 4, 7], r.randint(1, 3)):
            if version in [v for n, v, _ in todo if n == name]:
                continue
            symbols = [r.choice(SYMBOLS) if r.random() < 0.93 else None for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]
            todo.append((name, version, symbols))
    r.shuffle(todo)
    for name, version, symbols in todo:
        ref.add(name, version, symbols)
        if r.random() < 0.25 and symbols:
            k = r.randint(0, len(symbols))
            base = shared_symbol_table('base', 9, symbols[:k])
            real.register(shared_symbol_table(name, version, symbols[k:], imports=[base]))
        else:
            real.register(shared_symbol_table(name, version, symbols))
    return ref, real


def odd(r, kids=()):
    if kids and r.random() < 0.5:
        # What would do in a list, in another container.
        return r.choice([V(SEXP, kids), V(STRUCT, [(r.choice(['name', 'version', 'symbols', 'imports', 'max_id']), c) for c in kids])])
    return r.choice([V(SYMBOL), V(NULL, None, ('$ion_symbol_table',)), V(STRING, '$ion_symbol_table'), V(NULL), V(STRING), V(INT, 0), V(INT, -3), V(INT), V(LIST, []), V(LIST), V(LIST, [V(STRING, 'y')]), V(SYMBOL, 'name'), V(STRUCT, []), V(STRUCT),
                     V(STRUCT, [('name', V(STRING, 't')), ('max_id', V(INT, 5))]), V(SEXP, [V(STRING, 'z')]), V(BOOL, True), V(FLOAT, 2.0), V(DECIMAL, (False, 2, 0)), V(STRING, '2')])


def make_import(ctx, r, cat):
    known = list(cat.tables)
    name = r.choice(known) if known and r.random() < 0.75 else r.choice(NAMES_ + ['missing'])
    versions = cat.tables.get(name, {})
    version = r.choice(sorted(versions)) if versions and r.random() < 0.6 else r.choice([1, 2, 3, 5, 100])
    size = len(versions[version]) if version in versions else len(versions[max(versions)]) if versions else 3
    fields = [('name', V(STRING, name))]
    if r.random() < 0.85:
        fields.append(('version', V(INT, version) if r.random() < 0.92 else odd(r)))
    if r.random() < 0.85:
        fields.append(('max_id', V(INT, max(0, size + r.choice([0, 0, 0, 0, 1, 2, -1, -2, 10, 300]))) if r.random() < 0.95 else odd(r)))
    if r.random() < 0.1:
        fields.append((r.choice(['symbols', 'imports', SYM0, '$ion', 'max_id']), odd(r)))
    if r.random() < 0.06:
        fields[0] = ('name', r.choice([V(STRING, ''), V(STRING, '$ion'), odd(r)]))
    r.shuffle(fields)
    return V(STRUCT, fields, () if r.random() < 0.95 else ('name',))


def make_table(ctx, r, cat):
    fields = []
    x = r.random()
    if x < 0.5:
        kids = [make_import(ctx, r, cat) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        while r.random() < 0.1:
            kids.insert(r.randint(0, len(kids)), odd(r))
        fields.append(('imports', V(LIST, kids)))
    elif x < 0.75:
        fields.append(('imports', V(SYMBOL, '$ion_symbol_table')))
        ctx.n('appended')
    elif x < 0.8:
        fields.append(('imports', odd(r, [make_import(ctx, r, cat) for _ in range(r.choice([0, 1, 2]))])))
        ctx.n('imports.odd')
    if r.random() < 0.85:
        kids = [V(STRING, r.choice(SYMBOLS) if r.random() < 0.6 else 's%d' % r.randint(0, 9)) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        if r.random() < 0.05:
            kids += [V(STRING, 'f%d' % i) for i in range(r.choice([120, 250]))]
        while r.random() < 0.2:
            kids.insert(r.randint(0, len(kids)), odd(r))
        fields.append(('symbols', V(LIST, kids) if r.random() < 0.94 else odd(r, kids)))
    if r.random() < 0.1:
        fields.append((r.choice(['name', 'version', 'max_id', SYM0, '$ion']), odd(r)))
    r.shuffle(fields)
    return V(STRUCT, fields, ('$ion_symbol_table',) + r.choice([(), (), (), ('name',), ('$ion_symbol_table',)]))


def note_imports(ctx, lst, cat):
    for n, c in lst.v:
        if n == 'imports' and c.t == LIST and c.v:
            for d in c.v:
                if d.t == STRUCT and d.v:
                    f = dict(d.v)
                    name = f.get('name')
                    if name is None or name.t != STRING or not name.v:
                        continue
                    versions = cat.tables.get(name.v)
                    ver = f.get('version')
                    ver = ver.v if ver is not None and ver.t == INT and ver.v and ver.v > 0 else 1
                    m = f.get('max_id')
                    if not versions:
                        ctx.n('imports.missing')
                    elif ver in versions and (m is None or m.v == len(versions[ver])):
                        ctx.n('imports.exact')
                    else:
                        ctx.n('imports.substituted')


def numbered(r, v, table, keep=0.0):
    """The value with its symbols replaced by symbol IDs of the table."""
    top = table.max_id

    def f(s):
        if isinstance(s, str) and r.random() < keep:
            return s
        return ('sid', r.choice([r.randint(0, top), r.randint(1, top), r.randint(min(10, top), top), top]))
    return map_symbols(v, f)


def tokens_of(values, tables):
    """What every symbol of the values is: (text, ID or None, location or None), in the order of a reader's events."""
    out = []
    for v, table in zip(values, tables):
        for s in symbols_of(v):
            if isinstance(s, str):
                out.append((s, 'any', 'any'))
            elif s == SYM0:
                out.append((None, 0, None))
            else:
                x = table.lookup(s[1])
                out.append((x if isinstance(x, str) else None, s[1], table.location(s[1])))
    return out


class Tokens(Tree):
    """Also collects every symbol token."""

    def __init__(self):
        Tree.__init__(self)
        self.tokens = []

    def feed(self, ev):
        if ev.event_type in (SCALAR, START):
            if ev.field_name is not None:
                self.tokens.append(ev.field_name)
            self.tokens.extend(ev.annotations)
            if ev.ion_type is ITYPE[SYMBOL] and ev.value is not None:
                self.tokens.append(ev.value)
        return Tree.feed(self, ev)


class Late(object):
    """Keeps the events without looking at them."""

    def __init__(self):
        self.kept = []
        self.events = 0
        self.values = []
        self.stack = []

    def feed(self, ev):
        self.events += 1
        self.kept.append(ev)
        return ev.event_type in (STOP, INCOMPLETE)

    def look(self):
        t = Tokens()
        for ev in self.kept:
            t.feed(ev)
        return t


def same_tokens(ctx, expected, found, what):
    if len(expected) != len(found):
        ctx.fail('%s: %d symbols expected, %d found' % (what, len(expected), len(found)))
    for (text, sid, loc), tok in zip(expected, found):
        ctx.n('symbols')
        got = token_image(tok)
        if sid == 'any':
            ok = got == text or got[0] == text
        else:
            if text is None:
                ctx.n('symbols.unknown')
            if loc is not None and loc[0] != '$ion':
                ctx.n('symbols.imported')
            ok = got == (text, sid, loc)
        if not ok:
            ctx.fail('%s: symbol %r instead of %r' % (what, got, (text, sid, loc)))


def build(ctx, r, is_text):
    """Pieces of a stream and what they denote.  The last segment may have an undefined symbol ID or a bad import."""
    cat, real = make_catalog(r)
    table = Table()
    e = BinEnc(r, lambda s: [s[1]] if s[:1] == ('sid',) else index[s], r.choice([0, 0.3]), r.choice([0, 0.05]))
    index = table.index()
    out = [] if is_text else [IVM]
    values, tables, history = [], [], []
    error = None
    last = None

    def put(v):
        if is_text:
            t = TextEnc(r, lambda s: [s[1]] if s[:1] == ('sid',) else index.get(s) if r.random() < 0.3 else None, r.choice([0, 0.2]))
            o = t.begin()
            t.top(o, v)
            out.append(t.end(o) + '\n')
        else:
            out.append(e.value(v))
    g = Gen(r, depth=3, budget=60, long_text=0, big=0, types=[SYMBOL, SYMBOL, SYMBOL, LIST, SEXP, STRUCT, STRUCT, INT, STRING], ann=0.4)
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        if r.random() < 0.15:
            out.append('$ion_1_0\n' if is_text else IVM)
            table = Table()
            index = table.index()
            history.append('reset')
            ctx.n('resets')
        if r.random() < 0.9:
            lst = make_table(ctx, r, cat)
            try:
                new = apply_lst(lst, table, cat, strict=True)
            except Unsure:
                continue
            except Bad:
                if r.random() < 0.8:
                    continue
                put(lst)
                put(V(INT, 1))
                ctx.n('unresolvable')
                error = 'bad import'
                break
            # Field names of the table itself may use any symbol ID that has their text.
            note_imports(ctx, lst, cat)
            put(lst)
            last = None
            table = new
            index = table.index()
            ctx.n('tables')
            history.append(show(lst))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < 0.06:
                # The symbol $ion_1_0 that is not a version marker does nothing.
                sid = r.choice(index['$ion_1_0'])
                if is_text:
                    out.append(r.choice(['$%d\n' % sid, "'$ion_1_0' ", "'\\x24ion_1_0'\n"]))
                    last = SYMBOL
                else:
                    out.append(e.value(V(SYMBOL, ('sid', sid))))
                history.append('faux marker $%d' % sid)
                ctx.n('faux-markers')
            g.budget = r.choice([1, 4, 10])
            v = numbered(r, g.value(), table, 0.3 if is_text else 0)
            m = resolve_sids(v, table)
            if is_lst(m) or m.t == STRUCT and m.ann and m.ann[0] == '$ion_symbol_table' or is_faux_ivm(m):
                v = V(LIST, [v])
                m = V(LIST, [m])
            if is_text and m.t == STRING and not m.ann and last == STRING:
                # Long strings in a row are one string.
                v = V(LIST, [v])
                m = V(LIST, [m])
            last = m.t
            put(v)
            values.append((m, v))
            tables.append(table)
    if error is None and r.random() < 0.15:
        top = table.max_id
        bad = ('sid', top + r.choice([1, 1, 1, 2, 10, 1000]))
        v = r.choice([V(SYMBOL, bad), V(INT, 1, (bad,)), V(INT, 1, (('sid', top), bad)), V(STRUCT, [(bad, V(INT, 1))]), V(LIST, [V(SYMBOL, bad)]),
                      V(STRUCT, [(('sid', 4), V(LIST, [V(INT, 2, (bad,))]))]), V(LIST, [V(STRUCT, [(bad, V(NULL))])]), V(STRUCT, [], (bad,)), V(SEXP, [], (bad,)), V(SYMBOL, bad, (('sid', 1),))])
        put(v)
        error = 'undefined symbol ID'
        ctx.n('undefined')
    return cat, real, out, values, tables, history, error


from ..symref import is_lst, is_faux_ivm


def run(ctx, is_text):
    r = ctx.rng
    cat, real, out, values, tables, history, error = build(ctx, r, is_text)
    data = ''.join(out) if is_text else b''.join(out)
    kind = 'binary'
    if is_text:
        kind = r.choice(['text', 'unicode'])
        if kind == 'text':
            data = data.encode('utf-8')
        ctx.n('text')
    shown = data.hex() if kind == 'binary' else ascii(data)
    ctx.note('%s: %s; tables: %s; catalog: %r' % (kind, shown[:2500], history, cat.tables))
    what = '%s %s (tables %s, catalog %r)' % (kind, shown[:500], ' '.join(history)[:500], cat.tables)
    expected = [m for m, _ in values]
    tokens = tokens_of([v for _, v in values], tables)
    ctx.distinct(history, [shape(v) for v in expected])
    pieces = cut(r, data) if data else []
    use = real if cat.tables or r.random() < 0.5 else None
    tree, err = read_pieces(kind, pieces, use, tree=Tokens())
    ctx.n('events', tree.events)
    done = tree.values[:-1] if err is not None and tree.stack else tree.values
    if error is None:
        if err is not None:
            ctx.fail('%s: %s' % (what, describe_error(err)))
        same(expected, tree.values, what)
        same_tokens(ctx, tokens, tree.tokens, what)
    else:
        if err is None:
            ctx.fail('%s: %s, read without an error as %s' % (what, error, ', '.join(show(v) for v in tree.values)[:400]))
        same(expected, done, what)
        same_tokens(ctx, tokens, tree.tokens[:len(tokens)], what)
    x = r.random()
    if x < 0.4:
        late, err = read_pieces(kind, cut(r, data) if data else [], use, tree=Late())
        if error is None or error == 'undefined symbol ID':
            if err is not None and error is None:
                ctx.fail('%s, not looked at while reading: %s' % (what, describe_error(err)))
            try:
                t = late.look()
            except Violation:
                raise
            except Exception as e:
                if error is None:
                    ctx.fail('%s, looked at after reading: %s' % (what, describe_error(e)))
            else:
                if error is not None and err is None:
                    ctx.fail('%s: %s, looked at after reading without an error' % (what, error))
                if error is None:
                    same(expected, t.values, what + ', looked at after reading')
                    same_tokens(ctx, tokens, t.tokens, what + ', looked at after reading')
            ctx.n('late')
    elif x < 0.65 and (kind == 'binary' or data and data[:4] != IVM) and not (kind == 'unicode' and '\r' in data):
        try:
            objs = loads(data, use, single_value=False) if kind == 'unicode' or r.random() < 0.5 else load(BytesIO(data), use, single_value=False)
        except Exception as e:
            if error is None:
                ctx.fail('%s: load raises %s' % (what, describe_error(e)))
        else:
            if error is not None:
                ctx.fail('%s: %s, loaded as %r' % (what, error, objs))
            same([loaded_view(v) for v in expected], [value_of(o) for o in objs], what + ', loaded')
        ctx.n('loads')
    if ctx.wants_sample():
        ctx.sample('%s -> %s' % (' '.join(history)[:300], ', '.join(show(v) for v in expected)[:250]))


def binary(ctx):
    run(ctx, False)


def text(ctx):
    run(ctx, True)


FAMILIES = [('binary', binary, 7000), ('text', text, 4500)]
