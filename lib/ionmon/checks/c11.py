from amazon.ion.exceptions import CannotSubstituteTable
from amazon.ion.symbols import (LOCAL_TABLE_TYPE, SYSTEM_TABLE_TYPE, SYSTEM_SYMBOL_TABLE, ImportLocation, SymbolTable, SymbolTableCatalog, local_symbol_table,
                                placeholder_symbol_table, shared_symbol_table, substitute_symbol_table)

from ..common import *

RULE = ('Random histories of operations on symbol tables and catalogs run against a shadow model (a plain list of tokens per table, a '
        'dictionary of versions per catalog): building local and shared tables from symbols and imports, interning, lookups by text and '
        'by ID inside, at and outside the limits, iteration, length, comparison of every pair of tables, registering, resolving, '
        'substituting, and calls with bad arguments, which must raise and change nothing.  After every operation all tables built so far '
        'are compared with their models.  Distinct: different history of operations and results.')
ASSUMPTIONS = ['a table keeps what its imports held when it was made']
MIN = {'big.interned': 10000, 'big.lookups': 6000, 'interned.new': 10000, 'interned.known': 5000, 'lookups.text': 20000, 'lookups.id': 20000, 'tables.checked': 100000, 'resolved.exact': 1500,
       'resolved.substitute': 3000, 'resolved.placeholder': 2000, 'resolved.refused': 1500, 'refused': 5000, 'compared.equal': 5000, 'compared.different': 20000}
THOROUGH = 20

WORDS = ['a', 'b', 'c', 'd', 'name', 'version', '$ion', '$ion_1_0', 'max_id', '$ion_symbol_table', '', ' ', '\u2603', '\U0001f600', 'x', 'y', 'z', '$10', '0']
SYS = [(t, i + 1, ('$ion', i + 1)) for i, t in enumerate(SYSTEM)]


class Model(object):
    """kind: system, shared or local; tokens: (text, ID, location)."""

    def __init__(self, kind, name, version, tokens, substitute=False):
        self.kind = kind
        self.name = name
        self.version = version
        self.tokens = list(tokens)
        self.substitute = substitute

    def add(self, text, loc):
        i = len(self.tokens) + 1
        self.tokens.append((text, i, loc))
        return self.tokens[-1]

    def by_text(self, text):
        for t in self.tokens:
            if t[0] == text and text is not None:
                return t
        return None

    def by_id(self, sid):
        if sid == 0:
            return (None, 0, None)
        return self.tokens[sid - 1] if 1 <= sid <= len(self.tokens) else None

    def image(self):
        return (self.kind, self.name, self.version, self.substitute, tuple(self.tokens))


def local_model(imports, symbols):
    m = Model('local', None, None, SYS)
    for t in imports or ():
        for text, _, loc in t.tokens:
            if t.kind != 'local' or loc is None or loc[0] != '$ion':
                m.add(text, loc)
    for s in symbols:
        m.add(s, None)
    return m


def shared_model(name, version, symbols, imports=None, substitute=False):
    m = Model('shared', name, version, [], substitute)
    n = 0
    texts = [text for t in imports or () for text, _, _ in t.tokens] + list(symbols)
    for text in texts:
        n += 1
        m.add(text, (name, n))
    return m


def check_table(ctx, real, model, what):
    found = [token_image(t) for t in real]
    if found != model.tokens:
        ctx.fail('%s: the tokens are %r instead of %r' % (what, found[:40], model.tokens[:40]))
    if len(real) != len(model.tokens) or real.max_id != len(model.tokens):
        ctx.fail('%s: length %r and maximum ID %r with %d symbols' % (what, len(real), real.max_id, len(model.tokens)))
    if (real.name, real.version) != (model.name, model.version):
        ctx.fail('%s: name %r and version %r' % (what, real.name, real.version))
    if bool(real.is_substitute) != model.substitute:
        ctx.fail('%s: substitute %r' % (what, real.is_substitute))
    t = real.table_type
    if (bool(t.is_system), bool(t.is_shared), bool(t.is_local)) != (model.kind == 'system', model.kind != 'local', model.kind == 'local'):
        ctx.fail('%s: type %r' % (what, t))
    ctx.n('tables.checked')


def refused(ctx, what, f, *errors):
    try:
        out = f()
    except errors:
        ctx.n('refused')
        return
    except Exception as e:
        ctx.fail('%s raises %s' % (what, describe_error(e)))
    ctx.fail('%s gives %r' % (what, out))


class Run(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.r = ctx.rng
        self.tables = [(SYSTEM_SYMBOL_TABLE, Model('system', '$ion', 1, SYS))]
        self.catalogs = [(SymbolTableCatalog(), {})]
        self.log = []

    def words(self, none=0.05):
        r = self.r
        return [None if r.random() < none else r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 10]))]

    def some(self, kind=None):
        have = [x for x in self.tables if kind is None or x[1].kind == kind]
        return self.r.choice(have) if have else None

    def shaped(self, xs):
        """The symbols in one of the forms a caller may pass."""
        x = self.r.random()
        return list(xs) if x < 0.4 else tuple(xs) if x < 0.7 else iter(list(xs))

    def imports(self, shared_only):
        r = self.r
        if r.random() < 0.4:
            return None
        have = [x for x in self.tables if x[1].kind == 'shared' or not shared_only and x[1].kind == 'local']
        return [r.choice(have) for _ in range(r.choice([0, 1, 1, 2, 3]))] if have else None

    def new_local(self):
        r = self.r
        imports = self.imports(False)
        symbols = self.words()
        m = local_model([i[1] for i in imports] if imports is not None else None, symbols)
        real = local_symbol_table(None if imports is None else self.shaped([i[0] for i in imports]), self.shaped(symbols))
        self.tables.append((real, m))
        return 'local %r + %r' % (None if imports is None else [i[1].name for i in imports], symbols)

    def new_shared(self):
        r = self.r
        imports = self.imports(True)
        symbols = self.words()
        name, version = r.choice(['t', 'u', 'v', '\u00e9', '']), r.choice([1, 1, 2, 3, 10])
        m = shared_model(name, version, symbols, [i[1] for i in imports] if imports is not None else None)
        if imports is None and r.random() < 0.5:
            real = shared_symbol_table(name, version, self.shaped(symbols))
        else:
            real = shared_symbol_table(name, version, self.shaped(symbols), None if imports is None else [i[0] for i in imports])
        self.tables.append((real, m))
        return 'shared %r %d %r' % (name, version, symbols)

    def copy_of(self):
        """A table with the contents of another one, or nearly."""
        r = self.r
        real, m = self.some()
        if m.kind == 'system':
            return None
        name, version, texts = m.name, m.version, [t[0] for t in m.tokens]
        if m.kind == 'shared':
            x = r.random()
            if x < 0.15:
                name = name + 'x'
            elif x < 0.3:
                version += 1
            elif x < 0.5 and texts:
                texts[r.randrange(len(texts))] = r.choice(WORDS + [None])
            elif x < 0.6:
                texts = texts[:-1]
            elif x < 0.7:
                texts.append(None)
            if r.random() < 0.2:
                k = len(texts)
                base = shared_model('base', 1, texts)
                copy = substitute_symbol_table(shared_symbol_table(name, 77, texts), version, k)
                self.tables.append((copy, shared_model(name, version, texts, None, True)))
            else:
                self.tables.append((shared_symbol_table(name, version, texts), shared_model(name, version, texts)))
        else:
            if any(t[2] is not None and t[2][0] != '$ion' for t in m.tokens) and r.random() < 0.5:
                self.tables.append((local_symbol_table([real]), local_model([m], [])))
            else:
                texts = texts[9:]
                if texts and r.random() < 0.3:
                    texts[r.randrange(len(texts))] = r.choice(WORDS + [None])
                self.tables.append((local_symbol_table(None, texts), local_model(None, texts)))
        return 'copy'

    def intern(self):
        ctx, r = self.ctx, self.r
        got = self.some('local')
        if got is None:
            return None
        real, m = got
        for _ in range(r.choice([1, 1, 2, 5, 30])):
            text = r.choice(WORDS) if r.random() < 0.7 else 'w%d' % r.randint(0, 50)
            known = m.by_text(text)
            expected = known or m.add(text, None)
            ctx.n('interned.known' if known else 'interned.new')
            tok = real.intern(text)
            if token_image(tok) != expected:
                ctx.fail('interning %r gives %r instead of %r; history %s' % (text, token_image(tok), expected, self.log))
        return 'intern'

    def lookups(self):
        ctx, r = self.ctx, self.r
        real, m = self.some()
        top = len(m.tokens)
        for _ in range(6):
            if r.random() < 0.5:
                k = r.choice(WORDS) if r.random() < 0.5 or not m.tokens else r.choice(m.tokens)[0]
                if k is None:
                    continue
                e = m.by_text(k)
                ctx.n('lookups.text')
            else:
                k = r.choice([0, 1, 9, 10, top, top + 1, top + 2, r.randint(0, top + 3), -1, -top, -top - 1, 10 ** 6, 10 ** 20])
                e = m.by_id(k)
                ctx.n('lookups.id')
            default = r.choice([None, 'default', 7])
            got = real.get(k, default) if r.random() < 0.7 else (real.get(k) if default is None else real.get(k, default=default))
            want = e if e is not None else default
            if (token_image(got) if e is not None else got) != want:
                ctx.fail('looking up %r gives %r instead of %r; history %s' % (k, got, want, self.log))
            if e is None:
                refused(ctx, 'table[%r]' % (k,), lambda: real[k], KeyError)
            elif token_image(real[k]) != e:
                ctx.fail('table[%r] is %r instead of %r' % (k, real[k], e))
        return None

    def bad(self):
        """Bad arguments: an error, and nothing has changed (all tables are looked at after every operation)."""
        ctx, r = self.ctx, self.r
        real, m = self.some()
        k = r.choice([None, b'a', 1.0, [], ('a',)])
        refused(ctx, 'get(%r)' % (k,), lambda: real.get(k), TypeError)
        if m.kind != 'local':
            refused(ctx, 'interning in a %s table' % m.kind, lambda: real.intern(r.choice(WORDS)), TypeError)
        else:
            k = r.choice([None, b'a', 1, 0, []])
            refused(ctx, 'intern(%r)' % (k,), lambda: real.intern(k), TypeError)
        x = r.randrange(14)
        if x == 0:
            refused(ctx, 'a shared table without a name', lambda: shared_symbol_table(None, 1, ['a']), ValueError)
        elif x == 1:
            refused(ctx, 'a shared table of version 0', lambda: shared_symbol_table('t', r.choice([0, -1]), ['a']), ValueError)
        elif x == 2:
            refused(ctx, 'a shared table without a version', lambda: shared_symbol_table('t', None, ['a']), ValueError)
        elif x == 3:
            refused(ctx, 'a table with a name that is not text', lambda: shared_symbol_table(b't', 1, ['a']), TypeError)
        elif x == 4:
            refused(ctx, 'a symbol that is not text', lambda: r.choice([lambda: shared_symbol_table('t', 1, ['a', b'b']), lambda: local_symbol_table(None, ['a', 1])])(), TypeError)
        elif x == 5:
            refused(ctx, 'a placeholder of version 0', lambda: placeholder_symbol_table('t', r.choice([0, -2]), 1), ValueError)
        elif x == 6:
            refused(ctx, 'a placeholder of negative size', lambda: placeholder_symbol_table('t', 1, -1), ValueError)
        elif x == 7:
            s = self.some('shared')
            if s:
                refused(ctx, 'a substitute of version 0', lambda: substitute_symbol_table(s[0], 0, 1), ValueError)
                refused(ctx, 'a substitute of negative size', lambda: substitute_symbol_table(s[0], 1, -1), ValueError)
        elif x == 8:
            s = self.some('local')
            if s:
                refused(ctx, 'a substitute of a local table', lambda: substitute_symbol_table(s[0], 1, 1), ValueError)
        elif x == 9:
            c = r.choice(self.catalogs)[0]
            refused(ctx, 'resolving a bad name', lambda: c.resolve(r.choice([None, b't', 1]), 1, 1), TypeError)
            refused(ctx, 'resolving a bad version', lambda: c.resolve('t', r.choice([None, '1', 1.0]), 1), TypeError)
            refused(ctx, 'resolving a version that is not positive', lambda: c.resolve('t', r.choice([0, -1]), 1), ValueError)
            refused(ctx, 'resolving a negative size', lambda: c.resolve('t', 1, -1), ValueError)
        elif x == 10:
            c = r.choice(self.catalogs)[0]
            refused(ctx, 'registering the system table', lambda: c.register(SYSTEM_SYMBOL_TABLE), ValueError)
            s = self.some('local')
            if s:
                refused(ctx, 'registering a local table', lambda: c.register(s[0]), ValueError)
            refused(ctx, 'registering a placeholder', lambda: c.register(placeholder_symbol_table('t', 1, 2)), ValueError)
            s = self.some('shared')
            if s:
                refused(ctx, 'registering a substitute', lambda: c.register(substitute_symbol_table(s[0], 5, 2)), ValueError)
        elif x == 11:
            refused(ctx, 'a system table with imports', lambda: SymbolTable(SYSTEM_TABLE_TYPE, [], u'$ion', 1, [] if r.random() < 0.5 else [SYSTEM_SYMBOL_TABLE]), ValueError)
            refused(ctx, 'a system table of another name', lambda: SymbolTable(SYSTEM_TABLE_TYPE, [], r.choice(['ion', 't', '']), 1), ValueError)
        elif x == 12:
            refused(ctx, 'a local table with a name', lambda: SymbolTable(LOCAL_TABLE_TYPE, ['a'], *r.choice([('t', None), (None, 1), ('t', 1), ('', None)])), ValueError)
        else:
            refused(ctx, 'a token without text and ID', lambda: SymbolToken(None, None), ValueError)
        return None

    def register(self):
        r = self.r
        have = [x for x in self.tables if x[1].kind == 'shared' and not x[1].substitute]
        if not have:
            return None
        real, m = r.choice(have)
        c, versions = r.choice(self.catalogs)
        c.register(real)
        versions.setdefault(m.name, {})[m.version] = (real, m)
        return 'register %r %d' % (m.name, m.version)

    def resolve(self):
        ctx, r = self.ctx, self.r
        c, names = r.choice(self.catalogs)
        name = r.choice(sorted(names)) if names and r.random() < 0.8 else r.choice(['t', 'u', 'v', 'missing', ''])
        versions = names.get(name)
        version = r.choice(sorted(versions)) if versions and r.random() < 0.5 else r.choice([1, 2, 3, 4, 9, 11, 1000])
        size = r.choice([None, 0, 1, 2, 3, 5, 8, 100])
        if versions and r.random() < 0.4:
            size = len(versions[version if version in versions else max(versions)][1].tokens) + r.choice([0, 0, 1, -1])
            size = max(size, 0)
        what = 'resolve(%r, %r, %r) with versions %r; history %s' % (name, version, size, sorted(versions or ()), self.log)
        if not versions:
            expected = None if size is None else shared_model(name, version, [None] * size, None, True)
            kind = 'placeholder'
        elif version in versions and (size is None or size == len(versions[version][1].tokens)):
            expected = versions[version][1]
            kind = 'exact'
        elif size is None:
            expected = None
        else:
            m = versions[version if version in versions else max(versions)][1]
            texts = [t[0] for t in m.tokens]
            expected = shared_model(name, version, texts[:size] + [None] * (size - len(texts)), None, True)
            kind = 'substitute'
        if expected is None:
            refused(ctx, what, lambda: c.resolve(name, version, size), CannotSubstituteTable)
            ctx.n('resolved.refused')
            return None
        got = c.resolve(name, version, size)
        ctx.n('resolved.' + kind)
        check_table(ctx, got, expected, what)
        if r.random() < 0.3:
            self.tables.append((got, expected))
        return 'resolve %r %r %r' % (name, version, size)

    def derive(self):
        ctx, r = self.ctx, self.r
        if r.random() < 0.4:
            name, version, size = r.choice(['t', '']), r.choice([1, 5]), r.choice([0, 1, 7])
            got, m = placeholder_symbol_table(name, version, size), shared_model(name, version, [None] * size, None, True)
        else:
            s = self.some('shared')
            if s is None:
                return None
            size = max(0, len(s[1].tokens) + r.choice([0, 1, -1, 5, -5]))
            version = r.choice([1, 2, 9])
            texts = [t[0] for t in s[1].tokens]
            got = substitute_symbol_table(s[0], version, size)
            m = shared_model(s[1].name, version, texts[:size] + [None] * (size - len(texts)), None, True)
        self.tables.append((got, m))
        return 'derive'

    def compare(self):
        ctx, r = self.ctx, self.r
        for a, m in r.sample(self.tables, min(3, len(self.tables))):
            for b, n in self.tables:
                e = m.image() == n.image()
                if (a == b) is not e or (a != b) is e:
                    ctx.fail('comparing tables %r and %r gives == %r, != %r; history %s' % (m.image(), n.image(), a == b, a != b, self.log))
                ctx.n('compared.equal' if e else 'compared.different')
        other = r.choice([None, 5, 'x', [], object()])
        if (a == other) or not (a != other):
            ctx.fail('a table equals %r' % (other,))
        return None


def histories(ctx):
    r = ctx.rng
    run = Run(ctx)
    if r.random() < 0.2:
        run.catalogs.append((SymbolTableCatalog(), {}))
    ops = [run.new_local, run.new_shared, run.new_shared, run.copy_of, run.intern, run.intern, run.intern, run.lookups, run.lookups, run.lookups, run.bad, run.register, run.register,
           run.resolve, run.resolve, run.resolve, run.derive, run.compare]
    for _ in range(r.choice([8, 15, 30])):
        done = r.choice(ops)()
        if done:
            run.log.append(done)
        if len(run.tables) > 14:
            run.tables[1:2] = []
        ctx.n('operations')
        for real, m in run.tables:
            check_table(ctx, real, m, 'a table after %s' % run.log)
    run.compare()
    ctx.distinct(run.log)
    if ctx.wants_sample():
        ctx.sample('; '.join(run.log)[:500])


def big(ctx):
    """Tables of many symbols, the numbers of symbols spread over orders of magnitude."""
    r = ctx.rng

    def some(n):
        x = r.random()
        if x < 0.3:
            return ['s%d' % i for i in range(n)]
        if x < 0.6:
            return [r.choice(WORDS) if r.random() < 0.05 else None if r.random() < 0.02 else 's%d' % r.randint(0, n) for _ in range(n)]
        return [chr(0x21 + i % 90) * (1 + i // 90 % 7) for i in range(n)]
    size = lambda: int(2 ** r.uniform(4, 12))
    shared, models = [], []
    for i in range(r.choice([0, 1, 2])):
        n, texts = r.choice([1, 3]), some(size())
        shared.append(shared_symbol_table('t%d' % i, n, texts))
        models.append(shared_model('t%d' % i, n, texts))
        if r.random() < 0.4:
            n = max(1, len(texts) + r.choice([-300, -1, 0, 1, 300]))
            shared[-1] = substitute_symbol_table(shared[-1], 2, n)
            models[-1] = shared_model('t%d' % i, 2, (texts + [None] * 300)[:n], substitute=True)
        check_table(ctx, shared[-1], models[-1], 'a table of %d symbols' % len(texts))
    own = some(size())
    table, model = local_symbol_table(shared, own), local_model(models, own)
    what = 'a local table of %d symbols with imports of %r' % (len(own), [len(m.tokens) for m in models])
    first = {}
    for t in model.tokens:
        if t[0] is not None:
            first.setdefault(t[0], t)
    known = list(first)
    for k in range(150):
        x = r.random()
        if x < 0.6:
            text = r.choice(known) if r.random() < 0.8 else r.choice(['new%d' % k, chr(0x2600 + k), 's%d' % r.randint(0, 5000)])
            got = token_image(table.intern(text))
            if text not in first:
                first[text] = model.add(text, None)
                known.append(text)
            ctx.n('big.interned')
            if got != first[text]:
                ctx.fail('%s: interning %r gives %r instead of %r' % (what, text, got, first[text]))
        else:
            sid = r.choice([1, 9, 10, len(model.tokens), len(model.tokens) + 1, 256, 1024, r.randint(0, len(model.tokens)), int(2 ** r.uniform(0, 14))])
            got, want = table.get(sid), model.by_id(sid)
            ctx.n('big.lookups')
            if (got is None) != (want is None) or got is not None and token_image(got) != want:
                ctx.fail('%s: symbol %d is %r instead of %r' % (what, sid, got, want))
    if len(table) != len(model.tokens) or table.max_id != len(model.tokens):
        ctx.fail('%s: %d symbols, greatest ID %d, instead of %d' % (what, len(table), table.max_id, len(model.tokens)))
    check_table(ctx, table, model, what)
    for t in r.sample(known, min(200, len(known))):
        if token_image(table.get(t)) != first[t] or token_image(table[t]) != first[t]:
            ctx.fail('%s: %r is %r instead of %r' % (what, t, table.get(t), first[t]))
    ctx.distinct(what)


FAMILIES = [('big', big, 240), ('histories', histories, 18000)]
