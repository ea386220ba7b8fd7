"""Reference semantics of Ion symbol tables and shared table catalogs."""
from .model import *


class Table(object):
    """The symbols in force: entries[sid - 1] = (text or None, import location or None)."""

    def __init__(self):
        self.entries = [(t, ('$ion', i + 1)) for i, t in enumerate(SYSTEM)]
        self.system_only = True

    @property
    def max_id(self):
        return len(self.entries)

    def lookup(self, sid):
        """The model symbol of a symbol ID; None when the ID is not defined."""
        if sid == 0:
            return SYM0
        if sid > len(self.entries):
            return None
        text, loc = self.entries[sid - 1]
        if text is not None:
            return text
        if loc is not None:
            return ('$',) + loc
        return ('?', sid)

    def location(self, sid):
        if sid == 0:
            return None
        return self.entries[sid - 1][1]

    def sids(self, sym):
        if sym == SYM0:
            return [0]
        return [i for i in range(1, len(self.entries) + 1) if self.lookup(i) == sym]

    def index(self):
        d = {SYM0: [0]}
        for i in range(1, len(self.entries) + 1):
            d.setdefault(self.lookup(i), []).append(i)
        return d


class Catalog(object):
    def __init__(self):
        self.tables = {}

    def add(self, name, version, symbols):
        self.tables.setdefault(name, {})[version] = list(symbols)

    def resolve(self, name, version, max_id):
        """The entries an import contributes.  Raises Bad when it cannot be resolved."""
        versions = self.tables.get(name)
        if not versions:
            if max_id is None:
                raise Bad('no table %r and no max_id' % name)
            return [(None, (name, i + 1)) for i in range(max_id)]
        exact = version in versions
        symbols = versions[version] if exact else versions[max(versions)]
        if exact and (max_id is None or max_id == len(symbols)):
            n = len(symbols)
        elif max_id is None:
            raise Bad('no exact table %r version %d and no max_id' % (name, version))
        else:
            n = max_id
        return [(symbols[i] if i < len(symbols) else None, (name, i + 1)) for i in range(n)]


def apply_lst(value, table, catalog, strict=False):
    """The table after a local symbol table struct (its symbols already resolved with the table in force)."""
    imports = [c for n, c in value.v if n == 'imports']
    symbols = [c for n, c in value.v if n == 'symbols']
    if len(imports) > 1 or len(symbols) > 1:
        raise Bad('repeated imports or symbols field')
    new = Table()
    new.system_only = False
    if imports:
        i = imports[0]
        if i.t == SYMBOL and i.v == '$ion_symbol_table':
            if not table.system_only:
                new.entries = list(table.entries)
        elif i.t == LIST and i.v is not None:
            for d in i.v:
                if d.t != STRUCT or d.v is None:
                    continue
                name, version, max_id = None, 1, None
                for kind in ('name', 'version', 'max_id'):
                    if strict and len([1 for n, c in d.v if n == kind]) > 1:
                        raise Unsure('repeated field in import')
                for n, c in d.v:
                    if n == 'name' and c.t == STRING:
                        name = c.v
                    elif n == 'version' and c.t == INT and c.v is not None and c.v > 0:
                        version = c.v
                    elif n == 'max_id' and c.t == INT and c.v is not None and c.v >= 0:
                        max_id = c.v
                if not name or name == '$ion':
                    continue
                if max_id is not None and max_id > 10 ** 5:
                    raise Unsure('huge max_id')
                new.entries += catalog.resolve(name, version, max_id)
    if symbols and symbols[0].t == LIST and symbols[0].v is not None:
        for c in symbols[0].v:
            new.entries.append((c.v if c.t == STRING else None, None))
    return new


def is_lst(x):
    return x.t == STRUCT and x.v is not None and x.ann and x.ann[0] == '$ion_symbol_table'


def is_faux_ivm(x):
    return x.t == SYMBOL and not x.ann and x.v == '$ion_1_0'
