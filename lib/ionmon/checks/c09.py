import struct

from amazon.ion.exceptions import IonException
from amazon.ion.simpleion import load, loads
from ..common import *
from ..binref import BinEnc, lst_value, varuint, varint, uint, signed
from .c02 import TOKENS
from .c06 import costly

RULE = ('Well-formed binary and text streams are truncated at every position, edited, spliced and given parts that break one rule '
        'each (lengths that do not fit, illegal type octets, field values and dates out of range, undefined symbol IDs, bad symbol '
        'tables, bad UTF-8, illegal characters, escapes, tokens and nesting), inside otherwise good data.  A strict reference decoder '
        'decides: what it rejects must end in an error of the real reader (at event level with every value looked at, in one piece and in '
        'several, and through load), after exactly the top-level values that the well-formed prefix holds; what it accepts must be read '
        'without an error as the same values.  Distinct: different input; inputs the reference does not decide do not count.')
ASSUMPTIONS = ['lib/ionmon/binref.py and textref.py state what is well-formed Ion 1.0; they leave undecided what the specification leaves open',
               'a malformed scalar may be refused only when its value is looked at, so values are looked at as they come']
MIN = {'binary.rejected': 15000, 'text.rejected': 15000, 'binary.accepted': 2000, 'text.accepted': 1500, 'loads.rejected': 3000,
       'truncations': 15000, 'octets': 3000, 'tables.rejected': 300, 'utf8.rejected': 500, 'tokens': 20000}
THOROUGH = 20


def judge(ctx, kind, data, what, catalog=None, real_catalog=None, light=False):
    """Compares the real reader with the reference on any input."""
    r = ctx.rng
    if kind == 'binary':
        d = BinDec(data, catalog)
        shown = data.hex()
    else:
        if kind == 'text':
            try:
                s = data.decode('utf-8')
            except UnicodeDecodeError:
                s = None
        else:
            s = data
        if s is None and in_comment(data):
            ctx.n('unsure')
            return None
        d = TextDec(s, catalog) if s is not None else None
        shown = ascii(data)
    ctx.note('%s: %s' % (kind, shown[:3000]))
    bad = None
    try:
        if d is None:
            bad = 'not UTF-8'
        else:
            d.decode()
    except Unsure:
        ctx.n('unsure')
        return None
    except Bad as e:
        bad = str(e)
    group = 'binary' if kind == 'binary' else 'text'
    ctx.n(group + ('.accepted' if bad is None else '.rejected'))
    ctx.distinct(kind, data)
    what = '%s: %s %s' % (what, kind, shown[:600])
    runs = ['whole'] if light or r.random() < 0.7 else ['whole', r.choice(['units', 'small', 'few'])]
    for style in runs:
        tree, err = read_pieces(kind, cut(r, data, 'one' if style == 'whole' else style), real_catalog)
        ctx.n('events', tree.events)
        if bad is None:
            if err is not None:
                ctx.fail('%s: well-formed, refused with %s' % (what, describe_error(err)))
            same(d.values, tree.values, what)
            continue
        if err is None:
            ctx.fail('%s: not well-formed (%s), read without an error as %s' % (what, bad, ', '.join(show(v) for v in tree.values)[:300]))
        refusal(ctx, group, err, what)
        if d is None:
            continue
        done = tree.values[:-1] if tree.stack else tree.values
        # The value that ends where the malformed part begins may come together with the error.
        k = len(done)
        if group == 'text' and k == len(d.values) + 1 and denoted(s, done):
            ctx.n('one-more')
            continue
        if keys(done) != keys(d.values[:k]):
            ctx.fail('%s: not well-formed (%s); reported before the error: %s' % (what, bad, first_difference(d.values[:k], list(done))))
        if group == 'binary' and k != len(d.values) or k < len(d.values) - 1:
            ctx.fail('%s: not well-formed (%s); %d values come before that, %d were reported' % (what, bad, len(d.values), k))
    if not light and r.random() < 0.3 and (kind != 'binary' or data[:4] == IVM):
        if kind != 'binary' and (data[:4] == IVM or not data):
            return bad
        if kind == 'unicode':
            source = data
            if '\r' in data:
                return bad
        else:
            source = data
        try:
            out = loads(source, real_catalog, single_value=False) if kind == 'unicode' or r.random() < 0.5 else load(BytesIO(source), real_catalog, single_value=False)
        except Exception as e:
            if bad is None:
                ctx.fail('%s: well-formed, load raises %s' % (what, describe_error(e)))
            refusal(ctx, group, e, what + ' loaded')
            ctx.n('loads.rejected')
        else:
            if bad is not None:
                ctx.fail('%s: not well-formed (%s), loaded as %r' % (what, bad, out))
            same([loaded_view(v) for v in d.values], [value_of(o) for o in out], what + ' loaded')
            ctx.n('loads.accepted')
    return bad


def refusal(ctx, group, err, what):
    """The error is one that callers can expect (values may be wrong in themselves), and no failure of the reader.  The
    binary reader tells with TypeError that the data ends too early."""
    allowed = (IonException, ValueError, OverflowError) + (() if group == 'text' else (TypeError,))
    if not isinstance(err, allowed):
        ctx.fail('%s: not well-formed, and the reader fails with %s' % (what, describe_error(err)))
    ctx.n('refusals')


def in_comment(data):
    """Whether bytes that are not UTF-8 may all be in comments, which the specification says nothing about."""
    out = []
    s = data.decode('utf-8', 'surrogateescape')
    for c in '\ufffc\ufffd':
        try:
            out.append(keys(TextDec(''.join([c if '\udc80' <= x <= '\udcff' else x for x in s])).decode()))
        except Unsure:
            return True
        except Bad:
            return False
    return out[0] == out[1]


def denoted(s, values):
    """Whether some prefix of a text denotes these values."""
    want = keys(values)
    for i in range(len(s) + 1):
        try:
            if keys(TextDec(s[:i]).decode()) == want:
                return True
        except (Bad, Unsure):
            pass
    return False


def partial(ctx, kind, data, end, tree_values, what):
    """What a truncated stream shows is a prefix of what the whole one shows."""
    pieces = [data[:end]] if end else []
    tree = Tree()
    tree.trace = []
    tree, err = read_pieces(kind, pieces, tree=tree)
    n = len(tree.trace)
    if tree.trace != tree_values[:n]:
        k = 0
        while k < n and k < len(tree_values) and tree.trace[k] == tree_values[k]:
            k += 1
        # In text the token the cut goes through may be another, shorter one, or two ("'''a'''" and "''").
        if kind == 'binary' or k < n - 2:
            ctx.fail('%s cut at %d: event %d is %r, and uncut: %r' % (what, end, k, tree.trace[k:k + 1], tree_values[k:k + 1]))
    return tree, err


def whole_trace(ctx, kind, data, what):
    tree = Tree()
    tree.trace = []
    tree, err = read_pieces(kind, [data] if data else [], tree=tree)
    if err is not None:
        ctx.fail('%s: well-formed, refused with %s' % (what, describe_error(err)))
    return tree.trace


def binary_truncations(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([1, 3, 8, 15]), long_text=0.02, big=0)
    values = g.stream(r.choice([1, 1, 2]))
    data = StreamEnc(r, wild=r.choice([0.1, 0.5]), nops=r.choice([0, 0.1])).stream(values)
    d = BinDec(data)
    d.decode()
    ok = set(d.marks)
    trace = whole_trace(ctx, 'binary', data, 'octets %s' % data.hex())
    ends = range(1, len(data)) if len(data) < 80 else sorted(r.sample(range(1, len(data)), 40))
    for end in ends:
        what = 'octets %s' % data.hex()[:500]
        tree, err = partial(ctx, 'binary', data, end, trace, what)
        ctx.n('truncations')
        if (err is None) != (end in ok):
            # A truncated stream is incomplete, not wrong: the reader asks for more, which read_pieces turns into a flush.
            ctx.fail('%s cut at %d: %s' % (what, end, 'read without an error' if err is None else describe_error(err)))
        ctx.distinct(data[:end])
        if r.random() < 0.1:
            judge(ctx, 'binary', data[:end], 'truncated')


def text_truncations(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([1, 3, 6, 10]), long_text=0, big=0, tricky=0.5)
    values = g.stream(r.choice([1, 1, 2]))
    s = TextEnc(r, wild=r.choice([0.1, 0.5])).stream(values)
    kind = r.choice(['text', 'unicode'])
    data = s if kind == 'unicode' else s.encode('utf-8')
    trace = whole_trace(ctx, kind, data, 'text %s' % ascii(s))
    ends = range(1, len(data)) if len(data) < 50 else sorted(r.sample(range(1, len(data)), 25))
    for end in ends:
        partial(ctx, kind, data, end, trace, 'text %s' % ascii(s)[:500])
        judge(ctx, kind, data[:end], 'truncated', light=r.random() < 0.7)
        ctx.n('truncations')


def binary_mutants(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([1, 3, 6, 12]), long_text=0, big=0)
    values = g.stream(r.choice([1, 2, 3]))
    data = StreamEnc(r, wild=r.choice([0.1, 0.4]), nops=0.1).stream(values)
    for _ in range(8):
        m = mutate(r, data[4:])
        m = IVM + m
        if costly(m):
            continue
        judge(ctx, 'binary', m, 'mutant')


# -- octet by octet ----------------------------------------------------------------------------------------------------
PIECES = [b'', b'\x11', b'\x20', b'\x21\x05', b'\x0f', b'\x00', b'\x01\xff', b'\x71\x04', b'\x71\x63', b'\x81a', b'\x80', b'\x85hello', b'\xb0', b'\xb2\x21\x01',
          b'\xd0', b'\xd2\x84\x10', b'\xd2\x84\x00', b'\xc1\x11', b'\xe3\x81\x84\x11', b'\x44\0\0\0\0', b'\x48\x40\0\0\0\0\0\0\0', b'\x52\xc1\x05', b'\x50',
          b'\x62\x0f\xd0', b'\x63\xc0\x0f\xd0', b'\x65\x80\x0f\xd0\x81\x81', b'\xa1a', b'\x91z', b'\x81', b'\x82', b'\x84', b'\x8a', b'\x01\x81', b'\x7f\xff']


def junk(r, n):
    out = b''
    while len(out) < n:
        out += r.choice(PIECES) if r.random() < 0.7 else bytes([r.getrandbits(8)])
    return out[:n] if r.random() < 0.6 else out


def field(r, n):
    """A length field, sometimes padded, sometimes with a wrong number."""
    if r.random() < 0.25:
        n = max(0, n + r.choice([-2, -1, 1, 2, 5, 100]))
    return varuint(n, r.choice([0, 0, 0, 1, 3]))


def value_octets(r, depth=0):
    """An encoding that is near to legal."""
    x = r.random()
    tid = r.randrange(16)
    if depth < 3 and x < 0.35:
        tid = r.choice([11, 12, 13, 13, 14, 14])
    if tid == 13:
        body = b''
        for _ in range(r.choice([0, 1, 1, 2])):
            body += varuint(r.choice([0, 4, 5, 8, 9, 10, 200]), r.choice([0, 0, 1])) + value_octets(r, depth + 1)
    elif tid == 14:
        sids = b''.join([varuint(r.choice([0, 1, 4, 9, 10, 99]), r.choice([0, 0, 1])) for _ in range(r.choice([0, 1, 1, 1, 2]))])
        body = field(r, len(sids)) + sids + value_octets(r, depth + 1)
    elif tid in (11, 12):
        body = b''.join([value_octets(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))])
    elif tid == 6:
        # UTC, so no shift over the last year
        parts = [r.choice([varint(0, True), varint(0), varint(60), varint(-60), varint(1439), varint(-1439), varint(1440), varint(-1440), varint(3000)]),
                 varuint(r.choice([2000, 1900, 2023, 1, 9999, 0, 10000, 100000])),
                 varuint(r.choice([1, 2, 2, 4, 6, 12, 0, 13])), varuint(r.choice([1, 28, 29, 30, 31, 0, 32])),
                 varuint(r.choice([0, 23, 12, 24])), varuint(r.choice([0, 59, 60])), varuint(r.choice([0, 59, 60, 61])),
                 r.choice([varint(-1), varint(-3), varint(0), varint(1), varint(-6), varint(-9)]),
                 r.choice([b'', b'\x05', b'\x85', b'\x09', b'\x0a', b'\x03\xe7', b'\x03\xe8', b'\x00'])]
        body = b''.join(parts[:r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9])])
    elif tid == 4:
        body = struct.pack('>d', r.choice([1.5, 0.0, -2.0]))[:r.choice([0, 1, 2, 3, 4, 5, 7, 8, 8])]
        body += b'\0' * r.choice([0, 0, 1, 8])
    elif tid == 8:
        body = r.choice([b'', b'a', b'\xff', b'\xc3', b'\xc3\xa9', b'\xed\xa0\x80', b'\xc0\x80', b'\xf4\x90\x80\x80', b'\xe2\x98\x83', b'x' * 14, b'\x80'])
    else:
        body = junk(r, r.choice([0, 0, 1, 1, 2, 3, 8, 14]))
    n = len(body)
    x = r.random()
    if x < 0.12:
        low = r.randrange(16)
        return bytes([tid << 4 | low]) + (field(r, n) if low == 14 else b'') + body
    if x < 0.25 or n > 13:
        return bytes([tid << 4 | 14]) + field(r, n) + body
    if tid == 13 and x < 0.4:
        return b'\xd1' + field(r, n) + body
    return bytes([tid << 4 | n]) + body


def octets(ctx):
    """Type octets with bodies that fit or do not, alone and inside containers and wrappers."""
    r = ctx.rng
    for _ in range(20):
        x = r.random()
        if x < 0.3:
            body = bytes([r.getrandbits(8)]) + junk(r, r.choice([0, 1, 2, 3, 5]))
        else:
            body = b''.join([value_octets(r) for _ in range(r.choice([1, 1, 2]))])
        y = r.random()
        if y < 0.15:
            body = bytes([0xbe]) + field(r, len(body)) + body
        elif y < 0.25:
            body = bytes([0xde]) + field(r, len(body) + 1) + b'\x84' + body
        elif y < 0.35:
            body = bytes([0xee]) + field(r, len(body) + 2) + b'\x81\x84' + body
        data = IVM + r.choice([b'', b'\x21\x01', b'\xb1\x11']) + body + r.choice([b'', b'\x21\x02', b'\x00', b'\x0f'])
        if costly(data):
            continue
        ctx.n('octets')
        judge(ctx, 'binary', data, 'octets')


def markers(ctx):
    """Version markers that are wrong, late or misplaced."""
    r = ctx.rng
    for _ in range(6):
        bad = r.choice([b'\xe0\x01\x01\xea', b'\xe0\x02\x00\xea', b'\xe0\x00\x00\xea', b'\xe0\x01\x00\xeb', b'\xe1\x01\x00\xea', b'\xe0\x01\x00', b'\xe0\x01', b'\xe0',
                        b'\xea\x00\x01\xe0', b'\xe0\x01\x00\xe0', b'\xe0\x01\x00\x00', b'\xe0\xff\xff\xea', bytes([0xe0] + [r.getrandbits(8) for _ in range(3)])])
        good = value_octets(r) if r.random() < 0.3 else r.choice(PIECES)
        x = r.random()
        if x < 0.3:
            data = bad + good
        elif x < 0.6:
            data = IVM + good + bad + r.choice(PIECES)
        elif x < 0.65:
            data = IVM + b'\xb4' + IVM
        elif x < 0.7:
            # Within containers in one another, alone or after other values.
            body = r.choice([b'', b'', b'\x21\x01', b'\x0f']) + IVM
            for _ in range(r.randint(1, 6)):
                t = r.choice([0xb0, 0xc0, 0xd0])
                body = (b'\x84' if t == 0xd0 else b'') + body
                body = (bytes([t | len(body)]) if len(body) < 14 else bytes([t | 14, 0x80 | len(body)])) + body
                if r.random() < 0.2:
                    body = b'\xee' + bytes([0x80 | (len(body) + 2)]) + b'\x81\x84' + body
                if r.random() < 0.2:
                    body = b'\x21\x02' + body
            data = IVM + body
        elif x < 0.8:
            data = IVM + b'\xd5\x84' + IVM
        elif x < 0.9:
            data = IVM + b'\xe6\x81\x84' + IVM
        else:
            data = good + IVM
        if costly(data):
            continue
        judge(ctx, 'binary', data, 'version marker')
    for _ in range(4):
        v = r.choice(['$ion_1_1', '$ion_2_0', '$ion_0_1', '$ion_1_10', '$ion_10_0', '$ion_1_', '$ion_1', '$ion_', '$ion', "'$ion_2_0'", '$ion_1_0', '$ion_1_0_0', 'x::$ion_2_0',
                      '$ion_1_01', '$ion_01_0', '[$ion_1_1]', '{a:$ion_9_9}', '$ion_%d_%d' % (r.randint(0, 30), r.randint(0, 30)), 'a::$ion_1_1 b', '$ion_1_0 $ion_1_1'])
        s = r.choice(['', '1 ', 'a\n']) + v + r.choice(['', ' 2', '\n', '//c\n', ' // c', ' [1]'])
        kind = r.choice(['text', 'unicode'])
        judge(ctx, kind, s.encode('utf-8') if kind == 'text' else s, 'version marker')


# -- symbols -----------------------------------------------------------------------------------------------------------
def odd_table(r, g):
    """A symbol table struct with odd and bad parts."""
    def some():
        return r.choice([V(NULL), V(STRING, 'x'), V(STRING, ''), V(STRING), V(INT, 1), V(INT, 0), V(INT, -1), V(INT), V(LIST, []), V(LIST), V(LIST, [V(STRING, 'y')]),
                         V(SYMBOL, '$ion_symbol_table'), V(SYMBOL, 'name'), V(STRUCT, []), V(STRUCT), V(SEXP, [V(STRING, 'z')]), V(BOOL, True), V(FLOAT, 1.0)])

    def imp():
        fields = []
        if r.random() < 0.85:
            fields.append(('name', V(STRING, r.choice(['t', 't', 'u', 'missing', '', '$ion'])) if r.random() < 0.8 else some()))
        if r.random() < 0.6:
            fields.append(('version', V(INT, r.choice([1, 1, 2, 3, 0, -1])) if r.random() < 0.8 else some()))
        if r.random() < 0.6:
            fields.append(('max_id', V(INT, r.choice([0, 1, 2, 3, 5, -1])) if r.random() < 0.8 else some()))
        r.shuffle(fields)
        return V(STRUCT, fields)
    fields = []
    for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
        x = r.random()
        if x < 0.5:
            v = V(LIST, [imp() if r.random() < 0.85 else some() for _ in range(r.choice([0, 1, 1, 2]))])
        elif x < 0.75:
            v = V(SYMBOL, '$ion_symbol_table')
        else:
            v = some()
        fields.append(('imports', v))
    for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
        fields.append(('symbols', V(LIST, [V(STRING, r.choice(['a', 'b', 'name', 'a', ''])) if r.random() < 0.7 else some() for _ in range(r.choice([0, 1, 2, 3]))])
                       if r.random() < 0.85 else some()))
    if r.random() < 0.2:
        fields.append((r.choice(['name', 'version', 'max_id', SYM0]), some()))
    r.shuffle(fields)
    return V(STRUCT, fields, ('$ion_symbol_table',) + r.choice([(), (), ('name',)]))


CATALOG = {('t', 1): ['one', 'two'], ('t', 2): ['one', 'two', 'three'], ('u', 1): ['alpha', 'beta', 'gamma']}


def catalogs():
    from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table
    c = Catalog()
    real = SymbolTableCatalog()
    for (n, v), symbols in CATALOG.items():
        c.add(n, v, symbols)
        real.register(shared_symbol_table(n, v, symbols))
    return c, real


def tables(ctx):
    """Symbol tables with bad parts, and symbol IDs at the limits of what they define."""
    r = ctx.rng
    g = Gen(r)
    from ..symref import apply_lst
    c, real = catalogs()
    if r.random() < 0.15:
        c, real = Catalog(), None
    table = Table()
    system = Table().index()
    text = r.random() < 0.4
    out = []
    e = BinEnc(r, lambda s: system[s], 0.2, 0.03)
    broken = False
    for _ in range(r.choice([1, 1, 2, 3])):
        lst = odd_table(r, g)
        if text:
            t = TextEnc(r, None, 0.2)
            o = t.begin()
            t.top(o, lst)
            out.append(t.end(o) + '\n')
        else:
            out.append(e.value(lst))
        try:
            table = apply_lst(lst, table, c)
        except (Bad, Unsure):
            broken = True
        top = table.max_id
        for _ in range(r.choice([1, 2])):
            sid = r.choice([0, 1, 9, 10, top, top, top, top + 1, r.randint(1, top + 2), top + 100])
            if r.random() < 0.7:
                sid = min(sid, top)
            x = r.random()
            if text:
                s = '$%d' % sid
                out.append(r.choice(['%s ', '%s ', '%s::1 ', '[%s] ', '{%s:1} ', '(%s) ', '{x:%s::2} ', 'a::%s ']) % s)
            else:
                b = bytes([0x70 | len(uint(sid))]) + uint(sid)
                if x < 0.5:
                    out.append(b)
                elif x < 0.65:
                    k = varuint(sid)
                    out.append(bytes([0xee]) + varuint(len(k) + 2) + varuint(len(k)) + k + b'\x11')
                elif x < 0.8:
                    k = varuint(sid)
                    out.append(bytes([0xde]) + varuint(len(k) + 1) + k + b'\x11')
                else:
                    out.append(bytes([0xb0 | len(b)]) + b)
        if r.random() < 0.15:
            out.append('$ion_1_0\n' if text else IVM)
            table = Table()
    if text:
        s = ''.join(out)
        kind = r.choice(['text', 'unicode'])
        d = s if kind == 'unicode' else s.encode('utf-8')
        bad = judge(ctx, kind, d, 'tables', c, real)
    else:
        bad = judge(ctx, 'binary', IVM + b''.join(out), 'tables', c, real)
    ctx.n('tables')
    if bad is not None:
        ctx.n('tables.rejected')


# -- text --------------------------------------------------------------------------------------------------------------
BROKEN = r"""
1__0 _1. 1_ 0x 0b 0x_1 0x1_ 0b2 0b1_ 0xg 01 -01 00 -00 007 1.0_ 1._0 1_.0 1.0.0 1e 1d 1e+ 1d- 1e1.0 1e1e1 1d1d1 1e_1 --1 -+1 - -- 0x1.0 0b1e0x 1E 1D 0_1 +1 -_1 1a 1null
-a 1.a 0xx 1eE 1e--1 1ee1 .5 -.5 1n 12:30 0x-1 - 1 -0x -0b 1e1_ 1.5_ 0_ 1__1.0 1.0__1
2001 2001-01 2001-1-01 2001-01-1 2001-13-01 2001-00-01 2001-01-00 2001-01-32 2001-02-29 1900-02-29 2100-02-29 2000-02-30 2001-04-31 0000-01-01 0000T 2001-01-01T00:00 2001-01-01T24:00Z 2001-01-01T00:60Z
2001-01-01T00:00:60Z 2001-01-01T00:00:00 2001-01-01T00:00:00. 2001-01-01T00:00:00.Z 2001-01-01T00:00+24:00 2001-01-01T00:00+00:60 2001-01-01T0:00Z 2001-01-01T00:0Z
2001-01-01T00:00z 2001-01-01t00:00Z 2001-01-01T00:00:0Z 2001-01-01T00:00+1:00 2001-01-01T00:00+0100 2001-01-01T00Z 20010101T 2001-01T00:00Z 2001T00:00Z 2001-01-01T00:00Z1
12001T 201T 2001-01-01T00:00-24:00 2001-01-01T00:00:00.1+ 2001-01-01T00:00:00.1_0Z 2001_01T 2001-01-01T00:00:00,5Z 2001-01-01T00:00-00:60 2001-01- 2001- 2001-01-01T00: 2001-01-01T00:00: 2001-01-01T00:00:00+
2001-01-01T00:00:00.0e1Z 2001-01-01TZ 2001T- 2001-01TZ 2001-06-31 2001-09-31T 2001-11-31T00:00Z 2001-02-29T00:00Z 2001-02-29T23:59:59.9999Z 9999-99-99 10000-01-01T 2001-01-01T00:00:61.5Z 2001-01-01T23:59:60.0-00:00
null. null.x null.nulll null.ints null.Null null.int1 null.int_ null.int.x null.string$ null.list.list null.1 null.'int' null.structs null.sym null.in null.t null.bo null.floa null.decima null.timestam null.clo null.sex null.ann null..int
null.symbols null.symb null.s null.b null.l null.c null.boole null.timestamps
"\q" "\x" "\x1" "\xg0" "\u" "\u123" "\u12g4" "\U" "\U0010ffff0 "\U00110000" "\U1234567" "\ " "\N" "\8" "\1" "\c" "\xZZ" '\q' '\x1' '\u123' '\U00110000' '\z' '''\q''' '''\u12''' '''\x1'''
"a b' " ' "a 'a '''a '''a'' '''a' "" "a" b" "\" '\' '''\'''
{{ {{} {{a}} {{aa}} {{aaa}} {{a===}} {{====}} {{aa=a}} {{=aaa}} {{aaaa=}} {{aGk=aGk=}} {{aGk}} {{aG==k}} {{aGk!}} {{aGk=} {{aG-=}} {{aG_=}} {{"a} {{"a"} {{"a"b}} {{"a""b"}} {{a"b"}} {{'a'}} {{''a''}} {{'''a}} {{'''a'''b}} {{"\u0041"}} {{"\U00000041"}}
{{'''\u0041'''}} {{"a"//c
}} {{/**/aGk=}} {{aGk=//
}} {{"a"/**/}} {{'''a'''/**/'''b'''}} {{'''a'''//c
'''b'''}} {{{}} {{[}} {{aGk=}}} {{,}} {{aGk:}} {{null}} {{"\xZ"}} {{"é"}} {{é}} {{'''é'''}} {{a a a}} {{aGk= =}} } }} { a:1}}
[ ] ( ) { } [1 (1 {a:1 [1} (1] {a:1) [1,,2] [,1] [,] [1 2] [:] [a:1] (1,2) (,) (a:1) {a} {a:} {:1} {1:2} {a 1} {a:1 b:2} {a:1,,b:2} {,a:1} {,} {"a" "b":1} {a::b:1} {'''a''' b:1} {a:b:c} {null:1} {true:1} {nan:1} {false:1} {null.int:1}
{a:1,} [1,] {a:1:2} {(a):1} {[a]:1} {a:::1} {+:1} {a+:1} {-a:1} {a:,b:1} {+inf:1} {-inf:1} {a:1;b:2} {{a:1}} {"a":"b" "c"} {"a":'''b''' "c"} {'a' 'b':1} {1.5:1} {2001T:1} {$:1} {$ion_1_0:1} {a:}} [}] {)} ([)] ({a:1)} [{]} {a:[} {a:1
a:: a::] [a::] (a::) {x:a::} {a::1} a::,1 ::1 :1 : a:1 a: a:b a : :1 a::: a::: 1 a::::1 "a"::1 '''a'''::1 1::1 1.5::1 2001T::1 null::1 true::1 false::1 nan::1 null.int::1 +inf::1 []::1 ()::1 {}::1 +::1 a::b:: {{}}::1 a::b: a::/* a::// a::}
, ; ? @ # % & = ~ ` ! ^ | < > + * . / \ %% 1,2 a,b 1;2 a; [1;2] [+] [a+b] [-] {a:+} {a:*b} [.] {a:/} [@] (@) (\) (`) (a;b) (a~b) [a|b] (,) (a , b) (') ("
/* /*/ /** /***  /*a // /*a*/ */ 1 /*b 1 / 2 /a /
$ $1a $ion_ $99 $10 $4294967296 [$77] {$12:1} $10::1 ($10) $9999999999999999999 a::$10 {a:$10} {a:$10::b} 'a'$10
tru fals truee nul NULL True nan1 +nan -nan +in -in inf +infx -infinity +Inf -INF + inf ++inf +-inf null,1 [null.] {a:null.} (null.) [+in] [-i] {a:+infa} (+infa) [+nan]
a\b a"b 'a'b' a'b "a"b" 1'a 1"a" [a"b"] [a'b'] ['a''b'] {a:"b"c:1} ["a""b"] ["a" '''b'''] ['''a''' "b"] ['''a'''b] [1'''a'''] {'''a''':'''b'''c} ['''a''' '''b'''c]
"""

CHARS = ['\x00', '\x01', '\x07', '\x08', '\x1f', '\x7f', '\x0e', '\x1a', '\x1b', '\x0b', '\x0c', '\n', '\r', '\t', '\r\n', '\x80', '\xa0', '\u2028', '\ufeff', '\u3000', '\xe9', '\U0001f600', '\\', '#', '@', '`', '?', ';', '~', '%', '^', '&', '|', '=', '!', '<', '>', '*', '+', '/', '.', '-', ',', ':', '::', '"', "'", "'''", '$', '_', '{', '}', '(', ')', '[', ']', '{{', '}}', '//', '/*', '*/']

SLOTS = ['%s', '%s', '1 %s', '%s 1', 'a::%s', '[%s]', '[1, %s]', '[%s, 1]', '(%s)', '(1 %s 2)', '{f:%s}', '{f:%s, g:1}', '{a:1, f: %s}', '{%s:1}', '%s::1', '[[%s]]', '{a:[%s]}',
         '({a:%s})', "'''a''' %s", '"s" %s', '%s // c', '%s /* c */', '[a, b::%s]', '%s\n', '\t%s\r\n2', '{"f":%s}', "{'f':x::%s}", '(a %s)', '{{%s}}', '{{"%s"}}', "{{'''%s'''}}", '"%s"', "'%s'", "'''%s'''",
         'x%s', '%sx', '1%s', '%s1', '0x%s', '2001-01-01T00:00:00%s', '1.%s', '1e%s', 'null.%s', '"\\%s"', "{'''a''':%s}", '[1,2,3]%s', '/*c*/%s//d']


def place(ctx, body, what):
    r = ctx.rng
    s = r.choice(SLOTS).replace('%s', body)
    kind = r.choice(['text', 'unicode'])
    return judge(ctx, kind, s.encode('utf-8') if kind == 'text' else s, what)


PARTS = None


def broken(ctx):
    """Broken tokens and characters in every context."""
    global PARTS
    if PARTS is None:
        PARTS = BROKEN.replace('\n', ' ').split(' ')
        PARTS = [p for p in PARTS if p] + ["{{'''a'''//c\n'''b'''}}", '{{"a"//c\n}}', '{{aGk=//\n}}', 'null .int', 'null. int', '- 1', '1 . 5', '{ { aGk= } }', '{{aGk=} }', '{ {aGk=}}', 'a : : 1', "''' '", "a::\n", "a:: ", '2001 -01-01', "'''a'''::\n1", '"a"\n::1',
                                           '"a\nb"', "'a\nb'", '"a\rb"', '{{"a\nb"}}', '"a\\\rb', "[1 ", "{a ", "{a: ", "(a:: ", "[a, ", '"a\x00b"', '"a\x1fb"', "'a\x07b'", "'''a\x00b'''", "{{\"a\x00\"}}", "{{'''a\x00'''}}"]
    r = ctx.rng
    for _ in range(20):
        x = r.random()
        if x < 0.6:
            place(ctx, r.choice(PARTS), 'broken token')
        elif x < 0.8:
            place(ctx, r.choice(CHARS) + r.choice(['', '', 'a', '1', ' ', r.choice(CHARS)]), 'character')
        else:
            a, b = r.choice(PARTS), r.choice(PARTS + TOKENS)
            place(ctx, a + r.choice(['', ' ', ',', ':', '\n']) + b, 'broken tokens')


def soup(ctx):
    r = ctx.rng
    for _ in range(20):
        s = ''.join([r.choice(TOKENS) + r.choice(['', ' ', '']) for _ in range(r.randint(1, 9))])
        kind = r.choice(['text', 'unicode'])
        judge(ctx, kind, s.encode('utf-8') if kind == 'text' else s, 'tokens')


def text_mutants(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([1, 3, 6]), long_text=0, big=0, tricky=r.choice([0.2, 0.6]))
    values = g.stream(r.choice([1, 1, 2]))
    s = TextEnc(r, wild=r.choice([0.2, 0.5])).stream(values)
    for _ in range(8):
        m = list(s)
        for _ in range(r.choice([1, 1, 1, 2])):
            i = r.randrange(len(m) + 1)
            x = r.random()
            if x < 0.5:
                m[i:i] = [r.choice(CHARS) if r.random() < 0.3 else r.choice('{}[]()\'",:;/*\\ \n\r\t_-+.0123456789abdefnuxT$Zz=')]
            elif x < 0.8 and i < len(m):
                del m[i:i + r.choice([1, 1, 2, 9])]
            elif i < len(m):
                m[i] = r.choice('{}[]()\'",:/*\\ \n_-+.019abeT$Z\x00\x7f')
        m = ''.join(m)
        kind = r.choice(['text', 'unicode'])
        judge(ctx, kind, m.encode('utf-8') if kind == 'text' else m, 'mutant')


BADUTF = [b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc3', b'\xc3\x28', b'\xe2\x98', b'\xe2\x28\xa1', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf0\x9f\x98', b'\xf0\x80\x80\x80', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe',
          b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xf0\x28\x8c\xbc', b'\xc3\xc3', b'\xe2\x82\xe2', b'\xed\xa0\x80\xed\xb0\x80', b'\xf7\xbf\xbf\xbf']
GOODUTF = [b'a', b'\xc2\x80', b'\xdf\xbf', b'\xe0\xa0\x80', b'\xed\x9f\xbf', b'\xee\x80\x80', b'\xef\xbf\xbf', b'\xf0\x90\x80\x80', b'\xf4\x8f\xbf\xbf', b'z']


def utf8(ctx):
    """Bytes that are not UTF-8 inside strings, symbols and field names, in text and binary."""
    r = ctx.rng
    for _ in range(10):
        good = r.random() < 0.15
        body = b''.join([r.choice(GOODUTF) for _ in range(r.choice([0, 1, 2]))]) + (b'' if good else r.choice(BADUTF)) + b''.join([r.choice(GOODUTF) for _ in range(r.choice([0, 1, 2]))])
        try:
            body.decode('utf-8')
            good = True
        except UnicodeDecodeError:
            good = False
        if r.random() < 0.6:
            t = r.choice([b'"%s"', b"'%s'", b"'''%s'''", b'["%s"]', b"{'%s':1}", b'{"%s":1}', b"{'''%s''':1}", b"'%s'::1", b'1 "%s" 2', b"('%s')", b'{a:"%s"}', b"'''a''' '''%s'''", b'"x', b'%s', b'[%s]', b'a%s', b'(%s)', b'{%s:1}', b'{{%s}}', b'{{"%s"}}'])
            data = t.replace(b'%s', body)
            if judge(ctx, 'text', data, 'UTF-8') is not None:
                ctx.n('utf8.rejected')
        else:
            s = bytes([0x80 | len(body)]) + body if len(body) < 14 else b'\x8e' + varuint(len(body)) + body
            x = r.random()
            if x < 0.5:
                out = s
            elif x < 0.75:
                out = b'\xbe' + varuint(len(s)) + s
            else:
                # the text of a symbol
                sym = b'\xbe' + varuint(len(s)) + s
                body2 = b'\x87' + sym
                lst = b'\xde' + varuint(len(body2)) + body2
                out = b'\xee' + varuint(len(lst) + 2) + b'\x81\x83' + lst + b'\x71\x0a'
            if judge(ctx, 'binary', IVM + b'\x11' + out, 'UTF-8') is not None:
                ctx.n('utf8.rejected')


def tokens(ctx):
    """Strings over the alphabet of one kind of token."""
    r = ctx.rng
    alphabet = r.choice(ALPHABETS)
    name = alphabet[0]
    for _ in range(20):
        s = near_text(r, alphabet)
        kind = r.choice(['text', 'unicode'])
        if judge(ctx, kind, s.encode('utf-8') if kind == 'text' else s, name) is None:
            ctx.n(name + '.not-rejected')
        ctx.n('tokens')


FAMILIES = [('binary-truncations', binary_truncations, 700), ('text-truncations', text_truncations, 700), ('binary-mutants', binary_mutants, 1500),
            ('octets', octets, 900), ('markers', markers, 400), ('tables', tables, 2500), ('broken', broken, 900), ('soup', soup, 500),
            ('text-mutants', text_mutants, 1000), ('utf8', utf8, 500), ('tokens', tokens, 1500)]
