from collections import Counter
from datetime import datetime, timedelta
from decimal import Decimal, Inexact, Rounded, localcontext

from amazon.ion.equivalence import ion_equals
from amazon.ion.simpleion import dumps, load, loads
from ..common import *
from ..gen import days_in, _ordinal_minutes

RULE = ('Groups of six to nine values are made from one random value: the same value by different routes (native Python forms, Ion-typed '
        'objects built by hand, loaded from text and from binary, fields in another order, symbols with other IDs) and near misses (one '
        'leaf, type, annotation, sign, digit, precision, offset or field changed).  Every ordered pair of a group is compared in both '
        'timestamp modes and the answer set against an independent statement of equality in the data model; every triple of Ion-typed '
        'values is checked for transitivity.  Distinct: different shapes of the compared pair together with the answer and mode.')
ASSUMPTIONS = ['a native str stands for a string or a symbol, bytes for a clob or a blob, a list or tuple for a list or an s-expression, as '
               'the documentation of the comparison and its tests have it; native str, bytes, lists and tuples are not put among '
               'the repeated values of one field',
               'field names of structs are text or symbol zero; decimals are finite']
MIN = {'natives': 600, 'pairs': 60000, 'equal': 15000, 'unequal': 20000, 'equal.native-ion': 1500, 'equal.native': 500, 'near-miss': 9000, 'triples': 20000,
       'instants.only-equal': 300, 'loaded': 3000, 'timestamps.pairs': 3000}
THOROUGH = 20

# A node is ('ion', t, ann, payload) or ('py', kind, payload); lists hold nodes, structs (name, node) pairs.
KINDS = {'none': (NULL,), 'bool': (BOOL,), 'int': (INT,), 'float': (FLOAT,), 'decimal': (DECIMAL,), 'ts': (TIMESTAMP,), 'str': (STRING, SYMBOL),
         'token': (SYMBOL,), 'bytes': (CLOB, BLOB), 'seq': (LIST, SEXP), 'dict': (STRUCT,)}


def sym_key(s):
    return ('?',) if not isinstance(s, str) and s[0] == '?' else s


def instant(ts):
    p, y, mo, d, h, mi, s, f, off = ts
    c, n = f if f is not None else (0, 0)
    secs = (_ordinal_minutes(y, mo, d, h, mi) - (off or 0)) * 60 + s
    while n and c % 10 == 0:
        c, n = c // 10, n - 1
    return (secs, c, n)


def scalar_same(t, a, b, instants):
    if t == TIMESTAMP and instants:
        return instant(a) == instant(b)
    if t == SYMBOL or t == STRING:
        return sym_key(a) == sym_key(b)
    if t == FLOAT:
        return float_key(a) == float_key(b)
    if t == BOOL:
        return bool(a) == bool(b)
    return a == b


def types(n):
    return (n[1],) if n[0] == 'ion' else KINDS[n[1]]


def payload(n):
    return n[3] if n[0] == 'ion' else n[2]


def equal(a, b, instants):
    """Equality in the data model."""
    common = [t for t in types(a) if t in types(b)]
    if not common:
        return False
    if [sym_key(s) for s in (a[2] if a[0] == 'ion' else ())] != [sym_key(s) for s in (b[2] if b[0] == 'ion' else ())]:
        return False
    x, y = payload(a), payload(b)
    if x is None or y is None:
        return x is None and y is None
    t = common[0]
    if t in (LIST, SEXP):
        return len(x) == len(y) and all(equal(c, d, instants) for c, d in zip(x, y))
    if t == STRUCT:
        if Counter(n for n, _ in x) != Counter(n for n, _ in y):
            return False
        for name in set(n for n, _ in x):
            rest = [d for n, d in y if n == name]
            for c in [c for n, c in x if n == name]:
                for i, d in enumerate(rest):
                    if equal(c, d, instants):
                        del rest[i]
                        break
                else:
                    return False
        return True
    return scalar_same(t, x, y, instants)


def nodes(v):
    """The all-Ion node of a value."""
    p = v.v
    if p is not None:
        if v.t in (LIST, SEXP):
            p = [nodes(c) for c in p]
        elif v.t == STRUCT:
            p = [(n, nodes(c)) for n, c in p]
    return ('ion', v.t, v.ann, p)


def nativize(v, r, prob, loose=True):
    """A node with some parts in native form."""
    repeated = lambda names, n: names.count(n) > 1
    kind = None
    t = v.t
    if r.random() < prob and not v.ann:
        if v.v is None:
            kind = 'none' if t == NULL else None
        elif t in (BOOL, INT, FLOAT, DECIMAL, TIMESTAMP):
            kind = ['bool', 'int', 'float', 'decimal', 'ts'][t - BOOL]
        elif t == SYMBOL:
            kind = 'token' if not loose or not isinstance(v.v, str) or r.random() < 0.5 else 'str'
        elif loose and t == STRING:
            kind = 'str'
        elif loose and t in (CLOB, BLOB):
            kind = 'bytes'
        elif loose and t in (LIST, SEXP):
            kind = 'seq'
        elif t == STRUCT and len(set(n for n, _ in v.v)) == len(v.v):
            kind = 'dict'
    p = v.v
    if p is not None:
        if t in (LIST, SEXP):
            p = [nativize(c, r, prob, loose) for c in p]
        elif t == STRUCT:
            names = [n for n, _ in p]
            p = [(n, nativize(c, r, prob, loose and not repeated(names, n))) for n, c in p]
    return ('py', kind, p) if kind else ('ion', t, v.ann, p)


def tok(s, r):
    if isinstance(s, str):
        return r.choice([s, SymbolToken(s, None), SymbolToken(s, 17), SymbolToken(s, 18, ImportLocation('somewhere', 2))])
    return tok_unknown(s, r)


def tok_unknown(s, r):
    if s == SYM0:
        return SymbolToken(None, 0)
    if s[0] == '?':
        return SymbolToken(None, r.choice([s[1], 10, 999]))
    return SymbolToken(None, r.choice([10, 44]), ImportLocation(s[1], s[2]))


def ts_object(v, r, native):
    p, y, mo, d, h, mi, s, f, off = v
    if native and p == SECOND and f is not None and f[1] == 6 and r.random() < 0.6:
        return datetime(y, mo, d, h, mi, s, f[0], tz(off))
    if p == SECOND and r.random() < 0.15:
        # Without an explicit precision.
        return Timestamp(y, mo, d, h, mi, s, None, tz(off), fractional_seconds=None if f is None else fraction_decimal(f))
    return make_timestamp(v, r)


def build(n, r):
    """The Python object of a node."""
    if n[0] == 'py':
        kind, p = n[1:]
        if kind == 'seq':
            return (list if r.random() < 0.7 else tuple)([build(c, r) for c in p])
        if kind == 'dict':
            items = [(k if isinstance(k, str) else None, build(c, r)) for k, c in p]
            r.shuffle(items)
            return dict(items)
        if kind == 'decimal':
            return make_decimal(p)
        if kind == 'ts':
            return ts_object(p, r, True)
        if kind == 'token':
            x = tok(p, r)
            return x if isinstance(x, SymbolToken) else SymbolToken(x, None)
        if kind == 'bool':
            return bool(p)
        return p
    _, t, ann, p = n
    ann = [tok(a, r) for a in ann]
    if r.random() < 0.7:
        ann = tuple(ann)
    if p is None:
        return IonPyNull.from_value(ITYPE[t], None, ann)
    if t in (LIST, SEXP):
        return IonPyList.from_value(ITYPE[t], [build(c, r) for c in p], ann)
    if t == STRUCT:
        d = IonPyDict.from_value(IonType.STRUCT, {}, ann)
        items = list(p)
        if r.random() < 0.7:
            r.shuffle(items)
        for k, c in items:
            d.add_item(k if isinstance(k, str) else None, build(c, r))
        return d
    if t == SYMBOL:
        if isinstance(p, str) and r.random() < 0.3:
            return IonPyText.from_value(IonType.SYMBOL, p, ann)
        return IonPySymbol.from_value(IonType.SYMBOL, tok(p, r), ann)
    if t == DECIMAL:
        p = make_decimal(p)
    elif t == TIMESTAMP:
        p = ts_object(p, r, True)
    elif t == BOOL and r.random() < 0.3:
        p = int(p)
    return PY[t].from_value(ITYPE[t], p, ann)


def near_scalar(r, t, v):
    """Another payload, as close as possible."""
    if t == BOOL:
        return t, not v
    if t == INT:
        return r.choice([(INT, v + 1), (INT, -v), (BOOL, bool(v)), (FLOAT, float(v) if abs(v) < 10 ** 300 else 0.5), (DECIMAL, (v < 0, abs(v), 0)), (INT, v ^ (1 << 64))])
    if t == FLOAT:
        import struct
        if v != v:
            return r.choice([(FLOAT, float('inf')), (FLOAT, 0.0), (SYMBOL, 'nan'), (STRING, 'nan')])
        if v in (float('inf'), float('-inf')):
            return FLOAT, r.choice([-v, 1.7976931348623157e308, float('nan')])
        bits = struct.unpack('>Q', struct.pack('>d', v))[0] ^ r.choice([1, 1 << 63, 1 << 63])
        out = [(FLOAT, struct.unpack('>d', struct.pack('>Q', bits))[0])]
        if v == int(v):
            out += [(INT, int(v)), (DECIMAL, (v < 0, abs(int(v)), 0))]
        return r.choice(out)
    if t == DECIMAL:
        neg, c, e = v
        return r.choice([(DECIMAL, (not neg, c, e)), (DECIMAL, (neg, c * 10, e - 1)), (DECIMAL, (neg, c, e + 1)), (DECIMAL, (neg, c + 1, e)), (DECIMAL, (neg, c * 1000, e - 3)),
                         (INT, c if 0 <= e < 50 and not neg else 7), (FLOAT, float(c) if c < 10 ** 300 else 1.0)])
    if t == TIMESTAMP:
        return TIMESTAMP, near_timestamp(r, v)
    if t in (STRING, SYMBOL):
        if not isinstance(v, str):
            if isinstance(v, tuple) and v[0] == '$' and r.random() < 0.6:
                return SYMBOL, ('$', v[1], max(1, v[2] + r.choice([-1, 1, 1, 256, 1000])))
            return SYMBOL, r.choice([SYM0, ('?', 10), ('$', 'x', 1), ('$', 'x', 2), ('$', 'y', 1), ('$', 'x', int(10 ** r.uniform(1, 6))), 'None', ''])
        return r.choice([(STRING + SYMBOL - t, v), (t, v + 'a'), (t, v[:-1]), (t, v.swapcase()), (CLOB, v.encode('utf-8')[:20]), (SYMBOL, ('?', 11))])
    return r.choice([(CLOB + BLOB - t, v), (t, v + b'\0'), (t, v[:-1]), (STRING, 'x')])


def near_timestamp(r, v):
    from ..gen import utc_in_range
    p, y, mo, d, h, mi, s, f, off = v
    for _ in range(20):
        op = r.randrange(8)
        w = v
        if op == 0 and p >= MINUTE:
            w = (p, y, mo, d, h, mi, s, f, r.choice([None, 0, off and -off, (off or 0) + 1]))
        elif op == 1 and p >= MINUTE:
            # The same instant with another offset.
            k = r.choice([-60, 60, 1, -1, -30, 720])
            w = shift(v, k)
        elif op == 2 and p == SECOND:
            w = (p, y, mo, d, h, mi, s, r.choice([None, (0, 6), (0, 3), (0, 1), (0, 9)]), off)
        elif op in (3, 4) and p == SECOND and f is not None:
            c, n = f
            w = (p, y, mo, d, h, mi, s, r.choice([(c * 10, n + 1), (c * 10, n + 1), ((c + 1) % 10 ** n, n), (c * 10 ** 7 + 1, n + 7), (c * 1000, n + 3)]), off)
        elif op == 5:
            q = r.choice([x for x in (YEAR, MONTH, DAY, MINUTE, SECOND)])
            if q < p:
                w = (q, y, mo if q >= MONTH else 1, d if q >= DAY else 1, h if q >= MINUTE else 0, mi if q >= MINUTE else 0, 0, None, off if q >= MINUTE else None)
            else:
                w = (q, y, mo, d, h, mi, s, f, off)
        elif op == 6 and p >= DAY:
            w = (p, y, mo, d % days_in(y, mo) + 1, h, mi, s, f, off)
        elif op == 7 and p == SECOND:
            w = (p, y, mo, d, h, mi, (s + 1) % 60, f, off)
        if w != v and (w[8] is None or abs(w[8]) < 1440) and utc_in_range(w):
            return w
    return (YEAR, y % 9999 + 1, 1, 1, 0, 0, 0, None, None)


def shift(v, k):
    """The same instant with an offset k minutes larger."""
    p, y, mo, d, h, mi, s, f, off = v
    try:
        x = datetime(y, mo, d, h, mi) + timedelta(minutes=k)
    except OverflowError:
        return v
    return (p, x.year, x.month, x.day, x.hour, x.minute, s, f, (off or 0) + k)


def near(r, v):
    """A value that differs from v in one place (mostly)."""
    places = list(walk(v))
    target = r.choice(places)[0]

    def go(x):
        if x is target:
            return change(x)
        if x.v is None:
            return x
        if x.t in (LIST, SEXP):
            return V(x.t, [go(c) for c in x.v], x.ann)
        if x.t == STRUCT:
            return V(x.t, [(n, go(c)) for n, c in x.v], x.ann)
        return x

    def change(x):
        op = r.random()
        if op < 0.25:
            a = list(x.ann)
            k = r.random()
            if not a or k < 0.3:
                a.insert(r.randint(0, len(a)), r.choice(['a', 'b', ('?', 10), SYM0, ('$', 'x', r.choice([1, 300]))]))
            elif k < 0.6 and len(a) > 1:
                i, j = r.sample(range(len(a)), 2)
                a[i], a[j] = a[j], a[i]
            elif k < 0.8:
                del a[r.randrange(len(a))]
            else:
                a[r.randrange(len(a))] = r.choice(['a', 'c', ('?', 11), SYM0, ('$', 'x', r.choice([1, 2, 301]))])
            return V(x.t, x.v, a)
        if x.v is None:
            return V(r.randrange(13), None, x.ann) if r.random() < 0.7 else V(BOOL, False, x.ann)
        if op < 0.3:
            return V(x.t, None, x.ann)
        if op < 0.35 and x.t >= LIST:
            return V(r.choice([LIST, SEXP]), [c[1] if x.t == STRUCT else c for c in x.v], x.ann)
        if x.t < LIST:
            t, p = near_scalar(r, x.t, x.v)
            return V(t, p, x.ann)
        kids = list(x.v)
        k = r.random()
        if not kids or k < 0.2:
            new = V(r.choice([NULL, INT]), None, ())
            kids.insert(r.randint(0, len(kids)), (r.choice(['a', 'b', '']), new) if x.t == STRUCT else new)
        elif k < 0.35:
            del kids[r.randrange(len(kids))]
        elif k < 0.5:
            kids.insert(r.randint(0, len(kids)), r.choice(kids))
        elif k < 0.7 and len(kids) > 1:
            i, j = r.sample(range(len(kids)), 2)
            if x.t == STRUCT and r.random() < 0.6:
                kids[i], kids[j] = (kids[i][0], kids[j][1]), (kids[j][0], kids[i][1])
            else:
                kids[i], kids[j] = kids[j], kids[i]
        elif x.t == STRUCT:
            i = r.randrange(len(kids))
            kids[i] = (r.choice([n for n, _ in kids] + ['zz', '']), kids[i][1])
        else:
            kids[r.randrange(len(kids))] = r.choice(kids)
        return V(x.t, kids, x.ann)
    return go(v)


def known_only(v):
    return all(isinstance(s, str) or s == SYM0 for s in symbols_of(v))


def names_ok(v):
    """Field names that are neither text nor symbol zero are made text."""
    if v.v is None:
        return v
    if v.t in (LIST, SEXP):
        return V(v.t, [names_ok(c) for c in v.v], v.ann)
    if v.t == STRUCT:
        return V(v.t, [(n if isinstance(n, str) or n == SYM0 else 'f', names_ok(c)) for n, c in v.v], v.ann)
    return v


def load_it(ctx, v):
    """The object load makes of the value, from text or binary, through the library's or an independent encoder."""
    r = ctx.rng
    g = Gen(r)
    v = V(v.t, v.v, v.ann)
    g.fix_top(v)
    ctx.n('loaded')
    x = r.random()
    if x < 0.3:
        return v, loads(StreamEnc(r, wild=0.2, nops=0.02).stream([v]))
    if x < 0.6:
        return v, loads(TextEnc(r).stream([v]) if hasattr(TextEnc, 'stream') else TextEnc(r).value(v))
    if x < 0.8:
        return v, loads(dumps(to_ion(v, r)))
    return v, loads(dumps(to_ion(v, r), binary=False))


def compare(ctx, members, what):
    r = ctx.rng
    insts = [False, True]
    for inst in insts:
        truth = {}
        for i, (na, oa) in enumerate(members):
            for j, (nb, ob) in enumerate(members):
                want = equal(na, nb, inst)
                if r.random() < 0.1:
                    # The decimal context of the caller does not matter.
                    with localcontext() as c:
                        c.prec = r.choice([1, 2, 6])
                        c.traps[Inexact] = c.traps[Rounded] = r.random() < 0.5
                        got = ion_equals(oa, ob, inst)
                    ctx.n('decimal-contexts')
                elif r.random() < 0.5 or inst:
                    got = ion_equals(oa, ob, timestamps_instants_only=inst)
                else:
                    got = ion_equals(oa, ob)
                ctx.n('pairs')
                if not isinstance(got, bool):
                    ctx.fail('%s: the comparison of %r and %r yields %r' % (what, oa, ob, got))
                if got != want:
                    ctx.fail('%s: %s and %s compare %s%s (objects %r and %r)' % (what, na, nb, 'equal' if got else 'unequal', ' as instants' if inst else '', oa, ob))
                truth[i, j] = got
                ctx.n('equal' if got else 'unequal')
                if got:
                    k = (na[0], nb[0])
                    if k == ('py', 'py'):
                        ctx.n('equal.native')
                    elif k != ('ion', 'ion'):
                        ctx.n('equal.native-ion')
                if inst and got and not equal(na, nb, False):
                    ctx.n('instants.only-equal')
                ctx.distinct(str(na)[:300], str(nb)[:300], inst)
        ion = [i for i, (n, _) in enumerate(members) if pure(n)]
        for i in ion:
            for j in ion:
                if truth[i, j] != truth[j, i]:
                    ctx.fail('%s: not symmetric: %s, %s' % (what, members[i][0], members[j][0]))
                for k in ion:
                    ctx.n('triples')
                    if truth[i, j] and truth[j, k] and not truth[i, k]:
                        ctx.fail('%s: not transitive: %s, %s, %s' % (what, members[i][0], members[j][0], members[k][0]))


def pure(n):
    if n[0] != 'ion':
        return False
    if n[3] is not None:
        if n[1] in (LIST, SEXP):
            return all(pure(c) for c in n[3])
        if n[1] == STRUCT:
            return all(pure(c) for _, c in n[3])
    return True


def group(ctx, v, what):
    r = ctx.rng
    v = names_ok(v)
    members = [(nodes(v), build(nodes(v), r))]
    if known_only(v):
        w, o = load_it(ctx, v)
        members.append((nodes(w), o))
    for _ in range(r.randint(1, 2)):
        n = nativize(v, r, r.choice([0.3, 0.7, 1.0]))
        members.append((n, build(n, r)))
    for _ in range(r.randint(2, 4)):
        w = names_ok(near(r, v))
        if r.random() < 0.3:
            w = names_ok(near(r, w))
        ctx.n('near-miss')
        x = r.random()
        if x < 0.25 and known_only(w):
            w, o = load_it(ctx, w)
            members.append((nodes(w), o))
        else:
            n = nativize(w, r, 1.0 if x > 0.7 else 0.3)
            members.append((n, build(n, r)))
    if ctx.wants_sample():
        ctx.sample(' | '.join(str(n) for n, _ in members))
    compare(ctx, members, what)


UNKNOWN = [('?', 10), ('?', 11), ('$', 'x', 1), ('$', 'x', 2), ('$', 'y', 1)]


def trees(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([4, 10, 25]), depth=3, unknown=UNKNOWN if r.random() < 0.5 else (), long_text=0, tricky=0.1, big=0)
    if r.random() < 0.5:
        g.pool = g.pool[:2]
    group(ctx, g.value(top=True), 'tree')


def scalars(ctx):
    r = ctx.rng
    t = r.randrange(0, LIST)
    g = Gen(r, types=[t], depth=0, unknown=UNKNOWN, ann=0.15, long_text=0, big=0)
    group(ctx, g.value(top=True), 'scalar')


def timestamps(ctx):
    """Chains of timestamps that differ step by step."""
    r = ctx.rng
    g = Gen(r)
    v = V(TIMESTAMP, g.timestamp_())
    members = []
    for _ in range(6):
        n = nativize(v, r, 0.5)
        members.append((n, build(n, r)))
        v = V(TIMESTAMP, near_timestamp(r, v.v) if r.random() < 0.8 else v.v)
    ctx.n('timestamps.pairs', len(members) ** 2)
    compare(ctx, members, 'timestamps')


def structs(ctx):
    """Structs with few names, repeated, in every order."""
    r = ctx.rng
    names = r.sample(['a', 'b', 'c', '', SYM0], 2)
    pool = [V(INT, 1), V(INT, 2), V(BOOL, True), V(FLOAT, float('nan')), V(DECIMAL, (False, 10, -1)), V(DECIMAL, (False, 1, 0)), V(FLOAT, -0.0), V(FLOAT, 0.0), V(INT, None),
            V(SYMBOL, 'a'), V(STRING, 'a'), V(LIST, []), V(STRUCT, []), V(STRUCT, [('a', V(INT, 1)), ('a', V(INT, 2))]), V(STRUCT, [('a', V(INT, 2)), ('a', V(INT, 1))])]
    few = r.sample(pool, 3)
    fields = [(r.choice(names), r.choice(few)) for _ in range(r.randint(0, 6))]
    v = V(STRUCT, fields, ('a',) if r.random() < 0.1 else ())
    if r.random() < 0.3:
        v = V(r.choice([LIST, SEXP]), [v])
    group(ctx, v, 'struct')


def unlike(ctx):
    """Values of different types that look alike in Python."""
    r = ctx.rng
    pool = [V(BOOL, False), V(BOOL, True), V(INT, 0), V(INT, 1), V(FLOAT, 0.0), V(FLOAT, 1.0), V(FLOAT, -0.0), V(DECIMAL, (False, 0, 0)), V(DECIMAL, (False, 1, 0)),
            V(DECIMAL, (True, 0, 0)), V(DECIMAL, (False, 10, -1)), V(STRING, ''), V(STRING, 'a'), V(SYMBOL, 'a'), V(SYMBOL, ''), V(CLOB, b''), V(BLOB, b''), V(CLOB, b'a'),
            V(BLOB, b'a'), V(LIST, []), V(SEXP, []), V(STRUCT, []), V(NULL), V(LIST, [V(STRING, 'a'), V(NULL), V(NULL)]), V(SEXP, [V(SYMBOL, 'a'), V(INT, 10), V(NULL)]),
            V(LIST, [V(NULL), V(INT, 10), V(NULL)]), V(LIST, [V(NULL), V(INT, 0), V(NULL)]), V(SYMBOL, ('?', 10)), V(SYMBOL, SYM0), V(FLOAT, 0.1), V(DECIMAL, (False, 1, -1)),
            V(FLOAT, 0.5), V(DECIMAL, (False, 5, -1)), V(INT, 2 ** 64), V(FLOAT, 2.0 ** 64), V(STRING, '1'), V(SYMBOL, 'null')]
    pool += [V(t, None) for t in range(13)]
    members = []
    for v in r.sample(pool, 7) + [r.choice(pool[:12])]:
        if r.random() < 0.1:
            v = V(v.t, v.v, (r.choice(['a', SYM0]),))
        if r.random() < 0.15:
            v = V(LIST, [v])
        n = nativize(v, r, 0.5)
        members.append((n, build(n, r)))
    compare(ctx, members, 'unlike')


FORMS = [
    [('bool', True), ('int', 1), ('float', 1.0), ('decimal', (False, 1, 0)), ('decimal', (False, 10, -1))],
    [('bool', False), ('int', 0), ('float', 0.0), ('float', -0.0), ('decimal', (False, 0, 0)), ('decimal', (True, 0, 0)), ('decimal', (False, 0, -1)), ('none', None)],
    [('float', float('nan')), ('float', float('nan')), ('float', float('inf')), ('float', float('-inf')), ('str', 'nan')],
    [('str', 'a'), ('token', 'a'), ('bytes', b'a'), ('str', 'A'), ('token', SYM0)],
    [('str', ''), ('bytes', b''), ('seq', []), ('dict', []), ('none', None), ('token', '')],
    [('int', 2 ** 53), ('float', 2.0 ** 53), ('int', 2 ** 53 + 1), ('decimal', (False, 2 ** 53, 0))],
    [('ts', (SECOND, 2000, 1, 1, 0, 0, 0, (0, 6), 0)), ('ts', (SECOND, 2000, 1, 1, 1, 0, 0, (0, 6), 60)), ('ts', (SECOND, 2000, 1, 1, 0, 0, 0, (0, 6), None)),
     ('ts', (SECOND, 2000, 1, 1, 0, 0, 0, (0, 3), 0)), ('ts', (SECOND, 2000, 1, 1, 0, 0, 0, None, 0)), ('ts', (DAY, 2000, 1, 1, 0, 0, 0, None, None))],
]


def leaf(r, kind, p):
    """A node of the scalar, native or not."""
    if r.random() < 0.75:
        return ('py', kind, p)
    return ('ion', KINDS[kind][0], (), p)


def natives(ctx):
    """Native containers that differ, if at all, by values Python holds to be equal."""
    r = ctx.rng
    forms = r.choice(FORMS)
    n = r.choice([1, 1, 1, 2, 3, 5])
    base = [r.choice(forms if r.random() < 0.7 else r.choice(FORMS)) for _ in range(n)]
    at = r.randrange(n)
    how = r.choice(['seq', 'seq', 'dict', 'both', 'list', 'struct'])
    names = r.sample(['a', 'b', 'c', 'd', 'e', ''], n)
    group = []
    for form in [base[at]] + r.sample(forms, min(len(forms), 5)):
        kids = [leaf(r, *(form if i == at else x)) for i, x in enumerate(base)]
        if how in ('seq', 'both'):
            node = ('py', 'seq', kids)
        elif how == 'list':
            node = ('ion', LIST, (), kids)
        elif how == 'struct':
            node = ('ion', STRUCT, (), list(zip(names, kids)))
        else:
            node = ('py', 'dict', list(zip(names, kids)))
        if how == 'both':
            node = ('py', 'dict', [('k', node)])
        group.append((node, build(node, r)))
    ctx.n('natives')
    compare(ctx, group, 'natives')


FAMILIES = [('natives', natives, 900), ('trees', trees, 1600), ('scalars', scalars, 1600), ('timestamps', timestamps, 700), ('structs', structs, 900), ('unlike', unlike, 900)]
