import copy
import math
import operator
import pickle
from amazon.ion.simpleion import dumps, loads, load
from amazon.ion.equivalence import ion_equals
from amazon.ion import simple_types
from .c05 import fields_zero
from ..common import *

RULE = ('Random values are loaded from random text and binary encodings.  Every scalar and list is put next to the native value it extends and driven through a random '
        'selection of native operations (operators, methods, conversions, formatting, indexing, and for lists mutations); results, or the types of the errors, must be '
        'the same.  Copies (copy, deepcopy, every pickle protocol, from_value, to_event with from_event) must have the same reference value, dump to the same octets '
        'and characters, and share no state with the original; the null test is observed on nulls of every type and on hostile non-nulls.  Distinct: different operation and operands.')
ASSUMPTIONS = ['a bool loads as an integer', 'decimals with exponents beyond 60 are not converted to integers',
               'structs are native in the sense of Multimap, see C17', 'from_value of a list or struct shares the elements, as the list constructor does']
MIN = {'ops': 60000, 'ops.failing': 4000, 'ops.int': 6000, 'ops.float': 6000, 'ops.decimal': 6000, 'ops.text': 6000, 'ops.bytes': 6000, 'ops.timestamp': 6000,
       'ops.symbol': 2500, 'ops.list': 4000, 'copies': 25000, 'copies.containers': 4000, 'mutated': 1200, 'from_event': 3000, 'nulls': 4000, 'nonnulls': 8000, 'dumps': 12000, 'results.dumped': 10000}
THOROUGH = 25


# -- native operations -------------------------------------------------------------------------------------------------
def image(x):
    """What a result looks like, apart from being an Ion value."""
    if x is None or x is NotImplemented or isinstance(x, bool):
        return x
    if isinstance(x, int):
        return ('int', int(x))
    if isinstance(x, float):
        return ('float', float.hex(float(x)))
    if isinstance(x, Decimal):
        return ('decimal', str(x.as_tuple()))
    if isinstance(x, str):
        return ('str', str(x))
    if isinstance(x, (bytes, bytearray)):
        return ('bytes', bytes(x))
    if isinstance(x, datetime):
        out = ['datetime', x.isoformat(), x.utcoffset()]
        if isinstance(x, Timestamp):
            out += [x.precision, str(x.fractional_seconds.as_tuple())]
        return tuple(out)
    if isinstance(x, SymbolToken):
        return ('symbol', x.text, x.sid, x.location)
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(image(y) for y in x))
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(image(y) for y in x))
    if isinstance(x, Multimap):
        return ('map', tuple((k if not isinstance(k, SymbolToken) else image(k), image(v)) for k, v in x.items()))
    if hasattr(x, '__next__'):
        return ('iter', tuple(image(y) for y in x))
    if isinstance(x, simple_types.IonPyNull):
        return ('null',)
    if isinstance(x, complex):
        return ('complex', repr(x))
    return ('other', x)


CMP = [('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)]
ARITH = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv), ('//', operator.floordiv), ('%', operator.mod), ('divmod', divmod)]
BITS = [('&', operator.and_), ('|', operator.or_), ('^', operator.xor)]
UNARY = [('neg', operator.neg), ('pos', operator.pos), ('abs', abs), ('bool', bool), ('hash', hash), ('str', str), ('repr', repr), ('int', int), ('float', float), ('round', round),
         ('trunc', math.trunc), ('floor', math.floor), ('ceil', math.ceil), ('ascii', ascii), ('truth', operator.truth), ('not', operator.not_),
         ('Decimal', Decimal), ('complex', complex), ('isnan', math.isnan)]
INT_ONLY = [('bit_length', lambda x: x.bit_length()), ('invert', operator.invert), ('index', lambda x: list(range(10))[x]), ('oct', oct), ('hex', hex), ('bin', bin),
            ('to_bytes', lambda x: x.to_bytes(40, 'big', signed=True)), ('format x', lambda x: format(x, 'x')), ('format ,', lambda x: '{:,}'.format(x)),
            ('%d', lambda x: '%d' % x), ('%5s', lambda x: '%25s' % x), ('shift', lambda x: x << 3), ('rshift', lambda x: x >> 2), ('pow', lambda x: pow(x, 3)),
            ('powmod', lambda x: pow(x, 5, 1007)), ('conjugate', lambda x: x.conjugate()), ('numerator', lambda x: (x.numerator, x.denominator, x.real, x.imag)),
            ('range', lambda x: len(range(min(x, 10)))), ('repeat', lambda x: 'ab' * (x % 7)), ('chr', lambda x: chr(x)), ('dictkey', lambda x: {x: 1}[int(x)]),
            ('round', lambda x: round(x, -1)), ('sum', lambda x: sum([x, 1, x])), ('max', lambda x: max(x, 3)), ('sorted', lambda x: sorted([5, x, -1])), ('set', lambda x: {x, int(x)})]
FLOAT_ONLY = [('is_integer', lambda x: x.is_integer()), ('hex', lambda x: x.hex()), ('ratio', lambda x: x.as_integer_ratio()), ('%.3f', lambda x: '%.3f' % x), ('%g', lambda x: '%g' % x),
              ('format e', lambda x: format(x, '.5e')), ('pow', lambda x: x ** 2), ('sqrt', math.sqrt), ('isinf', math.isinf), ('copysign', lambda x: math.copysign(1, x)),
              ('frexp', math.frexp), ('modf', math.modf), ('round', lambda x: round(x, 2)), ('sum', lambda x: sum([x, 1.5])), ('conjugate', lambda x: x.conjugate()), ('fsum', lambda x: math.fsum([x, 1]))]
DEC_ONLY = [('as_tuple', lambda x: tuple(x.as_tuple())), ('adjusted', lambda x: x.adjusted()), ('is', lambda x: (x.is_zero(), x.is_signed(), x.is_nan(), x.is_finite(), x.is_infinite())),
            ('normalize', lambda x: x.normalize()), ('copy_abs', lambda x: x.copy_abs()), ('copy_negate', lambda x: x.copy_negate()), ('quantize', lambda x: x.quantize(Decimal('0.01'))),
            ('sqrt', lambda x: x.sqrt()), ('to_integral', lambda x: x.to_integral_value()), ('scaleb', lambda x: x.scaleb(2)), ('eng', lambda x: x.to_eng_string()),
            ('format', lambda x: format(x, '.3f')), ('format E', lambda x: format(x, 'E')), ('compare', lambda x: x.compare(Decimal(1))), ('compare_total', lambda x: x.compare_total(Decimal('1.0'))),
            ('max', lambda x: x.max(Decimal(3))), ('fma', lambda x: x.fma(2, 3)), ('round', lambda x: round(x, 2)), ('sum', lambda x: sum([x, 1])), ('canonical', lambda x: x.canonical()),
            ('%s', lambda x: '%s' % x), ('pow', lambda x: x ** 2), ('logb', lambda x: x.logb()), ('next', lambda x: x.next_plus()), ('ratio', lambda x: x.as_integer_ratio())]
TEXT = [('upper', lambda x: x.upper()), ('lower', lambda x: x.lower()), ('title', lambda x: x.title()), ('casefold', lambda x: x.casefold()), ('swapcase', lambda x: x.swapcase()),
        ('strip', lambda x: x.strip()), ('split', lambda x: x.split()), ('splita', lambda x: x.split('a')), ('rsplit', lambda x: x.rsplit('b', 1)), ('partition', lambda x: x.partition('a')),
        ('splitlines', lambda x: x.splitlines()), ('replace', lambda x: x.replace('a', 'zz')), ('find', lambda x: x.find('a')), ('index', lambda x: x.index('a')), ('count', lambda x: x.count('a')),
        ('startswith', lambda x: x.startswith('a')), ('endswith', lambda x: x.endswith('')), ('encode', lambda x: x.encode('utf-8')), ('latin', lambda x: x.encode('latin-1')),
        ('join', lambda x: x.join(['1', '2', '3'])), ('joined', lambda x: ','.join([x, x])), ('center', lambda x: x.center(20, '*')), ('zfill', lambda x: x.zfill(9)),
        ('%s', lambda x: '<%s>' % x), ('format', lambda x: '{0:>12}|{0!r}'.format(x)), ('fstring', lambda x: f'{x}{x!a}'), ('isalpha', lambda x: (x.isalpha(), x.isdigit(), x.isspace(), x.isupper(), x.isidentifier())),
        ('iter', lambda x: iter(x)), ('reversed', lambda x: ''.join(reversed(x))), ('in', lambda x: 'a' in x), ('rin', lambda x: x in 'abcabc'), ('+', lambda x: x + 'q'), ('r+', lambda x: 'q' + x),
        ('*', lambda x: x * 2), ('r*', lambda x: 2 * x), ('[0]', lambda x: x[0]), ('[-1]', lambda x: x[-1]), ('[1:3]', lambda x: x[1:3]), ('[::-1]', lambda x: x[::-1]), ('[99]', lambda x: x[99]),
        ('len', len), ('ord', ord), ('int', int), ('float', float), ('hash', hash), ('str', str), ('repr', repr), ('bool', bool), ('sorted', sorted), ('list', list), ('set', set),
        ('dictkey', lambda x: {x: 1}[str(x)]), ('getattr', lambda x: getattr(object(), x, None)), ('expandtabs', lambda x: x.expandtabs()), ('translate', lambda x: x.translate({97: 'Q'})),
        ('minmax', lambda x: (min(x), max(x))), ('stringio', lambda x: StringIO(x).read()), ('setitem', lambda x: operator.setitem(x, 0, 'a')), ('bytes', lambda x: bytes(x, 'utf-8'))]
BYTES = [('decode', lambda x: x.decode('latin-1')), ('utf8', lambda x: x.decode('utf-8')), ('hex', lambda x: x.hex()), ('upper', lambda x: x.upper()), ('split', lambda x: x.split(b'a')),
         ('replace', lambda x: x.replace(b'a', b'zz')), ('find', lambda x: x.find(b'a')), ('count', lambda x: x.count(b'\0')), ('iter', lambda x: iter(x)), ('list', list), ('[0]', lambda x: x[0]),
         ('[-1]', lambda x: x[-1]), ('[1:3]', lambda x: x[1:3]), ('[::-1]', lambda x: x[::-1]), ('len', len), ('hash', hash), ('repr', repr), ('bool', bool), ('+', lambda x: x + b'q'),
         ('r+', lambda x: b'q' + x), ('*', lambda x: x * 2), ('in', lambda x: b'a' in x), ('inint', lambda x: 97 in x), ('bytearray', lambda x: bytearray(x)), ('bytes', bytes),
         ('memoryview', lambda x: memoryview(x).tobytes()), ('join', lambda x: x.join([b'1', b'2'])), ('startswith', lambda x: x.startswith(b'a')), ('strip', lambda x: x.strip()),
         ('from_bytes', lambda x: int.from_bytes(x, 'big')), ('sum', sum), ('max', max), ('bytesio', lambda x: BytesIO(x).read()), ('dictkey', lambda x: {x: 1}[bytes(x)]), ('mix', lambda x: x + 'q'),
         ('setitem', lambda x: operator.setitem(x, 0, 1)), ('%s', lambda x: b'%s' % x), ('format', lambda x: '{}'.format(x)), ('sorted', sorted), ('center', lambda x: x.center(9))]
STAMP = [('iso', lambda x: x.isoformat()), ('str', str), ('fields', lambda x: (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)), ('utcoffset', lambda x: x.utcoffset()),
         ('tuple', lambda x: tuple(x.timetuple())), ('utctuple', lambda x: tuple(x.utctimetuple())), ('weekday', lambda x: (x.weekday(), x.isoweekday(), tuple(x.isocalendar()))), ('ordinal', lambda x: x.toordinal()),
         ('date', lambda x: x.date()), ('time', lambda x: x.time()), ('timetz', lambda x: x.timetz().isoformat()), ('strftime', lambda x: x.strftime('%H-%M-%S %f %j')), ('ctime', lambda x: x.ctime()),
         ('hash', hash), ('tzname', lambda x: x.tzname()), ('dst', lambda x: x.dst()), ('format', lambda x: '{:%m/%d}'.format(x)), ('bool', bool), ('precision', lambda x: x.precision),
         ('fraction', lambda x: (str(x.fractional_seconds.as_tuple()), x.fractional_precision)), ('dictkey', lambda x: {x: 1}[x]), ('repr', repr), ('setattr', lambda x: setattr(x, 'year', 5)),
         ('sorted', lambda x: sorted([x, x])), ('int', int), ('toraw', lambda x: x.tzinfo is None)]
STAMP_DELTA = [('+', lambda x, d: x + d), ('-', lambda x, d: x - d), ('r+', lambda x, d: d + x)]
SYMS = [('fields', lambda x: (x.text, x.sid, x.location)), ('tuple', tuple), ('unpack', lambda x: [y for y in x]), ('[0]', lambda x: x[0]), ('[1:]', lambda x: x[1:]), ('len', len), ('hash', hash),
        ('in', lambda x: x.text in x), ('asdict', lambda x: dict(x._asdict())), ('fieldnames', lambda x: x._fields), ('bool', bool), ('+', lambda x: x + (1,)), ('index', lambda x: x.index(x.text)),
        ('count', lambda x: x.count(None)), ('setattr', lambda x: setattr(x, 'text', 'q')), ('*', lambda x: x * 2), ('dictkey', lambda x: {x: 1}[SymbolToken(x.text, x.sid, x.location)]), ('int', int)]
SEQ = [('len', len), ('[0]', lambda x: x[0]), ('[-1]', lambda x: x[-1]), ('[1:]', lambda x: x[1:]), ('[::-1]', lambda x: x[::-1]), ('[99]', lambda x: x[99]), ('iter', lambda x: iter(x)),
       ('reversed', lambda x: list(reversed(x))), ('+', lambda x: x + [1]), ('r+', lambda x: [1] + x), ('*', lambda x: x * 2), ('in', lambda x: 12345678 in x), ('bool', bool), ('index', lambda x: x.index(12345678)),
       ('count', lambda x: x.count(5)), ('copy', lambda x: x.copy()), ('tuple', tuple), ('sorted', lambda x: sorted(x, key=repr)), ('enumerate', lambda x: list(enumerate(x))), ('hash', hash),
       ('slice', lambda x: x[1:4:2]), ('unpack', lambda x: [*x, 1]), ('zip', lambda x: list(zip(x, x))), ('map', lambda x: list(map(type, x))), ('eq', lambda x: x == list(x)), ('ne', lambda x: x != list(x) + [1]),
       ('lt', lambda x: x[:0] < [1]), ('attr', lambda x: x['a'])]
MUTATE = [('append', lambda x: x.append(1)), ('extend', lambda x: x.extend([1, 2])), ('insert', lambda x: x.insert(1, 'q')), ('pop', lambda x: x.pop()), ('pop0', lambda x: x.pop(0)),
          ('del', lambda x: operator.delitem(x, 0)), ('set', lambda x: operator.setitem(x, 0, 'new')), ('slice', lambda x: operator.setitem(x, slice(1, 2), [7, 8, 9])), ('reverse', lambda x: x.reverse()),
          ('clear', lambda x: x.clear()), ('iadd', lambda x: operator.iadd(x, [5])), ('imul', lambda x: operator.imul(x, 2)), ('remove', lambda x: x.remove(12345678)), ('sort', lambda x: x.sort(key=repr)),
          ('delslice', lambda x: operator.delitem(x, slice(0, 2)))]


def outcome(f, *args, keep=None):
    try:
        got = f(*args)
        if keep is not None:
            keep.append(got)
        return ('gives', image(got))
    except RecursionError:
        raise
    except Exception as e:
        return ('fails', type(e).__name__)


def native_of(obj, x):
    """The native value a loaded one extends."""
    t = x.t
    if t in (BOOL, INT):
        return int(x.v)
    if t == SYMBOL:
        return SymbolToken(obj.text, obj.sid, obj.location)
    if t in (LIST, SEXP):
        return list(obj)
    return real_scalar(x)


def tame(x, limit=60):
    return x.t != DECIMAL or abs(x.v[2]) <= limit and x.v[1].bit_length() < 400


DUMPABLE = (int, float, Decimal, str, bytes, bytearray, datetime)


def observe_op(ctx, name, f, obj, nat, kind, others=((),)):
    raw, plain = [], []
    a = outcome(f, obj, *others[0], keep=raw)
    b = outcome(f, nat, *others[-1], keep=plain)
    ctx.n('ops')
    ctx.n('ops.' + kind)
    if b[0] == 'fails':
        ctx.n('ops.failing')
    if a != b:
        ctx.fail('%s of %r%s %r, but of the native value it %r' % (name, nat, ' and %r' % (others[-1],) if others[-1] else '', a, b))
    if raw and isinstance(raw[0], DUMPABLE) and ctx.rng.random() < 0.4:
        # The result is a value like any other.
        binary = ctx.rng.random() < 0.5
        try:
            want = dumps(plain[0], binary=binary)
        except Exception:
            want = None
        if want is not None:
            got = dumps(raw[0], binary=binary)
            ctx.n('results.dumped')
            if got != want and not hasattr(raw[0], 'ion_annotations'):
                ctx.fail('%s of %r gives %r, which is dumped as %r instead of %r' % (name, nat, raw[0], got, want))
    if ctx.wants_sample() and b[0] == 'gives':
        ctx.sample('%s of loaded %r %r' % (name, nat, b))


def scalar_ops(ctx, obj, x, pool):
    r = ctx.rng
    t = x.t
    nat = native_of(obj, x)
    before = image(obj)
    n = 6
    if t in (BOOL, INT, FLOAT, DECIMAL):
        kind = 'float' if t == FLOAT else 'decimal' if t == DECIMAL else 'int'
        if t in (BOOL, INT) and x.v.bit_length() > 3000:
            return
        if not tame(x):
            ops = [o for o in DEC_ONLY if o[0] in ('as_tuple', 'adjusted', 'is', 'copy_abs', 'copy_negate', '%s')] + [('str', str), ('repr', repr), ('bool', bool)]
            for name, f in r.sample(ops, n):
                observe_op(ctx, name, f, obj, nat, kind)
        else:
            own = {'int': INT_ONLY, 'float': FLOAT_ONLY, 'decimal': DEC_ONLY}[kind]
            for name, f in r.sample(own, n // 2) + r.sample(UNARY, n // 2):
                observe_op(ctx, name, f, obj, nat, kind)
            for _ in range(n // 2):
                name, f = r.choice(CMP + ARITH * 2 + BITS)
                o, y = r.choice(pool['num'])
                if y is None:
                    w = o
                elif not tame(y) or y.t in (BOOL, INT) and y.v.bit_length() > 3000:
                    continue
                else:
                    w = native_of(o, y)
                if not tame(x, 60):
                    continue
                if r.random() < 0.5:
                    observe_op(ctx, name, f, obj, nat, kind, ((o,), (w,)))
                else:
                    observe_op(ctx, 'reflected ' + name, lambda p, q: f(q, p), obj, nat, kind, ((o,), (w,)))
    elif t == STRING:
        for name, f in r.sample(TEXT, n):
            observe_op(ctx, name, f, obj, nat, 'text')
        name, f = r.choice(CMP)
        o, y = r.choice(pool['text'])
        observe_op(ctx, name, f, obj, nat, 'text', ((o,), (o if y is None else native_of(o, y),)))
    elif t in (CLOB, BLOB):
        for name, f in r.sample(BYTES, n):
            observe_op(ctx, name, f, obj, nat, 'bytes')
        name, f = r.choice(CMP)
        o, y = r.choice(pool['bytes'])
        observe_op(ctx, name, f, obj, nat, 'bytes', ((o,), (o if y is None else native_of(o, y),)))
    elif t == TIMESTAMP:
        # The native value is a Timestamp of the same precision and digits.
        for name, f in r.sample(STAMP, n):
            if name == 'repr':
                continue
            observe_op(ctx, name, f, obj, nat, 'timestamp')
        d = timedelta(days=r.choice([0, 1, -1, 40]), seconds=r.choice([0, 1, 86399, -5]), microseconds=r.choice([0, 1, 500]))
        name, f = r.choice(STAMP_DELTA)
        observe_op(ctx, name, lambda p: datetime_result(f(p, d)), obj, nat, 'timestamp')
        name, f = r.choice(CMP + [('-', operator.sub)])
        o, y = r.choice(pool['time'])
        observe_op(ctx, name, f, obj, nat, 'timestamp', ((o,), (o if y is None else native_of(o, y),)))
    elif t == SYMBOL:
        for name, f in r.sample(SYMS, n):
            observe_op(ctx, name, f, obj, nat, 'symbol')
        name, f = r.choice(CMP[:2])
        o, y = r.choice(pool['sym'])
        observe_op(ctx, name, f, obj, nat, 'symbol', ((o,), (o if y is None else native_of(o, y),)))
    if image(obj) != before:
        ctx.fail('%r became %r' % (before, image(obj)))
    kept(ctx, obj, x)
    ctx.distinct(NAMES[t], repr(before)[:80])


def datetime_result(x):
    return x if not isinstance(x, Timestamp) else datetime(*(x.timetuple()[:6] + (x.microsecond, x.tzinfo)))


def kept(ctx, obj, x):
    if TNUM.get(obj.ion_type) != x.t or tuple(symbol_of(a) for a in obj.ion_annotations) != x.ann:
        ctx.fail('%s now has type %r and annotations %r' % (show(x), obj.ion_type, obj.ion_annotations))


def list_ops(ctx, obj, x):
    r = ctx.rng
    nat = list(obj)
    for name, f in r.sample(SEQ, 5):
        observe_op(ctx, name, f, obj, nat, 'list')
    kept(ctx, obj, x)
    twin = copy.copy(obj)
    for _ in range(r.choice([1, 2, 4])):
        name, f = r.choice(MUTATE)
        observe_op(ctx, name, f, twin, nat, 'list')
        if list(twin) != nat or len(twin) != len(nat) or any(p is not q for p, q in zip(twin, nat)):
            ctx.fail('after %s: %r instead of %r' % (name, list(twin), nat))
        kept(ctx, twin, x)


NATIVES = {'num': [0, 1, -1, 7, 2.5, -0.0, float('inf'), float('nan'), Decimal('1.50'), Decimal(3), True, 'x', None, 10 ** 25, 3],
           'text': ['', 'a', 'abc', '\u2603', b'a', None, 5], 'bytes': [b'', b'a', b'\0', b'\xff', 'a', bytearray(b'a'), None, 97],
           'time': [datetime(2000, 1, 1), datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999), None, 5, timedelta(1)],
           'sym': [SymbolToken('a', None), SymbolToken('a', 10), SymbolToken(None, 0), 'a', None, ('a', None, None)]}
KIND = {BOOL: 'num', INT: 'num', FLOAT: 'num', DECIMAL: 'num', STRING: 'text', CLOB: 'bytes', BLOB: 'bytes', TIMESTAMP: 'time', SYMBOL: 'sym'}


def load_some(ctx, g, n, symbols=False):
    """Loaded values with their reference values."""
    r = ctx.rng
    values = [fields_zero(v) for v in g.stream(n)]
    if r.random() < 0.5:
        data = StreamEnc(r).stream(values)
        objs = loads(data, single_value=False)
        shown = data.hex()
    else:
        text = TextEnc(r).stream(values)
        objs = loads(text if r.random() < 0.5 else text.encode('utf-8'), single_value=False)
        shown = ascii(text)
    ctx.note(shown[:2000])
    if len(objs) != len(values):
        ctx.fail('%s: %d values' % (shown[:300], len(objs)))
    return objs, [grouped_field_none(v) for v in values]


def grouped_field_none(v):
    return loaded_view(v)


def leaves(obj, x, out):
    out.append((obj, x))
    if x.v is not None and x.t in (LIST, SEXP):
        for o, y in zip(obj, x.v):
            leaves(o, y, out)
    elif x.v is not None and x.t == STRUCT:
        for (_, o), (_, y) in zip(obj.items(), x.v):
            leaves(o, y, out)


def operations(ctx):
    g = Gen(ctx.rng, budget=12)
    objs, values = load_some(ctx, g, ctx.rng.choice([2, 4, 6]))
    pairs = []
    for o, x in zip(objs, values):
        leaves(o, x, pairs)
    pool = dict((k, [(v, None) for v in vs]) for k, vs in NATIVES.items())
    for o, x in pairs:
        if x.v is not None and x.t in KIND:
            pool[KIND[x.t]].append((o, x))
            if ctx.rng.random() < 0.5:
                pool[KIND[x.t]].append((native_of(o, x), None))
    for o, x in pairs:
        if x.v is None:
            if bool(o) or not simple_types.is_null(o):
                ctx.fail('the null %s is %r' % (show(x), o))
        elif x.t in (LIST, SEXP):
            list_ops(ctx, o, x)
        elif x.t != STRUCT:
            scalar_ops(ctx, o, x, pool)
        kept(ctx, o, x)
    for o, x in zip(objs, values):
        same([x], [value_of(o)], 'after operations')


# -- copies ------------------------------------------------------------------------------------------------------------
def forms(obj):
    return [dumps(obj), dumps(obj, binary=False)]


def rebuilt(obj, x):
    """The same value through from_value, at every level."""
    ann = tuple(obj.ion_annotations)
    if x.v is None:
        return type(obj).from_value(obj.ion_type, None, ann)
    if x.t in (LIST, SEXP):
        return IonPyList.from_value(obj.ion_type, [rebuilt(o, y) for o, y in zip(obj, x.v)], ann)
    if x.t == STRUCT:
        m = Multimap()
        for (k, o), (_, y) in zip(obj.items(), x.v):
            m.add_item(k, rebuilt(o, y))
        return IonPyDict.from_value(obj.ion_type, m, ann)
    return type(obj).from_value(obj.ion_type, obj, ann)


def copies(ctx):
    r = ctx.rng
    g = Gen(r, budget=r.choice([1, 3, 12]))
    objs, values = load_some(ctx, g, r.choice([1, 2]))
    for obj, x in zip(objs, values):
        want = forms(obj)
        ctx.n('dumps', 2)
        same([x], [value_of(obj)], 'loaded')
        for how in r.sample(['copy', 'deepcopy', 'pickle', 'pickle', 'from_value', 'rebuilt', '_copy', 'list', 'twice'], 4):
            p = r.randint(0, pickle.HIGHEST_PROTOCOL)
            if how == 'copy':
                c = copy.copy(obj)
            elif how == 'deepcopy':
                c = copy.deepcopy(obj)
            elif how == 'pickle':
                c = pickle.loads(pickle.dumps(obj, p))
            elif how == 'from_value':
                c = type(obj).from_value(obj.ion_type, None if x.v is None else obj, tuple(obj.ion_annotations))
            elif how == 'rebuilt':
                c = rebuilt(obj, x)
            elif how == 'list':
                c = copy.deepcopy([obj, obj])
                if c[0] is not c[1] and x.v is not None and x.t >= LIST:
                    ctx.fail('deep copy of one object twice gives two')
                c = c[0]
            elif how == 'twice':
                c = pickle.loads(pickle.dumps(copy.deepcopy(copy.copy(obj)), p))
            else:
                c = obj._copy()
            what = '%s (protocol %d) of %s' % (how, p, show(x)[:300])
            ctx.n('copies')
            same([x], [value_of(c)], what)
            if type(c) is not type(obj):
                ctx.fail('%s: a %s' % (what, type(c)))
            got = forms(c)
            ctx.n('dumps', 2)
            if got != want:
                ctx.fail('%s: dumps to %r instead of %r' % (what, got, want))
            if ion_equals(obj, c) is not True:
                ctx.fail('%s: not equal under the data model' % what)
            nan = any(y.t == FLOAT and y.v is not None and y.v != y.v for y, _ in walk(x))
            nul = any(y.v is None for y, _ in walk(x))
            if not nan and not nul and not (obj == c and not (obj != c)):
                ctx.fail('%s: not equal' % what)
            if c is not obj and x.v is not None and x.t >= LIST:
                ctx.n('copies.containers')
                mutate_copy(ctx, c, obj, x, how in ('deepcopy', 'pickle', 'list', 'twice', 'rebuilt'), what)
                if value_of(obj) is None or key(value_of(obj)) != key(x):
                    ctx.fail('%s: changing it changed the original to %s' % (what, show(value_of(obj))[:300]))
        ctx.distinct(shape(x)[:200])


def mutate_copy(ctx, c, obj, x, deep, what):
    """Changes a copy at some depth; the original must not show it."""
    r = ctx.rng
    if deep:
        spots = [(o, y) for o, y in collect(c, value_of(c)) if y.v is not None and y.t >= LIST]
        at, y = r.choice(spots)
    else:
        at, y = c, x
    if y.t == STRUCT:
        name = r.choice(list(at) or ['fresh'])
        way = r.choice(['add', 'set', 'del', 'new'])
        if way == 'add':
            at.add_item(name, 'changed')
        elif way == 'set':
            at[name] = 'changed'
        elif way == 'del' and len(at):
            del at[name]
        else:
            at['fresh field'] = 'changed'
    else:
        way = r.choice(['append', 'clear', 'set'])
        if way == 'append' or not at:
            at.append('changed')
        elif way == 'clear':
            del at[:]
        else:
            at[0] = 'changed'
    at.ion_annotations = ('changed',)
    ctx.n('mutated')


def collect(obj, x):
    out = []
    leaves(obj, x, out)
    return out


def from_events(ctx):
    r = ctx.rng
    g = Gen(r, budget=1, ann=0.5)
    objs, values = load_some(ctx, g, 3)
    for obj, x in zip(objs, values):
        field = r.choice([None, 'f', SymbolToken('g', None), SymbolToken(None, 0)])
        ins = r.random() < 0.5
        depth = r.choice([None, 0, 3])
        et = SCALAR if x.v is None or x.t < LIST else START
        ev = obj.to_event(et, field, ins, depth)
        what = 'event of %s' % show(x)[:300]
        if ev.event_type is not et or ev.ion_type is not obj.ion_type or tuple(symbol_of(a) for a in ev.annotations) != x.ann or ev.depth is not depth:
            ctx.fail('%s: %r' % (what, ev))
        if not ins:
            want = None
        elif isinstance(field, SymbolToken):
            want = field
        else:
            want = SymbolToken(field, 0 if field is None else None)
        if ev.field_name != want:
            ctx.fail('%s: field name %r instead of %r' % (what, ev.field_name, want))
        if x.v is None or x.t >= LIST:
            if ev.value is not None:
                ctx.fail('%s: value %r' % (what, ev.value))
        if et is SCALAR:
            back = type(obj).from_event(ev)
            same([x], [value_of(back)], 'value of the ' + what)
            if r.random() < 0.3:
                e2 = IonThunkEvent(SCALAR, ev.ion_type, lambda: ev.value, ev.field_name, ev.annotations, ev.depth)
                same([x], [value_of(type(obj).from_event(e2))], 'value of the lazy ' + what)
        else:
            back = type(obj).from_event(ev)
            if len(back) != 0:
                ctx.fail('%s: a container with content: %r' % (what, back))
            kept(ctx, back, x)
            # A fresh container each time.
            if type(obj).from_event(ev) is back:
                ctx.fail('%s: gives the same container twice' % what)
        ctx.n('from_event')
    # from_value on native values.
    for _ in range(4):
        x = V(r.choice([BOOL, INT, FLOAT, DECIMAL, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB]))
        x.v = g.scalar(x.t)
        if x.t == SYMBOL and not isinstance(x.v, str):
            x.v = 'sym'
        x.ann = tuple(g.word() for _ in range(r.choice([0, 1, 2])))
        nat = real_scalar(x, r)
        obj = PY[x.t].from_value(ITYPE[x.t], nat, x.ann)
        same([x], [value_of(obj)], 'from_value of %r' % (nat,))
        if x.t != SYMBOL and image(obj) != image(nat) and x.t != BOOL:
            ctx.fail('from_value of %r is %r' % (nat, obj))
        plain = PY[x.t](*((nat,) if x.t not in (SYMBOL, TIMESTAMP) else PY[x.t]._to_constructor_args(nat)[0]), **({} if x.t != TIMESTAMP else PY[x.t]._to_constructor_args(nat)[1]))
        if plain.ion_type is not None or tuple(plain.ion_annotations) != ():
            ctx.fail('a constructed %r has type %r and annotations %r' % (plain, plain.ion_type, plain.ion_annotations))
        ctx.n('from_event')
        ctx.distinct(shape(x), len(x.ann))


# -- nulls -------------------------------------------------------------------------------------------------------------
class Odd(object):
    def __init__(self):
        self.ion_type = IonType.NULL
        self.ion_annotations = ()

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True


def nulls(ctx):
    r = ctx.rng
    null = simple_types.is_null
    if not null(None):
        ctx.fail('None is not null')
    bare = IonPyNull()
    if null(bare) is not True or bool(bare) or null(copy.copy(bare)) is not True:
        ctx.fail('a bare null is no null')
    for t in ITYPE:
        x = IonPyNull.from_value(t, None, r.choice([(), ('a',)]))
        y = PY[TNUM[t]].from_value(t, None, r.choice([(), ('a', 'b')]))
        for n in (x, y, copy.copy(x), copy.deepcopy(y), pickle.loads(pickle.dumps(x))):
            if null(n) is not True or bool(n) is not False or n.ion_type is not t:
                ctx.fail('null of type %r: %r' % (t, n))
            ctx.n('nulls')
        n = loads(r.choice(['null.%s', 'a::null.%s', '[null.%s]', '{f: x::null.%s}']) % t.name.lower())
        if isinstance(n, IonPyList):
            n = n[0]
        elif isinstance(n, IonPyDict):
            n = n['f']
        if null(n) is not True or n.ion_type is not t:
            ctx.fail('loaded null of type %r: %r' % (t, n))
        if t is not IonType.NULL:
            # The emptiest non-null of the type.
            v = {BOOL: False, INT: 0, FLOAT: 0.0, DECIMAL: Decimal(0), TIMESTAMP: Timestamp(1, 1, 1), SYMBOL: SymbolToken('', None), STRING: '', CLOB: b'', BLOB: b'', LIST: [], SEXP: [],
                 STRUCT: {}}[TNUM[t]]
            for n in (v, PY[TNUM[t]].from_value(t, v), copy.copy(PY[TNUM[t]].from_value(t, v))):
                if null(n) is not False:
                    ctx.fail('%r is null' % (n,))
                ctx.n('nonnulls')
    for n in [0, False, '', 'null', 'None', b'', (), [], {}, [None], {None: None}, float('nan'), Decimal('NaN'), object(), Odd(), NotImplemented, IonType.NULL, type(None), IonPyNull, loads('null_'), loads("'null'"),
              loads('"null"'), loads('[null]'), loads('{a:null}'), loads('[]'), loads('0'), loads('false'), loads("''"), loads('$0'), Multimap()]:
        if null(n) is not False:
            ctx.fail('%r is null' % (n,))
        ctx.n('nonnulls')
    g = Gen(r, budget=10, null=0.3)
    objs, values = load_some(ctx, g, 4)
    for o, x in zip(objs, values):
        for p, y in collect(o, x):
            if null(p) is not (y.v is None):
                ctx.fail('the null test of %s is %r' % (show(y)[:200], null(p)))
            ctx.n('nulls' if y.v is None else 'nonnulls')
    ctx.distinct(repr([shape(x) for x in values])[:300])


FAMILIES = [('operations', operations, 2500), ('copies', copies, 6000), ('from_events', from_events, 1000), ('nulls', nulls, 300)]
