import collections
import enum
import fractions
import types as pytypes
import uuid
from amazon.ion.exceptions import IonException
from amazon.ion.simple_types import IonPyBool, IonPyBytes, IonPyDict, IonPyInt, IonPyList, IonPyNull, IonPySymbol, IonPyText
from amazon.ion.simpleion import load, loads, dump, dumps
from amazon.ion.symbols import SymbolToken, shared_symbol_table
from io import TextIOWrapper
from ..common import *
import datetime as dt
from decimal import Decimal

RULE = ('Random Python objects (native values, instances of user-made subclasses with representations of their own, and Ion values, mixed at every '
        'level) are built together with the value they must become, and dumped with random combinations of the options; independent decoders say what '
        'was written.  Loading is tried with every option on streams of known content, at a position, as text, octets and files.  Objects of '
        'other types at random places must give a TypeError.  Distinct: different objects and options.')
ASSUMPTIONS = ['IonPy values are made by from_value (with an Ion type), not constructed directly', 'an object with an attribute ion_type is an Ion value',
               'named tuples are dumped as lists although the documented table says struct (known finding)']
MIN = {'dumps': 15000, 'subclasses': 15000, 'tuples.sexp': 2300, 'tuples.list': 3000, 'streams': 3000, 'refused.type': 3000, 'refused.key': 500, 'single.one': 800,
       'single.refused': 1500, 'choice.binary': 800, 'choice.text': 800, 'choice.offset': 600, 'indented': 2500, 'compact': 2500, 'omitted': 1500,
       'ignored-options': 3000, 'imports': 400, 'unicode.loads': 500, 'text.files': 150, 'deep': 500, 'wide': 100}
THOROUGH = 20


# -- user-made classes
class Mixin(object):
    pass


class MyInt(int):
    def __str__(self):
        return 'twelve'
    __repr__ = __str__


class Color(enum.IntEnum):
    RED = 1
    BIG = 10 ** 20
    NEG = -7


class Flags(enum.IntFlag):
    A = 1
    B = 2


class MyFloat(float):
    def __str__(self):
        return 'np.float64(1)'
    __repr__ = __str__


class MyDecimal(Decimal):
    def __str__(self):
        return "Decimal('x')"
    __repr__ = __str__


class MyStr(Mixin, str):
    def __str__(self):
        return 'other'
    __repr__ = __str__


class Word(str, enum.Enum):
    A = 'abc'
    E = ''
    Q = "it's"


class MyBytes(bytes):
    def __str__(self):
        return 'other'
    __repr__ = __str__


class MyList(list):
    def __repr__(self):
        return 'list'


class MyTuple(Mixin, tuple):
    pass


class Deeper(MyTuple):
    pass


class MyDict(dict):
    pass


class MyMoment(dt.datetime):
    def __str__(self):
        return 'now'
    __repr__ = __str__


class Maker(object):
    """Makes objects together with the values they stand for."""

    def __init__(self, ctx, sexp, native=0.7, budget=20):
        self.ctx = ctx
        self.r = ctx.rng
        self.sexp = sexp
        self.native = native
        self.budget = budget
        self.g = Gen(self.r, sym0=False, long_text=0.01, big=0, budget=30)

    def make(self, depth=0):
        r = self.r
        self.budget -= 1
        if r.random() >= self.native:
            return self.ion(depth)
        k = r.choice(['none', 'bool', 'int', 'float', 'decimal', 'datetime', 'timestamp', 'str', 'bytes', 'token'] +
                     ['list', 'tuple', 'tuple', 'dict'] * (2 if depth < 7 and self.budget > 0 else 0))
        sub = r.random() < 0.4
        if sub:
            self.ctx.n('subclasses')
        if k == 'none':
            return None, V(NULL)
        if k == 'bool':
            b = r.random() < 0.5
            return b, V(BOOL, b)
        if k == 'int':
            n = self.g.int_()
            if sub:
                o = r.choice([MyInt(n), Color.RED, Color.BIG, Color.NEG, Flags.A | Flags.B, Flags.B])
                return o, V(INT, int.__int__(o))
            return n, V(INT, n)
        if k == 'float':
            x = self.g.float_()
            return (MyFloat(x) if sub else x), V(FLOAT, x)
        if k == 'decimal':
            d = self.g.decimal_()
            o = make_decimal(d)
            return (MyDecimal(o) if sub else o), V(DECIMAL, d)
        if k == 'datetime':
            ts = self.moment()
            cls = MyMoment if sub else dt.datetime
            p, y, mo, d, h, mi, s, f, off = ts
            zone = None if off is None else dt.timezone(dt.timedelta(minutes=off)) if r.random() < 0.5 else tz(off)
            return cls(y, mo, d, h, mi, s, f[0], zone), V(TIMESTAMP, ts)
        if k == 'timestamp':
            ts = self.g.timestamp_()
            return make_timestamp(ts, r), V(TIMESTAMP, ts)
        if k == 'str':
            s = self.g.string()
            if sub:
                o = r.choice([MyStr(s), MyStr(s), Word.A, Word.E, Word.Q])
                return o, V(STRING, str.__str__(o) if not isinstance(o, enum.Enum) else o.value)
            return s, V(STRING, s)
        if k == 'bytes':
            b = self.g.bytes_()
            return (MyBytes(b) if sub else b), V(BLOB, b)
        if k == 'token':
            s = self.g.word()
            return SymbolToken(s, r.choice([None, None, 10, 99])), V(SYMBOL, s)
        if k == 'dict':
            o = (r.choice([MyDict, collections.OrderedDict, lambda: collections.defaultdict(list), collections.Counter]) if sub else dict)()
            fields = []
            for _ in range(r.choice([0, 1, 2, 4])):
                key, name = self.key()
                if any(name == n for n, _ in fields):
                    continue
                c, v = self.make(depth + 1)
                o[key] = c
                fields.append((name, v))
            return o, V(STRUCT, fields)
        kids = [self.make(depth + 1) for _ in range(r.choice([0, 1, 2, 4]))]
        objs = [o for o, _ in kids]
        if k == 'list':
            return (MyList(objs) if sub else objs), V(LIST, [v for _, v in kids])
        self.ctx.n('tuples.sexp' if self.sexp else 'tuples.list')
        return (r.choice([MyTuple, Deeper])(objs) if sub else tuple(objs)), V(SEXP if self.sexp else LIST, [v for _, v in kids])

    def moment(self):
        """The value of a plain datetime: seconds with six digits of fraction."""
        while True:
            p, y, mo, d, h, mi, s, f, off = self.g.timestamp_()
            us = self.r.choice([0, 0, 1, 10, 100000, 999999, self.r.randint(0, 999999)])
            from ..gen import utc_in_range
            ts = (SECOND, y, mo, d, h, mi, s, (us, 6), off)
            if utc_in_range(ts):
                return ts

    def key(self):
        r = self.r
        s = self.g.word()
        x = r.random()
        if x < 0.55:
            return s, s
        if x < 0.65:
            return MyStr(s), s
        if x < 0.72:
            w = r.choice(list(Word))
            return w, w.value
        if x < 0.8:
            return SymbolToken(s, None), s
        if x < 0.87:
            return IonPyText.from_value(IonType.STRING, s), s
        if x < 0.94:
            return IonPySymbol.from_value(IonType.SYMBOL, SymbolToken(s, None)), s
        return None, SYM0

    def ion(self, depth):
        """An Ion value; its members are objects of any kind."""
        r = self.r
        ann = self.g.annotations()
        ann = tuple(a for a in ann if isinstance(a, str))
        toks = tuple(token(a, r) for a in ann)
        t = r.choice([NULL, BOOL, INT, FLOAT, DECIMAL, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB] + [LIST, SEXP, STRUCT] * (2 if depth < 7 and self.budget > 0 else 0))
        if t == NULL or r.random() < 0.1:
            n = r.choice([t, r.randint(0, 12)])
            return IonPyNull.from_value(ITYPE[n], None, toks), V(n, None, ann)
        if t in (LIST, SEXP):
            kids = [self.make(depth + 1) for _ in range(r.choice([0, 1, 2, 4]))]
            return IonPyList.from_value(ITYPE[t], [o for o, _ in kids], toks), V(t, [v for _, v in kids], ann)
        if t == STRUCT:
            o = IonPyDict.from_value(IonType.STRUCT, {}, toks)
            fields = []
            for _ in range(r.choice([0, 1, 2, 4])):
                c, v = self.make(depth + 1)
                s = self.g.word() if r.random() < 0.9 else None
                o.add_item(s, c)
                fields.append((SYM0 if s is None else s, v))
            return o, grouped1(V(STRUCT, fields, ann))
        v = V(t, self.g.scalar(t), ann)
        if t == BOOL and r.random() < 0.5:
            return IonPyInt.from_value(IonType.BOOL, r.choice([int, bool])(v.v), toks), v
        if t == SYMBOL and r.random() < 0.3:
            return IonPyText.from_value(IonType.SYMBOL, v.v, toks), v
        return to_ion(v, r), v


def grouped1(x):
    """Fields of one name are next to each other."""
    order, groups = [], {}
    for n, c in x.v:
        if n not in groups:
            groups[n] = []
            order.append(n)
        groups[n].append(c)
    return V(x.t, [(n, c) for n in order for c in groups[n]], x.ann)


IGNORED = ['skipkeys', 'ensure_ascii', 'check_circular', 'allow_nan', 'cls', 'separators', 'encoding', 'default', 'use_decimal', 'namedtuple_as_object',
           'tuple_as_array', 'bigint_as_string', 'sort_keys', 'item_sort_key', 'for_json', 'ignore_nan', 'int_as_string_bitcount', 'iterable_as_array',
           'made_up']
IGNORED_LOAD = ['encoding', 'cls', 'object_hook', 'parse_float', 'parse_int', 'parse_constant', 'object_pairs_hook', 'use_decimal', 'made_up']


def ignored(r, names):
    return dict((n, r.choice([True, False, None, 'utf-16', len, 3, ()])) for n in r.sample(names, r.choice([0, 0, 1, 3])))


def written_by(ctx, obj, kw):
    """The output of dump and dumps, which must agree."""
    r = ctx.rng
    try:
        out = BytesIO()
        if r.random() < 0.5:
            out.write(b'x')
        at = out.tell()
        dump(obj, out, **kw)
        octets = out.getvalue()[at:]
        text = dumps(obj, **kw)
    except Exception as e:
        ctx.fail('dump of %s with %r: %s' % (describe(obj), kw, describe_error(e)))
    if kw.get('binary', True):
        if type(text) is not bytes or text != octets:
            ctx.fail('dumps gives %r, dump %r' % (text, octets))
    else:
        if type(text) is not str:
            ctx.fail('dumps gives text as %s' % type(text).__name__)
        if text.encode('utf-8') != octets:
            ctx.fail('dumps gives %r, dump %r' % (text, octets))
    ctx.n('dumps')
    return text


def describe(obj):
    try:
        return ascii(obj)[:300]
    except Exception:
        return object.__repr__(obj)


def judge(ctx, text, kw, want, obj, catalog=None):
    """The output must be exactly the values."""
    what = 'dump of %s with %r: %r' % (describe(obj), kw, text[:600])
    ctx.note(what)
    try:
        if kw.get('binary', True):
            if text[:4] != IVM or text.count(IVM) > 1 and text[4:8] == IVM:
                ctx.fail('%s: does not start with one version marker' % what)
            found = BinDec(text, catalog).decode()
        else:
            found = TextDec(text).decode()
    except (Bad, Unsure) as e:
        ctx.fail('%s: not well-formed: %s' % (what, e))
    same(want, found, what)


def options(ctx, binary=None):
    r = ctx.rng
    kw = {}
    if binary is None:
        binary = r.random() < 0.4
    if not binary or r.random() < 0.5:
        kw['binary'] = binary
    if r.random() < 0.5:
        kw['tuple_as_sexp'] = r.random() < 0.8
    if r.random() < 0.4:
        kw['indent'] = r.choice([None, '', ' ', '  ', '\t', ' \t', '\n', '\r\n'])
    if r.random() < 0.4:
        kw['omit_version_marker'] = r.random() < 0.7
    kw.update(ignored(r, IGNORED))
    return kw


def dumping(ctx):
    """Any object, any options."""
    r = ctx.rng
    kw = options(ctx)
    m = Maker(ctx, kw.get('tuple_as_sexp', False), r.choice([0.3, 0.7, 1.0]), r.choice([3, 10, 30]))
    if r.random() < 0.4:
        kw['sequence_as_stream'] = True
        ctx.n('streams')
        top = [m.make(1) for _ in range(r.choice([0, 1, 2, 4]))]
        top = [(o, v) for o, v in top if not is_system(v)]
        objs = [o for o, _ in top]
        want = [v for _, v in top]
        x = r.random()
        if x < 0.4:
            obj = objs
        elif x < 0.6:
            obj = tuple(objs)
        elif x < 0.7:
            obj = MyList(objs)
        elif x < 0.8:
            obj = Deeper(objs)
        elif x < 0.9:
            obj = IonPyList.from_value(r.choice([IonType.LIST, IonType.SEXP]), objs, r.choice([(), ('a',)]))
        else:
            # No sequence: the value itself.
            while True:
                obj, v = m.make(1)
                if not isinstance(obj, (list, tuple)) and not is_system(v) or isinstance(obj, SymbolToken) and not is_system(v):
                    break
            want = [v]
    else:
        if r.random() < 0.2:
            kw['sequence_as_stream'] = False
        while True:
            obj, v = m.make()
            if not is_system(v):
                break
        if r.random() < 0.08:
            # Deep nesting.
            for _ in range(int(2 ** r.uniform(0, 6))):
                if r.random() < 0.5:
                    obj, v = [obj], V(LIST, [v])
                else:
                    obj, v = {'k': obj}, V(STRUCT, [('k', v)])
            ctx.n('deep')
        elif r.random() < 0.02:
            # Many members.
            ctx.n('wide')
            n = int(2 ** r.uniform(3, 9))
            if r.random() < 0.5:
                obj, fields, names = {}, [], set()
                m.budget = 0
                while len(fields) < n:
                    key, name = m.key()
                    if r.random() < 0.7 and name not in (None, SYM0):
                        key = name = name + r.choice(['', ' ', '_']) + str(len(fields)) + r.choice(['', '', ' ', '\t', '\xa0', '"'])
                    if name not in names:
                        names.add(name)
                        o, x = m.make(5)
                        obj[key] = o
                        fields.append((name, x))
                v = V(STRUCT, fields)
            else:
                m.budget = 0
                kids = [m.make(5) for _ in range(n)]
                obj, v = [o for o, _ in kids], V(LIST, [x for _, x in kids])
        want = [v]
    binary = kw.get('binary', True)
    text = written_by(ctx, obj, kw)
    judge(ctx, text, kw, want, obj)
    if any(k in kw for k in IGNORED):
        ctx.n('ignored-options')
        plain = dict((k, v) for k, v in kw.items() if k not in IGNORED)
        if dumps(obj, **plain) != text:
            ctx.fail('an option without effect changes the output: %r' % (kw,))
    if not binary:
        marked = '$ion_1_0' == text[:8]
        if kw.get('omit_version_marker'):
            ctx.n('omitted')
            if marked and not (want and want[0].t == SYMBOL):
                ctx.fail('a version marker that should be omitted: %r' % text[:100])
        elif not marked:
            ctx.fail('no version marker: %r' % text[:100])
        if kw.get('indent') is None:
            ctx.n('compact')
            if '\n' in text:
                ctx.fail('newlines in compact text %r' % text[:300])
        else:
            ctx.n('indented')
            layout(ctx, text, kw['indent'], want)
    # Dumping changes nothing.
    if r.random() < 0.3 and dumps(obj, **kw) != text:
        ctx.fail('the second dump of %s differs' % describe(obj))
    ctx.distinct([shape(v) for v in want], sorted((k, repr(v)) for k, v in kw.items() if k not in IGNORED))
    if ctx.wants_sample():
        ctx.sample('%r -> %r' % (kw, text[:300]))


def is_system(v):
    return v.t == STRUCT and v.ann[:1] == ('$ion_symbol_table',) or v.t == SYMBOL and v.v == '$ion_1_0' and not v.ann


def layout(ctx, text, indent, want):
    """Members of containers stand on lines of their own, indented by their depth."""
    members = sum(len(x.v) for v in want for x, _ in walk(v) if x.v is not None and x.t >= LIST)
    i, n, depth, lines = 0, len(text), 0, 0
    while i < n:
        c = text[i]
        if text.startswith('{{', i) and not text.startswith('{{}', i) or text.startswith('{{}}', i):
            j = i + 2
            while not text.startswith('}}', j):
                if text[j] == '"':
                    j = string_end(text, j)
                else:
                    j += 1
            i = j + 2
            continue
        if c in '"\'':
            i = string_end(text, i)
            continue
        if c in '[({':
            depth += 1
        elif c in '])}':
            depth -= 1
        elif c == '\n' and '\n' not in indent:
            lines += 1
            j = i + 1
            while j < n and text[j] in ' \t\r\v\f':
                j += 1
            d = depth - 1 if j < n and text[j] in '])}' else depth
            if j < n and text[i + 1:j] != indent * d:
                ctx.fail('a line of depth %d starts with %r instead of %d times %r: %r' % (d, text[i + 1:j], d, indent, text[:600]))
            i = j
            continue
        i += 1
    if '\n' not in indent and lines < members:
        ctx.fail('%d members of containers on %d lines: %r' % (members, lines, text[:600]))


def string_end(text, j):
    q = text[j]
    j += 1
    while text[j] != q:
        j += 2 if text[j] == '\\' else 1
    return j + 1


def foreign(r):
    """An object of no supported type."""
    class Thing(object):
        pass

    class Listish(collections.UserList):
        pass
    return r.choice([lambda: Thing(), lambda: Thing, lambda: {1}, lambda: set(), lambda: frozenset([1]), lambda: 1j, lambda: range(3), lambda: iter([]),
                     lambda: (x for x in ()), lambda: collections.deque([1]), lambda: collections.UserDict(a=1), lambda: Listish([1]),
                     lambda: collections.UserString('a'), lambda: pytypes.MappingProxyType({}), lambda: dt.date(2000, 1, 1), lambda: dt.time(1),
                     lambda: dt.timedelta(1), lambda: bytearray(b'a'), lambda: memoryview(b'a'), lambda: fractions.Fraction(1, 2), lambda: uuid.UUID(int=1),
                     lambda: Ellipsis, lambda: NotImplemented, lambda: len, lambda: int, lambda: {}.keys(), lambda: BytesIO(b'1'), lambda: object(),
                     lambda: ValueError('a'), lambda: pytypes.SimpleNamespace(a=1), lambda: enum.Enum('E', 'A B').A, lambda: collections.ChainMap({})])()


def refused(ctx):
    """An object of another type, anywhere, gives a TypeError; so does a key that is no text."""
    r = ctx.rng
    kw = options(ctx)
    kw.pop('indent', None)
    m = Maker(ctx, kw.get('tuple_as_sexp', False), 0.8, 8)
    if r.random() < 0.2:
        key = r.choice([1, 1.5, b'a', (), True, frozenset(), Decimal(1), object(), dt.date(2000, 1, 1)])
        bad = {key: r.choice([1, 'a', None, []])}
        kind = 'refused.key'
    else:
        bad = foreign(r)
        kind = 'refused.type'
    inner = bad
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        o, _ = m.make(2)
        x = r.random()
        if x < 0.3:
            bad = r.choice([list, tuple, MyList, MyTuple])(r.choice([[bad], [o, bad], [bad, o]]))
        elif x < 0.6:
            bad = r.choice([{'a': bad}, collections.OrderedDict([('a', o), ('b', bad)]), {'a': bad, 'b': o}])
        elif x < 0.8:
            bad = IonPyList.from_value(r.choice([IonType.LIST, IonType.SEXP]), [o, bad])
        else:
            d = IonPyDict.from_value(IonType.STRUCT, {})
            d.add_item('a', o)
            d.add_item('a', bad)
            bad = d
    if r.random() < 0.3:
        kw['sequence_as_stream'] = True
    for f in (lambda: dumps(bad, **kw), lambda: dump(bad, BytesIO(), **kw)):
        try:
            got = f()
        except TypeError:
            ctx.n(kind)
        except Exception as e:
            ctx.fail('%s in %s with %r is refused with %s' % (describe(inner), describe(bad), kw, describe_error(e)))
        else:
            ctx.fail('%s in %s with %r is dumped as %r' % (describe(inner), describe(bad), kw, got))
    ctx.distinct(kind, type(inner).__name__, sorted(kw))


def loading(ctx):
    """single_value, the choice of the format, the forms of input, and options without effect."""
    r = ctx.rng
    values = Gen(r, budget=r.choice([3, 10, 20]), long_text=0.01).stream(r.choice([0, 1, 1, 1, 2, 2, 3]))
    kind = r.choice(['binary', 'text', 'unicode'])
    if kind == 'binary':
        data = StreamEnc(r, wild=0.2, nops=r.choice([0, 0.3])).stream(values)
        ctx.n('choice.binary')
    else:
        data = TextEnc(r, wild=0.3).stream(values)
        ctx.n('choice.text' if kind == 'text' else 'unicode.loads')
        if kind == 'text':
            data = data.encode('utf-8')
    kw = ignored(r, IGNORED_LOAD)
    single = r.choice([None, True, False])
    if single is not None:
        kw['single_value'] = single
    if r.random() < 0.1:
        kw['catalog'] = None
    how = r.random()
    before = ''
    if how < 0.4:
        run = lambda: loads(data, **kw)
    else:
        before = r.choice(['', '', '\xe0\x01\x00\xea', '[', '\xe0\x01', '"a', '{{', '/*'])
        if kind == 'unicode':
            fp = StringIO(before + data, newline='')
            if r.random() < 0.5:
                # Any other source of characters.
                fp = TextIOWrapper(BytesIO((before + data).encode('utf-8')), encoding='utf-8', newline='')
                ctx.n('text.files')
        else:
            fp = BytesIO(before.encode('latin-1') + data)
        if kind == 'unicode':
            fp.read(len(before))
        else:
            fp.seek(len(before))
        run = lambda: load(fp, **kw)
        if before:
            ctx.n('choice.offset')
    what = 'load of %r at %d with %r' % (before.encode('latin-1') + data if kind != 'unicode' else before + data, len(before), kw)
    ctx.note(what[:3000])
    want = [loaded_view(v) for v in values]
    try:
        got = run()
    except IonException as e:
        if single is False or len(values) == 1:
            ctx.fail('%s: %s' % (what, describe_error(e)))
        ctx.n('single.refused')
        return
    except Exception as e:
        ctx.fail('%s: %s' % (what, describe_error(e)))
    if single is not False:
        if len(values) != 1:
            ctx.fail('%s: %s although there are %d values' % (what, describe(got), len(values)))
        ctx.n('single.one')
        got = [got]
    elif not isinstance(got, list):
        ctx.fail('%s: a stream is loaded as %s' % (what, type(got).__name__))
    same(want, [value_of(o) for o in got], what)
    if how >= 0.4 and fp.read():
        ctx.fail('%s: the file is not read to its end' % what)
    ctx.distinct(kind, [shape(v) for v in values], sorted(kw))


def odd_inputs(ctx):
    """What decides between text and binary, and inputs that are neither."""
    r = ctx.rng
    x = r.choice([bytearray(b'1'), memoryview(b'1'), None, 5, 1.5, ['1'], (b'1',), {}, object(), int, BytesIO(b'1'), StringIO('1')])
    try:
        got = loads(x)
    except TypeError:
        ctx.n('refused.input')
    except Exception as e:
        ctx.fail('loads(%r): %s' % (x, describe_error(e)))
    else:
        ctx.fail('loads(%r) gives %r' % (x, got))
    # Octets that only begin like a version marker are no binary stream; nor are characters that look like one.
    for data in [IVM[:k] for k in (1, 2, 3)] + ['\xe0\x01\x00\xea', '\xe0\x01\x00\xea\x21\x01', b'\xe0\x01\x00\xeb\x21\x01', b'\xe0\x01\x01\xea\x21\x01', b'\x21\x01']:
        if r.random() < 0.5:
            f = lambda: loads(data, single_value=False)
        else:
            f = lambda: load((BytesIO if isinstance(data, bytes) else StringIO)(data), single_value=False)
        try:
            got = f()
        except IonException:
            ctx.n('refused.input')
        except Exception as e:
            if isinstance(data, bytes):
                ctx.n('refused.input')
                continue
            ctx.fail('%r: %s' % (data, describe_error(e)))
        else:
            ctx.fail('%r is loaded as %r' % (data, got))
    for data in [b'', '', IVM, b' ', '\n', b'$ion_1_0', '$ion_1_0 ', IVM + IVM]:
        got = loads(data, single_value=False)
        if got != []:
            ctx.fail('%r is loaded as %r' % (data, got))
        try:
            got = loads(data)
        except IonException:
            pass
        else:
            ctx.fail('%r is loaded as the single value %r' % (data, got))
    # The indentation must be whitespace.
    obj = r.choice([1, [1], {'a': [1]}, None])
    bad = r.choice(['x', ' x', 'x ', '.', '//', '\xa0', '\u2003', '\x1f', '\x00', '0', 2, 0, True, b' ', [' '], 1.5])
    try:
        got = dumps(obj, binary=False, indent=bad)
    except ValueError:
        ctx.n('refused.indent')
    except Exception as e:
        ctx.fail('indent=%r: %s' % (bad, describe_error(e)))
    else:
        ctx.fail('indent=%r gives %r' % (bad, got))
    ctx.distinct(repr(x)[:20], repr(bad), repr(obj))


def importing(ctx):
    """imports: the tables are declared in binary, and their symbols used; text does not change."""
    r = ctx.rng
    m = Maker(ctx, False, 0.7, 15)
    while True:
        obj, v = m.make()
        if not is_system(v):
            break
    cat = Catalog()
    tables = []
    used = [s for s in symbols_of(v) if isinstance(s, str)]
    for i in range(r.choice([1, 1, 2])):
        syms = sorted(set(r.choice((used or ['a']) + ['x', 'y', 'name']) for _ in range(r.choice([0, 1, 5]))), key=lambda s: (len(s), s))
        tables.append(shared_symbol_table('t%d' % i, i + 1, syms))
        cat.add('t%d' % i, i + 1, syms)
    imports = r.choice([tables, tuple(tables)])
    data = dumps(obj, imports=imports)
    judge(ctx, data, {'imports': imports}, [v], obj, cat)
    d = BinDec(data, cat)
    d.decode()
    ctx.n('imports')
    if dumps(obj, imports=imports, binary=False) != dumps(obj, binary=False):
        ctx.fail('imports change the text of %s' % describe(obj))
    # Without the tables, a reader cannot know the symbols: they must have been declared.
    declared = [s for t in tables for s in t]
    if declared and any(s.text in used for s in declared):
        if data == dumps(obj):
            ctx.fail('imports have no effect on %s' % describe(obj))
    from amazon.ion.symbols import SymbolTableCatalog
    c = SymbolTableCatalog()
    for t in tables:
        c.register(t)
    same([loaded_view(v)], [value_of(loads(data, catalog=c))], 'load with the catalog, of %s' % data.hex())
    ctx.distinct(shape(v), len(declared))


def namedtuple_finding():
    P = collections.namedtuple('P', 'x y')
    got = dumps(P(1, 2), binary=False, omit_version_marker=True)
    return None if got == '{x:1,y:2}' else 'dumps of the named tuple P(x=1, y=2) gives %s, while the documented table says struct' % got


KNOWN = [('C23-namedtuple-as-list', namedtuple_finding)]
FAMILIES = [('dumping', dumping, 24000), ('refused', refused, 4000), ('loading', loading, 8000), ('odd_inputs', odd_inputs, 300), ('importing', importing, 1500)]
