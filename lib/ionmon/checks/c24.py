from .. import cpython  # noqa: first of all, the surroundings of the library
import base64
import copy
import json
import math
import pickle
from fractions import Fraction
from amazon.ion.simpleion import load, loads
from amazon.ion.json_encoder import IonToJSONEncoder
from ..common import *

RULE = ('Random values, loaded from random legal encodings, made from Python values, copied and pickled, alone, in loaded containers and '
        'in native ones, are encoded by json.dumps with the encoder of the library under random options; a strict JSON parser reads the '
        'text and the tree is compared with the one that the rules of down-conversion give for the reference value.  Distinct: '
        'different shape of the values and options.')
ASSUMPTIONS = ['the encoder runs on CPython 3.12 (PyPy is not supported by it), with a stand-in for pkg_resources and names of collections '
               'that left the standard library; the rest of the library is imported from the same tree',
               'decimals that no finite float approximates, fields without text and more than 4300 digits are left out',
               'of repeated fields a JSON object can hold one: the last, as a loaded struct answers']
MIN = {'json.scalars': 12000, 'json.containers': 3000, 'json.nulls': 1200, 'json.texts': 3000, 'json.lobs': 1500, 'json.timestamps': 800, 'json.decimals': 800,
       'json.native': 1500, 'json.again': 3000}
THOROUGH = 15


class Out(Exception):
    """The value is outside the domain of this check."""


class Num(object):
    """A number as JSON writes it."""
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text


class Obj(list):
    """The members of a JSON object in order."""


def refuse(word):
    raise ValueError('%s is not JSON' % word)


def parse(text):
    return json.loads(text, object_pairs_hook=Obj, parse_float=Num, parse_int=Num, parse_constant=refuse, strict=True)


def nearest(v):
    """The float next to a decimal."""
    n, c, e = v
    if c == 0:
        return -0.0 if n else 0.0
    top = len(str(c)) + e
    if top > 309:
        raise Out()
    if top < -330:
        x = 0.0
    else:
        try:
            f = Fraction(c * 10 ** e) if e >= 0 else Fraction(c, 10 ** -e)
            x = f.numerator / f.denominator
        except OverflowError:
            raise Out()
    return -x if n else x


def clock(v):
    """The text of a timestamp: date, time and offset as Python writes them, cut to microseconds."""
    p, y, mo, d, h, mi, s, f, off = v
    out = '%04d-%02d-%02d %02d:%02d:%02d' % (y, mo, d, h, mi, s)
    if f is not None:
        c, n = f
        micro = c * 10 ** 6 // 10 ** n
        if micro:
            out += '.%06d' % micro
    if off is not None:
        out += '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    return out


def rules(x):
    """The JSON tree of an Ion value; annotations go, every null is null."""
    t, v = x.t, x.v
    if v is None:
        return None
    if t in (BOOL, STRING):
        return v
    if t == INT:
        return ('int', v)
    if t == FLOAT:
        return None if math.isnan(v) or math.isinf(v) else ('float', v)
    if t == DECIMAL:
        return ('float', nearest(v))
    if t == TIMESTAMP:
        return clock(v)
    if t == SYMBOL:
        return v if isinstance(v, str) else None
    if t == CLOB:
        return ''.join([chr(b) for b in v])
    if t == BLOB:
        return base64.b64encode(v).decode('ascii')
    if t in (LIST, SEXP):
        return [rules(c) for c in v]
    order = {}
    for n, c in v:
        if not isinstance(n, str):
            raise Out()
        order[n] = c
    return ('object', [(n, rules(c)) for n, c in order.items()])


def compare(e, f, path, sort):
    """None, or how the tree found differs from the one expected."""
    if isinstance(e, tuple) and e[0] == 'object':
        if not isinstance(f, Obj):
            return '%s: an object is expected, %r found' % (path, f)
        members = e[1]
        if sort:
            members = sorted(members, key=lambda m: m[0])
        if [n for n, _ in members] != [n for n, _ in f]:
            return '%s: members %a are expected, %a found' % (path, [n for n, _ in members], [n for n, _ in f])
        for (n, a), (_, b) in zip(members, f):
            d = compare(a, b, '%s.%a' % (path, n), sort)
            if d:
                return d
        return None
    if isinstance(e, list):
        if not isinstance(f, list) or isinstance(f, Obj):
            return '%s: an array is expected, %r found' % (path, f)
        if len(e) != len(f):
            return '%s: %d elements are expected, %d found' % (path, len(e), len(f))
        for i, (a, b) in enumerate(zip(e, f)):
            d = compare(a, b, '%s[%d]' % (path, i), sort)
            if d:
                return d
        return None
    if isinstance(e, tuple):
        if not isinstance(f, Num):
            return '%s: the number %r is expected, %r found' % (path, e[1], f)
        if e[0] == 'int':
            ok = f.text == str(e[1])
        else:
            ok = float_key(float(f.text)) == float_key(e[1])
        return None if ok else '%s: the number %r is expected, %s found' % (path, e[1], f.text)
    if type(e) is not type(f) or e != f:
        return '%s: %a is expected, %a found' % (path, e, f.text if isinstance(f, Num) else f)
    return None


def options(r):
    kw = {}
    if r.random() < 0.3:
        kw['indent'] = r.choice([0, 1, 2, '\t', ''])
    if r.random() < 0.3:
        kw['sort_keys'] = True
    if r.random() < 0.3:
        kw['ensure_ascii'] = False
    if r.random() < 0.3:
        kw['separators'] = r.choice([(',', ':'), (', ', ': '), (' , ', ' :\n')])
    if r.random() < 0.2:
        kw['allow_nan'] = False
    if r.random() < 0.2:
        kw['check_circular'] = False
    return kw


def route(r, values):
    """The values as the library holds them, by one of the ways to get them."""
    x = r.random()
    if x < 0.3:
        data = StreamEnc(r, wild=r.choice([0.0, 0.3])).stream(values)
        objs = loads(data, single_value=False)
    elif x < 0.6:
        text = TextEnc(r, wild=r.choice([0.0, 0.3])).stream(values)
        objs = loads(text, single_value=False) if r.random() < 0.5 else load(BytesIO(text.encode('utf-8')), single_value=False)
    else:
        objs = [to_ion(v, r) for v in values]
    x = r.random()
    if x < 0.1:
        objs = [copy.copy(o) for o in objs]
    elif x < 0.2:
        objs = [copy.deepcopy(o) for o in objs]
    elif x < 0.3:
        objs = [pickle.loads(pickle.dumps(o, r.choice([2, pickle.HIGHEST_PROTOCOL]))) for o in objs]
    return objs


def text_of(ctx, obj, kw, what):
    r = ctx.rng
    try:
        if r.random() < 0.2:
            out = StringIO(newline='')
            json.dump(obj, out, cls=IonToJSONEncoder, **kw)
            return out.getvalue()
        return json.dumps(obj, cls=IonToJSONEncoder, **kw)
    except Exception as e:
        ctx.fail('%s: the encoder refuses it with %s' % (what, describe_error(e)))


def judge(ctx, obj, expected, what):
    r = ctx.rng
    kw = options(r)
    text = text_of(ctx, obj, kw, what)
    if type(text) is not str:
        ctx.fail('%s: the result is %r' % (what, type(text)))
    try:
        found = parse(text)
    except ValueError as e:
        ctx.fail('%s with %r gives %a, which is no JSON: %s' % (what, kw, text[:400], e))
    d = compare(expected, found, '$', 'sort_keys' in kw)
    if d:
        ctx.fail('%s with %r gives %a: %s' % (what, kw, text[:400], d))
    if kw.get('ensure_ascii', True) and any(ord(c) > 127 for c in text):
        ctx.fail('%s with %r gives %a, not all ASCII' % (what, kw, text[:400]))
    if r.random() < 0.3:
        if text_of(ctx, obj, kw, what) != text:
            ctx.fail('%s with %r: the second encoding differs from %a' % (what, kw, text[:400]))
        ctx.n('json.again')
    return text, kw


def tally(ctx, v):
    for x, _ in walk(v):
        if x.v is None:
            ctx.n('json.nulls')
        elif x.t >= LIST:
            ctx.n('json.containers')
        else:
            ctx.n('json.scalars')
            ctx.n({TIMESTAMP: 'json.timestamps', DECIMAL: 'json.decimals', CLOB: 'json.lobs', BLOB: 'json.lobs', SYMBOL: 'json.texts',
                   STRING: 'json.texts'}.get(x.t, 'json.others'))


def usable(v):
    try:
        rules(v)
        return True
    except Out:
        return False


def down(ctx):
    """Values of all types, one at a time."""
    r = ctx.rng
    g = Gen(r, budget=r.choice([5, 20, 60]), sym0=r.random() < 0.2)
    values = [v for v in g.stream(r.choice([1, 2, 4])) if usable(v)]
    if not values:
        return
    objs = route(r, values)
    if len(objs) != len(values):
        ctx.fail('%d values of %d came back' % (len(objs), len(values)))
    texts = []
    for v, o in zip(values, objs):
        before = key(value_of(o))
        text, kw = judge(ctx, o, rules(v), show(v)[:500])
        if key(value_of(o)) != before:
            ctx.fail('encoding %s changed it to %s' % (show(v)[:400], show(value_of(o))[:400]))
        tally(ctx, v)
        ctx.distinct(shape(v), sorted(kw))
        texts.append(text)
    if ctx.wants_sample():
        ctx.sample('%s > %s' % (show(values[0])[:250], ascii(texts[0])[:250]))


def plain(r):
    return r.choice([None, True, False, 0, -5, 10 ** 30, 1.5, -0.0, 'text', '\u2603', '', [], {}, [1, 'a'], {'k': None}])


def plain_rules(p):
    if isinstance(p, list):
        return [plain_rules(c) for c in p]
    if isinstance(p, dict):
        return ('object', [(n, plain_rules(c)) for n, c in p.items()])
    if isinstance(p, bool) or p is None or isinstance(p, str):
        return p
    return ('int' if isinstance(p, int) else 'float', p)


def native(ctx):
    """Ion values within native lists, tuples and dictionaries, with native values next to them."""
    r = ctx.rng
    g = Gen(r, budget=r.choice([10, 30]), sym0=False)
    values = [v for v in g.stream(r.choice([2, 4, 6])) if usable(v)]
    objs = route(r, values)
    parts = [(o, rules(v)) for o, v in zip(objs, values)]
    for _ in range(r.choice([0, 1, 2])):
        p = plain(r)
        parts.insert(r.randint(0, len(parts)), (p, plain_rules(p)))
    while len(parts) > 1 or r.random() < 0.5:
        n = r.randint(0, min(4, len(parts)))
        some, parts = parts[:n], parts[n:]
        x = r.random()
        if x < 0.35:
            new = ([o for o, _ in some], [e for _, e in some])
        elif x < 0.5:
            new = (tuple([o for o, _ in some]), [e for _, e in some])
        else:
            names = r.sample(['a', 'b', 'c', '', '\u2603', 'null', 'x y', '\n', '"'], n)
            new = (dict(zip(names, [o for o, _ in some])), ('object', list(zip(names, [e for _, e in some]))))
        parts.insert(r.randint(0, len(parts)), new)
    if not parts:
        return
    obj, expected = parts[0]
    what = 'a native container of %s' % ', '.join(show(v) for v in values)[:500]
    judge(ctx, obj, expected, what)
    for v in values:
        tally(ctx, v)
    ctx.n('json.native')
    ctx.distinct([shape(v) for v in values])


def numbers(ctx):
    """Floats and decimals around every bound of the double format; long integers."""
    r = ctx.rng
    for _ in range(8):
        x = r.random()
        if x < 0.3:
            v = V(FLOAT, r.choice([Gen.float_(Gen(r)), float('nan'), float('inf'), -float('inf')]))
        elif x < 0.5:
            v = V(INT, Gen(r).int_() * 10 ** r.choice([0, 0, 5, 300]))
        elif x < 0.75:
            # Half-way between two floats, and next to that.
            x = abs(Gen(r).float_() if r.random() < 0.5 else r.uniform(-4, 4))
            if math.isnan(x) or math.isinf(x) or x < 1e-300 or x > 1e300:
                continue
            f = Fraction(x) + r.choice([0, 1, 1]) * (Fraction(math.nextafter(x, math.inf)) - Fraction(x)) / 2
            n, k = f.numerator, f.denominator.bit_length() - 1
            if k > 1080 or n.bit_length() > 1100:
                continue
            v = V(DECIMAL, (r.random() < 0.5, n * 5 ** k + r.choice([0, 0, 1]), -k))
        else:
            v = V(DECIMAL, (r.random() < 0.5, r.choice([0, 1, 17976931348623157, 17976931348623158, 49, 5, 24703282292062327, 22250738585072014]),
                            r.choice([292, 291, -324, -325, -323, -340, 308, 307, -308, r.randint(-345, 309)])))
        v.ann = ('x',) if r.random() < 0.2 else ()
        if r.random() < 0.05:
            v.v = None
        if not usable(v):
            continue
        try:
            obj, = route(r, [v])
        except (ValueError, OverflowError) as e:
            ctx.fail('%s can not be made: %s' % (show(v)[:300], describe_error(e)))
        judge(ctx, obj, rules(v), show(v)[:400])
        tally(ctx, v)
        ctx.distinct(shape(v))


FAMILIES = [('down', down, 5000), ('native', native, 2500), ('numbers', numbers, 1500)]
