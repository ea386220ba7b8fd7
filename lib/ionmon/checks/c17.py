import copy
import pickle
from amazon.ion.equivalence import ion_equals
from amazon.ion.simpleion import dumps, loads
from ..common import *

RULE = ('Random histories of operations (add_item, assignment, deletion, lookup, get, get_all_values and changes through it, pop, setdefault, update, clear, copies, construction from '
        'dictionaries and structs) run on Multimap and IonPyDict objects, built fresh or loaded, next to a shadow model (an ordered dictionary of lists).  After every operation '
        'length, iteration, items, membership, every lookup and every list of values are compared; what is written and read back, the comparison with other structs '
        'and with mappings is compared with the model at random moments.  Distinct: different histories.')
ASSUMPTIONS = ['fields are grouped by name in the order of first addition', 'keys() and iteration give each name once, the length counts values',
               'the values of a field are not emptied through the list get_all_values returns']
MIN = {'large': 80, 'histories': 2500, 'ops': 35000, 'views': 35000, 'refused': 4000, 'op.add': 8000, 'op.set': 2500, 'op.del': 2000, 'op.values': 1500, 'op.bulk': 1500, 'repeated': 12000,
       'written': 2500, 'compared': 8000, 'compared.equal': 1500, 'documents': 900}
THOROUGH = 30

NAMES_POOL = ['a', 'b', 'c', '', 'name', '\u2603', 'a b', 'null', '$0', 'A']


class Shadow(object):
    def __init__(self):
        self.keys = []
        self.lists = {}

    def add(self, k, v):
        if k not in self.lists:
            self.keys.append(k)
            self.lists[k] = []
        self.lists[k].append(v)

    def set(self, k, v):
        if k not in self.lists:
            self.keys.append(k)
        self.lists[k] = [v]

    def delete(self, k):
        del self.lists[k]
        self.keys.remove(k)

    def items(self):
        return [(k, v) for k in self.keys for v in self.lists[k]]

    def copy(self):
        s = Shadow()
        s.keys = list(self.keys)
        s.lists = dict((k, list(v)) for k, v in self.lists.items())
        return s


def same_objects(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def same_items(a, b):
    return len(a) == len(b) and all(len(x) == 2 and x[0] == y[0] and x[1] is y[1] for x, y in zip(a, b))


class Run(object):
    def __init__(self, ctx, m, s):
        self.ctx = ctx
        self.m = m
        self.s = s
        self.log = []

    def fail(self, what):
        self.ctx.fail('%s after %s' % (what, '; '.join(self.log[-20:])))

    def view(self):
        ctx, m, s, r = self.ctx, self.m, self.s, self.ctx.rng
        ctx.n('views')
        items = s.items()
        if len(m) != len(items):
            self.fail('length %d instead of %d' % (len(m), len(items)))
        if bool(m) is not bool(items):
            self.fail('truth %r' % bool(m))
        if list(m) != s.keys or list(iter(m)) != s.keys or list(m.keys()) != s.keys:
            self.fail('iterates as %r, keys %r, instead of %r' % (list(m), list(m.keys()), s.keys))
        if not same_items(m.items(), items):
            self.fail('items %r instead of %r' % (m.items(), items))
        it = m.iteritems()
        if not same_items(list(it), items):
            self.fail('iteritems %r instead of %r' % (list(m.iteritems()), items))
        if not same_objects(list(m.values()), [s.lists[k][-1] for k in s.keys]):
            self.fail('values %r' % (list(m.values()),))
        names = set(NAMES_POOL) | set(s.keys)
        for k in names:
            if (k in m) is not (k in s.lists) or (k in m.keys()) is not (k in s.lists):
                self.fail('membership of %r is %r' % (k, k in m))
            if k in s.lists:
                want = s.lists[k]
                if m[k] is not want[-1] or m.get(k) is not want[-1]:
                    self.fail('[%r] is %r instead of %r' % (k, m[k], want[-1]))
                vs = m.get_all_values(k)
                if len(vs) != len(want) or not same_objects(list(vs), want) or not same_objects([vs[i] for i in range(len(vs))], want) or vs[-1] is not want[-1]:
                    self.fail('all values of %r are %r instead of %r' % (k, list(vs), want))
                if len(want) > 1:
                    ctx.n('repeated')
            else:
                self.refuse(KeyError, lambda: m[k], 'lookup of %r' % k)
                if r.random() < 0.3:
                    self.refuse(KeyError, lambda: m.get_all_values(k), 'all values of %r' % k)
                if m.get(k) is not None or m.get(k, 5) != 5:
                    self.fail('get of %r is %r' % (k, m.get(k, 5)))

    def refuse(self, kind, f, what):
        try:
            x = f()
        except kind:
            self.ctx.n('refused')
        except Exception as e:
            self.fail('%s: %s' % (what, describe_error(e)))
        else:
            self.fail('%s: %r' % (what, x))

    def step(self):
        ctx, m, s, r = self.ctx, self.m, self.s, self.ctx.rng
        ctx.n('ops')
        op = r.choice(['add'] * 5 + ['set', 'set', 'del', 'del', 'values', 'pop', 'setdefault', 'update', 'clear', 'popitem', 'copy', 'construct'])
        k = r.choice(s.keys) if s.keys and r.random() < 0.6 else r.choice(NAMES_POOL)
        v = fresh(r)
        self.log.append('%s %r' % (op, k))
        if op == 'add':
            ctx.n('op.add')
            if m.add_item(k, v) is not None:
                self.fail('add_item returns something')
            s.add(k, v)
        elif op == 'set':
            ctx.n('op.set')
            m[k] = v
            s.set(k, v)
        elif op == 'del':
            ctx.n('op.del')
            if k in s.lists:
                del m[k]
                s.delete(k)
            else:
                self.refuse(KeyError, lambda: m.__delitem__(k), 'deletion of %r' % k)
        elif op == 'values':
            ctx.n('op.values')
            if k not in s.lists:
                return
            vs, want = m.get_all_values(k), s.lists[k]
            how = r.choice(['append', 'insert', 'set', 'del', 'extend', 'reverse', 'index', 'slice'])
            self.log[-1] += ' ' + how
            if how == 'append':
                vs.append(v)
                want.append(v)
            elif how == 'insert':
                i = r.randint(0, len(want))
                vs.insert(i, v)
                want.insert(i, v)
            elif how == 'set':
                i = r.randrange(-len(want), len(want))
                vs[i] = v
                want[i] = v
            elif how == 'del' and len(want) > 1:
                i = r.randrange(len(want))
                del vs[i]
                del want[i]
            elif how == 'extend':
                vs.extend([v, v])
                want.extend([v, v])
            elif how == 'reverse':
                vs.reverse()
                want.reverse()
            elif how == 'index':
                x = r.choice(want)
                if want[vs.index(x)] != x or vs.count(x) != want.count(x) or (x in vs) is not True:
                    self.fail('the values of %r: index, count' % k)
                self.refuse(IndexError, lambda: vs[len(want)], 'value %d of %r' % (len(want), k))
            elif how == 'slice':
                if not same_objects(vs[1:], want[1:]) or not same_objects(list(reversed(vs)), want[::-1]):
                    self.fail('slices of the values of %r' % k)
        elif op == 'pop':
            ctx.n('op.bulk')
            if k in s.lists:
                if m.pop(k) is not s.lists[k][-1]:
                    self.fail('pop of %r' % k)
                s.delete(k)
            else:
                self.refuse(KeyError, lambda: m.pop(k), 'pop of %r' % k)
                if m.pop(k, 7) != 7:
                    self.fail('pop of %r with a default' % k)
        elif op == 'setdefault':
            ctx.n('op.bulk')
            got = m.setdefault(k, v)
            if k not in s.lists:
                s.set(k, v)
            if got is not s.lists[k][-1]:
                self.fail('setdefault of %r is %r' % (k, got))
        elif op == 'update':
            ctx.n('op.bulk')
            d = dict((r.choice(NAMES_POOL), fresh(r)) for _ in range(r.choice([0, 1, 3])))
            self.log[-1] += ' ' + repr(sorted(d))
            m.update(d if r.random() < 0.5 else list(d.items()))
            for q in d:
                s.set(q, d[q])
        elif op == 'clear':
            if r.random() < 0.3:
                m.clear()
                s.keys, s.lists = [], {}
        elif op == 'popitem':
            ctx.n('op.bulk')
            if not s.keys:
                self.refuse(KeyError, m.popitem, 'popitem')
            else:
                q, x = m.popitem()
                if q not in s.lists or x is not s.lists[q][-1]:
                    self.fail('popitem gives %r' % ((q, x),))
                s.delete(q)
        elif op == 'copy':
            c = copy.copy(m)
            if type(c) is not type(m) or not same_items(c.items(), s.items()):
                self.fail('a copy has %r' % (c.items(),))
            # The history goes on with one of the two; the other must not notice.
            if r.random() < 0.5:
                self.other(c)
            else:
                self.m = c
                self.other(m)
        elif op == 'construct':
            src = m if r.random() < 0.5 else dict(m)
            c = type(m)(src)
            want = s.items() if src is m else [(q, s.lists[q][-1]) for q in s.keys]
            if not same_items(c.items(), want):
                self.fail('constructed from %r: %r' % (src, c.items()))
            self.other(c)

    def other(self, o):
        """Changes another struct."""
        r = self.ctx.rng
        for k in list(o)[:2]:
            o.add_item(k, object())
        for k in list(o)[1:3]:
            del o[k]
        o['new'] = 1


def fresh(r):
    x = r.random()
    if x < 0.4:
        return r.choice([0, 1, 2, 'x', True, None, 1.5])
    if x < 0.6:
        return [r.randint(0, 3)]
    if x < 0.8:
        return IonPyText.from_value(IonType.STRING, r.choice(['x', 'y']), ('a',) if r.random() < 0.3 else ())
    return IonPyInt.from_value(IonType.INT, r.randint(0, 2))


def model_of(x):
    """The reference value of one of the values above."""
    if x is None:
        return V(NULL)
    if isinstance(x, bool):
        return V(BOOL, x)
    if isinstance(x, int):
        return V(INT, int(x), tuple(symbol_of(a) for a in getattr(x, 'ion_annotations', ())))
    if isinstance(x, float):
        return V(FLOAT, x)
    if isinstance(x, str):
        return V(STRING, str(x), tuple(symbol_of(a) for a in getattr(x, 'ion_annotations', ())))
    return V(LIST, [model_of(y) for y in x])


def written_view(run):
    """Writing sees exactly the fields."""
    ctx, r = run.ctx, run.ctx.rng
    m = run.m
    if not isinstance(m, IonPyDict) or m.ion_type is None:
        return
    want = V(STRUCT, [(k, model_of(v)) for k, v in run.s.items()], tuple(symbol_of(a) for a in m.ion_annotations))
    ctx.n('written')
    if r.random() < 0.5:
        data = dumps(m)
        found = BinDec(data).decode()
    else:
        data = dumps(m, binary=False)
        found = TextDec(data).decode()
    if keys(found) != keys([want]):
        run.fail('dumped as %s instead of %s' % (found, show(want)))
    back = loads(data)
    same([loaded_view(want)], [value_of(back)], 'loaded again after ' + '; '.join(run.log[-20:]))


def compared(run):
    """Comparison sees exactly the fields."""
    ctx, r = run.ctx, run.ctx.rng
    s = run.s
    a = type(run.m)()
    # Another struct, with the names in another order; perhaps one thing different.
    t = s.copy()
    r.shuffle(t.keys)
    way = r.choice(['same', 'same', 'drop', 'more', 'value', 'swap', 'rename', 'count'])
    items = t.items()
    if items and way == 'drop':
        del items[r.randrange(len(items))]
    elif way == 'more':
        items.append((r.choice(NAMES_POOL), object()))
    elif items and way == 'value':
        i = r.randrange(len(items))
        items[i] = (items[i][0], 'another value')
    elif items and way == 'rename':
        i = r.randrange(len(items))
        items[i] = ('another name', items[i][1])
    elif items and way == 'swap':
        ks = [k for k in t.keys if len(t.lists[k]) > 1]
        if ks:
            t.lists[ks[0]].reverse()
            items = t.items()
    elif items and way == 'count':
        # The same number of values, but another one repeated.
        ks = [k for k in t.keys if len(t.lists[k]) > 1]
        if ks:
            t.lists[ks[0]][0] = t.lists[ks[0]][-1]
            items = t.items()
    u = Shadow()
    for k, v in items:
        a.add_item(k, v)
        u.add(k, v)
    want = set(u.keys) == set(s.keys) and all(list(u.lists[k]) == list(s.lists[k]) for k in u.keys)
    ctx.n('compared')
    if want:
        ctx.n('compared.equal')
    for x, y in ((a, run.m), (run.m, a)):
        if (x == y) is not want or (x != y) is want:
            run.fail('%r == %r is %r' % (x.items(), y.items(), x == y))
    d = dict(items)
    want = len(s.items()) == len(d) and dict(s.items()) == d
    ctx.n('compared')
    if (run.m == d) is not want or (d == run.m) is not want or (run.m != d) is want or (d != run.m) is want:
        run.fail('%r == %r is %r' % (run.m.items(), d, run.m == d))
    # Equality in the data model: the values of a field are unordered.
    if all(not isinstance(v, type(object())) or type(v) is not object for _, v in items):
        x = V(STRUCT, [(k, model_of(v)) for k, v in items])
        y = V(STRUCT, [(k, model_of(v)) for k, v in s.items()])
        if type(a) is IonPyDict:
            p = IonPyDict.from_value(IonType.STRUCT, a)
            q = IonPyDict.from_value(IonType.STRUCT, run.m)
            want = dm_key(x) == dm_key(y)
            if ion_equals(p, q) is not want or ion_equals(q, p) is not want:
                run.fail('ion_equals of %r and %r is %r' % (p.items(), q.items(), ion_equals(p, q)))
            ctx.n('compared')
    for o in (None, 5, 'x', [], s.items()):
        if run.m == o or not (run.m != o):
            run.fail('equals %r' % (o,))
    run.refuse(TypeError, lambda: hash(run.m), 'hash')


def start(ctx):
    r = ctx.rng
    how = r.choice(['multimap', 'multimap', 'dict', 'ion', 'ion', 'loaded', 'loaded', 'empty'])
    s = Shadow()
    if how in ('multimap', 'ion', 'empty'):
        m = Multimap() if how == 'multimap' else IonPyDict() if how == 'empty' else IonPyDict.from_value(IonType.STRUCT, {}, ('ann',))
    elif how == 'dict':
        d = dict((k, fresh(r)) for k in r.sample(NAMES_POOL, r.randint(0, 4)))
        m = Multimap(d) if r.random() < 0.5 else IonPyDict.from_value(IonType.STRUCT, d)
        for k in d:
            s.add(k, d[k])
    else:
        fields = [(r.choice(NAMES_POOL), V(INT, i)) for i in range(r.choice([0, 1, 3, 6]))]
        x = V(STRUCT, fields, ('x',))
        data = StreamEnc(r).stream([x]) if r.random() < 0.5 else TextEnc(r).stream([x])
        m = loads(data)
        found = m.items()
        if [(k, int(v)) for k, v in found] != [(k, c.v) for k, c in grouped(x).v]:
            ctx.fail('loaded from %r: %r' % (data, found))
        for k, v in found:
            s.add(k, v)
    return how, m, s


def histories(ctx, many=False):
    r = ctx.rng
    how, m, s = start(ctx)
    run = Run(ctx, m, s)
    run.log.append(how)
    ctx.n('histories')
    run.view()
    if many:
        # Many values of a field, or many fields.
        n = int(2 ** r.uniform(5, 11))
        k = r.choice(NAMES_POOL)
        one = r.random() < 0.5
        run.log.append('%d %s' % (n, 'values of %r' % k if one else 'fields'))
        for i in range(n):
            q = k if one and r.random() < 0.97 else 'n%d' % (i if r.random() < 0.9 else r.randrange(n))
            v = fresh(r)
            m.add_item(q, v)
            s.add(q, v)
        run.view()
    ann = getattr(m, 'ion_annotations', None)
    typ = getattr(m, 'ion_type', None)
    for _ in range(r.choice([3, 8, 20, 40]) if not many else 4):
        run.step()
        run.view()
        if getattr(run.m, 'ion_annotations', None) != ann or getattr(run.m, 'ion_type', None) is not typ:
            run.fail('type or annotations changed')
        if r.random() < 0.15:
            compared(run)
        if r.random() < 0.1:
            written_view(run)
    compared(run)
    written_view(run)
    for p in (0, 2, pickle.HIGHEST_PROTOCOL):
        c = pickle.loads(pickle.dumps(run.m, p))
        if type(c) is not type(run.m) or [k for k, _ in c.items()] != [k for k, _ in s.items()] or list(c) != s.keys or len(c) != len(s.items()):
            run.fail('pickled: %r' % (c.items(),))
    ctx.note('; '.join(run.log))
    ctx.distinct('; '.join(run.log))
    if ctx.wants_sample():
        ctx.sample('; '.join(run.log)[:500])


def documents(ctx):
    """Structs of whole documents, at any depth."""
    r = ctx.rng
    g = Gen(r, budget=25, types=[STRUCT, STRUCT, LIST, INT, STRING, SYMBOL], words=['a', 'b', 'c', 'd'], sym0=False)
    values = g.stream(r.choice([1, 2, 3]))
    data = StreamEnc(r).stream(values) if r.random() < 0.5 else TextEnc(r).stream(values)
    objs = loads(data, single_value=False)
    ctx.n('documents')

    def check(obj, x):
        if x.v is None:
            return
        if x.t in (LIST, SEXP):
            for o, y in zip(obj, x.v):
                check(o, y)
        if x.t == STRUCT:
            by = {}
            order = []
            for n, y in x.v:
                if n not in by:
                    order.append(n)
                by.setdefault(n, []).append(y)
            if list(obj) != order or len(obj) != len(x.v):
                ctx.fail('%s: names %r, length %d' % (show(x), list(obj), len(obj)))
            for n in order:
                vs = list(obj.get_all_values(n))
                same([loaded_view(y) for y in by[n]], [value_of(o) for o in vs], 'values of field %r of %s' % (n, show(x)[:300]))
                if obj[n] is not vs[-1]:
                    ctx.fail('%s: lookup of %r is not the last value' % (show(x)[:300], n))
                for o, y in zip(vs, by[n]):
                    check(o, y)
            if 'zz' in obj:
                ctx.fail('%s has a field zz' % show(x))
    if len(objs) != len(values):
        ctx.fail('%d values' % len(objs))
    for o, x in zip(objs, values):
        check(o, x)
    ctx.distinct(repr([shape(x) for x in values])[:300])
    # Written again, all fields are there.
    if r.random() < 0.5:
        found = BinDec(dumps(objs, sequence_as_stream=True)).decode()
    else:
        found = TextDec(dumps(objs, binary=False, sequence_as_stream=True)).decode()
    same([grouped(x) for x in values], found, 'written again')


def large(ctx):
    """Histories of large structs."""
    ctx.n('large')
    histories(ctx, True)


FAMILIES = [('large', large, 120), ('histories', histories, 4000), ('documents', documents, 1500)]
