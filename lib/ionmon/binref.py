"""Reference binary Ion 1.0: an encoder that makes random legal choices and a strict decoder."""
import struct
from .model import *
from .symref import Table, Catalog, apply_lst, is_lst, is_faux_ivm

IVM = b'\xe0\x01\x00\xea'


def varuint(n, pad=0):
    out = [0x80 | (n & 0x7f)]
    n >>= 7
    while n:
        out.append(n & 0x7f)
        n >>= 7
    out.extend([0] * pad)
    return bytes(bytearray(reversed(out)))


def varint(n, negative=None, pad=0):
    if negative is None:
        negative = n < 0
    n = abs(n)
    groups = []
    while n >= 0x40:
        groups.append(n & 0x7f)
        n >>= 7
    groups.append(n)
    groups.extend([0] * pad)
    groups[-1] |= 0x40 if negative else 0
    groups[0] |= 0x80
    return bytes(bytearray(reversed(groups)))


def uint(n, pad=0):
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b'\0' * pad + b


def signed(n, negative, pad=0):
    """An Int field; empty for positive zero unless padded."""
    if n == 0 and not negative and not pad:
        return b''
    k = n.bit_length() // 8 + 1 + pad
    b = bytearray(n.to_bytes(k, 'big'))
    if negative:
        b[0] |= 0x80
    return bytes(b)


class BinEnc(object):
    """Encodes values with random legal choices; sid_of maps a model symbol to the symbol IDs it may be written with."""

    def __init__(self, rng, sid_of, wild=0.3, nops=0.1):
        self.r = rng
        self.sid_of = sid_of
        self.wild = wild
        self.nops = nops
        self.long_nops = False
        self.stats = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def w(self, p=None):
        return self.r.random() < (self.wild if p is None else p)

    def pad(self, p=0.3):
        if self.w() and self.r.random() < p:
            self.stat('padded-field')
            return self.r.choice([1, 1, 2, 3, 8])
        return 0

    def vu(self, n):
        return varuint(n, self.pad())

    def sid(self, sym):
        s = self.r.choice(self.sid_of(sym))
        return s

    def typed(self, tid, body):
        n = len(body)
        if n < 14 and not (self.w(0.3) and self.w()) and not (tid == 13 and n == 1):
            return bytes([tid << 4 | n]) + body
        if n < 14:
            self.stat('long-length')
        return bytes([tid << 4 | 14]) + self.vu(n) + body

    def nop(self):
        self.stat('nop')
        r = self.r
        x = r.random()
        if x < 0.4:
            return b'\x00'
        n = r.choice([1, 2, 3, 13, 14, 15, 130]) if x < 0.9 else r.randint(0, 300)
        junk = bytes([r.choice([0, 0x04, 0xe0, 0x0f, 0xff, 0x8e, r.getrandbits(8)]) for _ in range(n)])
        if self.long_nops and x > 0.99:
            junk = (junk + b'/')[-7:]
            n = int(2 ** r.uniform(8, 17))
            junk = (junk * (n // len(junk) + 1))[:n]
            self.stat('long-nop')
        if n < 14 and r.random() < 0.5:
            return bytes([n]) + junk
        return b'\x0e' + self.vu(n) + junk

    def maybe_nops(self):
        out = b''
        while self.r.random() < self.nops:
            out += self.nop()
        return out

    def value(self, x):
        body = self.bare(x)
        if x.ann:
            sids = b''.join([self.vu(self.sid(s)) for s in x.ann])
            inner = self.vu(len(sids)) + sids + body
            body = self.typed(14, inner)
            self.stat('annotated')
        return body

    def bare(self, x):
        r = self.r
        t, v = x.t, x.v
        if v is None:
            if t == NULL:
                return b'\x0f'
            tid = {BOOL: 1, INT: r.choice([2, 3]), FLOAT: 4, DECIMAL: 5, TIMESTAMP: 6, SYMBOL: 7, STRING: 8, CLOB: 9, BLOB: 10,
                   LIST: 11, SEXP: 12, STRUCT: 13}[t]
            return bytes([tid << 4 | 15])
        if t == BOOL:
            return b'\x11' if v else b'\x10'
        if t == INT:
            if v == 0:
                return b'\x20'
            return self.typed(3 if v < 0 else 2, uint(abs(v), self.pad()))
        if t == FLOAT:
            if float_key(v) == float_key(0.0) and r.random() < 0.6:
                return b'\x40'
            if r.random() < 0.5:
                try:
                    f = struct.pack('>f', v)
                    if float_key(struct.unpack('>f', f)[0]) == float_key(v):
                        self.stat('float32')
                        return b'\x44' + f
                except OverflowError:
                    pass
            return b'\x48' + struct.pack('>d', v)
        if t == DECIMAL:
            neg, c, e = v
            if v == (False, 0, 0) and not self.w():
                return b'\x50'
            return self.typed(5, varint(e, None, self.pad()) + signed(c, neg, self.pad()))
        if t == TIMESTAMP:
            return self.typed(6, self.timestamp(v))
        if t == SYMBOL:
            s = self.sid(v)
            if s == 0:
                return b'\x70'
            return self.typed(7, uint(s, self.pad()))
        if t == STRING:
            return self.typed(8, v.encode('utf-8'))
        if t == CLOB:
            return self.typed(9, v)
        if t == BLOB:
            return self.typed(10, v)
        if t in (LIST, SEXP):
            body = self.maybe_nops() + b''.join([self.value(c) + self.maybe_nops() for c in v])
            return self.typed(11 if t == LIST else 12, body)
        fields = []
        for n, c in v:
            fields.append((self.sid(n), self.value(c)))
        ordered = bool(fields) and all(fields[i][0] <= fields[i + 1][0] for i in range(len(fields) - 1)) and r.random() < 0.5
        out = b''
        last = 0
        for s, b in fields:
            while self.r.random() < self.nops:
                ns = last if ordered else r.choice([0, 0, last, 4, 10, 1000, 70000])
                out += self.vu(ns) + self.nop()
                self.stat('struct-nop')
            out += self.vu(s) + b
            last = s
        if self.r.random() < self.nops:
            out += self.vu(last) + self.nop()
            self.stat('struct-nop')
        if ordered:
            self.stat('ordered-struct')
            return b'\xd1' + self.vu(len(out)) + out
        return self.typed(13, out)

    def timestamp(self, ts):
        p, y, mo, d, h, mi, s, f, off = ts
        if off is None:
            head = varint(0, True, self.pad(0.1))
        else:
            head = varint(off, None, self.pad(0.1))
            y, mo, d, h, mi = shift(y, mo, d, h, mi, -off)
        out = head + self.vu(y)
        if p >= MONTH:
            out += self.vu(mo)
        if p >= DAY:
            out += self.vu(d)
        if p >= MINUTE:
            out += self.vu(h) + self.vu(mi)
        if p >= SECOND:
            out += self.vu(s)
            if f is not None:
                out += varint(-f[1], None, self.pad(0.1)) + signed(f[0], False, self.pad(0.1))
            elif self.w(0.1):
                self.stat('ignored-fraction')
                out += varint(self.r.choice([0, 0, 1, 5])) + (b'' if self.w(0.5) else b'\x00')
        return out


def shift(y, mo, d, h, mi, minutes):
    from .gen import days_in
    m = h * 60 + mi + minutes
    day, m = divmod(m, 1440)
    d += day
    while d < 1:
        mo -= 1
        if mo < 1:
            mo = 12
            y -= 1
        d += days_in(y, mo) if y >= 1 else 31
    while y <= 9999 and y >= 1 and d > days_in(y, mo):
        d -= days_in(y, mo)
        mo += 1
        if mo > 12:
            mo = 1
            y += 1
    return y, mo, d, m // 60, m % 60


def lst_value(symbols, append=False):
    fields = []
    if append:
        fields.append(('imports', V(SYMBOL, '$ion_symbol_table')))
    fields.append(('symbols', V(LIST, symbols)))
    return V(STRUCT, fields, ('$ion_symbol_table',))


class StreamEnc(object):
    """Encodes a stream of values, managing symbol tables with random choices (no imports)."""

    def __init__(self, rng, wild=0.3, nops=0.1):
        self.r = rng
        self.table = None
        self.index = None
        self.enc = BinEnc(rng, lambda s: self.index[s], wild, nops)

    def reset(self):
        self.table = Table()
        self.index = self.table.index()

    def declare(self, need):
        r = self.r
        texts = list(need)
        r.shuffle(texts)
        syms = [V(STRING, t) for t in texts]
        while r.random() < 0.3:
            syms.insert(r.randint(0, len(syms)), r.choice([V(STRING, 'unused'), V(NULL), V(STRING), V(INT, 7), V(STRING, 'name'),
                                                            V(LIST, [V(INT, 1)]), V(STRUCT, [('name', V(INT, 2))])]))
        if r.random() < 0.15:
            k = r.choice([5, 60, 130, 260])
            syms = [V(STRING, 'filler%d' % i) for i in range(k)] + syms
        append = r.random() < 0.4
        lst = lst_value(syms, append)
        if r.random() < 0.15:
            lst.v.insert(r.randint(0, len(lst.v)), r.choice([('name', V(INT, 1)), ('version', V(LIST, [V(STRING, 'x')])),
                                                             ('max_id', V(STRUCT, []))]))
        if r.random() < 0.1:
            lst.ann += ('name',)
        if r.random() < 0.3:
            lst.v.reverse()
        out = self.enc.value(lst)
        self.table = apply_lst(lst, self.table, Catalog())
        self.index = self.table.index()
        return out

    def stream(self, values):
        r = self.r
        out = [IVM]
        self.reset()
        i = 0
        while i < len(values):
            if r.random() < self.enc.nops:
                out.append(self.enc.nop())
            if r.random() < 0.08:
                out.append(IVM)
                self.reset()
            # how many of the next values share the table
            k = min(len(values) - i, r.choice([1, 2, 1000, 1000]))
            need = set()
            for v in values[i:i + k]:
                need.update(symbols_of(v))
            missing = [s for s in sorted(need, key=repr) if s not in self.index]
            if missing or r.random() < 0.05:
                known = [s for s in need if s in self.index and isinstance(s, str) and s not in SYSTEM]
                out.append(self.declare(sorted(missing) + sorted(known)))
            for v in values[i:i + k]:
                out.append(self.enc.value(v))
                while r.random() < self.enc.nops:
                    out.append(self.enc.nop())
            i += k
        if r.random() < 0.05:
            out.append(IVM)
        return b''.join(out)


# ---------------------------------------------------------------------------------------------------------------------
class BinDec(object):
    """Strict decoder of a binary stream.  Values decoded so far are in .values; segments tells table declarations."""

    def __init__(self, data, catalog=None, strict_open=True, symtabs=True):
        self.d = bytes(data)
        self.catalog = catalog or Catalog()
        self.table = Table()
        self.values = []
        self.lsts = []          # (number of values before, list of imports, list of local symbols, used symbol IDs)
        self.events = []        # ('ivm',), ('lst', value), ('value', value) in order
        self.used = set()
        self.uses = []          # (table, symbol IDs used while it was in force)
        self.open = strict_open  # raise Unsure where the specification is open
        self.extents = []
        self.marks = []         # offsets at which the stream is complete
        self.path = []          # where in the value the decoder is: field names and types of containers
        self.in_table = False   # whether the value is a symbol table

    def unsure(self, why):
        if self.open:
            raise Unsure(why)

    def take(self, pos, n, end):
        if n < 0 or pos + n > end:
            raise Bad('overrun at %d' % pos)
        return self.d[pos:pos + n], pos + n

    def vu(self, pos, end):
        n = 0
        while True:
            if pos >= end:
                raise Bad('VarUInt under-run')
            o = self.d[pos]
            pos += 1
            n = n << 7 | (o & 0x7f)
            if o & 0x80:
                return n, pos

    def vi(self, pos, end):
        if pos >= end:
            raise Bad('VarInt under-run')
        o = self.d[pos]
        pos += 1
        neg = bool(o & 0x40)
        n = o & 0x3f
        while not o & 0x80:
            if pos >= end:
                raise Bad('VarInt under-run')
            o = self.d[pos]
            pos += 1
            n = n << 7 | (o & 0x7f)
        return neg, n, pos

    def decode(self):
        d = self.d
        end = len(d)
        if not end:
            self.marks.append(0)
            return self.values
        if d[:4] != IVM:
            raise Bad('no version marker')
        pos = 0
        while pos < end:
            self.marks.append(pos)
            if d[pos] == 0xe0:
                m, pos = self.take(pos, 4, end)
                if m != IVM:
                    raise Bad('bad version marker')
                self.switch(Table())
                self.events.append(('ivm',))
                continue
            start = pos
            self.path = []
            self.in_table = False
            try:
                x, pos = self.value(pos, end, 0)
            except Bad as e:
                if self.in_table and not self.consumed(str(e)):
                    raise Unsure('in an ignored part of a symbol table: %s' % e)
                raise
            if x is None:
                continue
            self.extents.append((start, pos))
            if is_lst(x):
                self.lsts.append((len(self.values), x))
                self.events.append(('lst', x))
                self.switch(apply_lst(x, self.table, self.catalog, strict=self.open))
            elif is_faux_ivm(x):
                self.unsure('faux version marker')
            else:
                if x.t == STRUCT and x.v is None and x.ann and x.ann[0] == '$ion_symbol_table':
                    self.unsure('null symbol table')
                self.values.append(x)
                self.events.append(('value', x))
        self.marks.append(end)
        self.uses.append((self.table, self.used))
        return self.values

    def consumed(self, why):
        """Whether the part of a symbol table that is bad is one that gives it its meaning."""
        p = self.path
        framing = why.startswith('overrun at') or why in ('reserved type', 'value missing')
        if not p:
            return framing or why.startswith('undefined field')
        if p[0] not in ('symbols', 'imports'):
            return len(p) == 1 and framing
        if p == ['symbols', LIST] and why == 'UTF-8':
            return True
        return framing and p in (['symbols'], ['imports'], ['symbols', LIST], ['imports', LIST])

    def switch(self, table):
        self.uses.append((self.table, self.used))
        self.table = table
        self.used = set()

    def sym(self, sid, what='symbol ID'):
        self.used.add(sid)
        s = self.table.lookup(sid)
        if s is None:
            raise Bad('undefined %s %d' % (what, sid))
        return s

    def length(self, low, pos, end):
        if low == 14:
            return self.vu(pos, end)
        return low, pos

    def value(self, pos, end, depth, annotated=False):
        """One value, or None for padding, and the position after it."""
        if depth > 150:
            raise Unsure('deep')
        if pos >= end:
            raise Bad('value missing')
        octet = self.d[pos]
        pos += 1
        tid, low = octet >> 4, octet & 15
        if tid == 15:
            raise Bad('reserved type')
        if tid == 14:
            return self.wrapper(low, pos, end, depth, annotated)
        if low == 15:
            t = [NULL, BOOL, INT, INT, FLOAT, DECIMAL, TIMESTAMP, SYMBOL, STRING, CLOB, BLOB, LIST, SEXP, STRUCT][tid]
            return V(t), pos
        if tid == 0:
            n, pos = self.length(low, pos, end)
            _, pos = self.take(pos, n, end)
            if annotated:
                raise Bad('annotated padding')
            return None, pos
        if tid == 1:
            if low > 1:
                raise Bad('bool length')
            return V(BOOL, low == 1), pos
        if tid == 13 and low == 1:
            n, pos = self.vu(pos, end)
            if n == 0:
                raise Bad('empty ordered struct')
            ordered = True
        else:
            ordered = False
            if tid == 4 and low not in (0, 4, 8):
                raise Bad('float length')
            n, pos = self.length(low, pos, end)
        body, after = self.take(pos, n, end)
        if tid in (2, 3):
            v = int.from_bytes(body, 'big')
            if tid == 3:
                if v == 0:
                    raise Bad('negative zero')
                v = -v
            if v == 0 and octet != 0x20:
                self.unsure('padded zero')
            return V(INT, v), after
        if tid == 4:
            v = 0.0 if n == 0 else struct.unpack('>f' if n == 4 else '>d', body)[0]
            return V(FLOAT, v), after
        if tid == 5:
            return V(DECIMAL, self.decimal(pos, after)), after
        if tid == 6:
            return V(TIMESTAMP, self.timestamp(pos, after)), after
        if tid == 7:
            s = int.from_bytes(body, 'big')
            if s == 0 and octet != 0x70:
                self.unsure('padded symbol zero')
            return V(SYMBOL, self.sym(s)), after
        if tid == 8:
            try:
                return V(STRING, body.decode('utf-8')), after
            except UnicodeDecodeError:
                raise Bad('UTF-8')
        if tid in (9, 10):
            return V(CLOB if tid == 9 else BLOB, body), after
        if tid in (11, 12):
            kids = []
            self.path.append(LIST if tid == 11 else SEXP)
            while pos < after:
                k, pos = self.value(pos, after, depth + 1)
                if k is not None:
                    kids.append(k)
            self.path.pop()
            return V(LIST if tid == 11 else SEXP, kids), after
        kids = []
        last = -1
        while pos < after:
            s, pos = self.vu(pos, after)
            if ordered and s < last:
                self.unsure('unsorted ordered struct')
            last = s
            self.path.append(self.table.lookup(s))
            k, pos2 = self.value(pos, after, depth + 1)
            self.path.pop()
            pos = pos2
            if k is not None:
                kids.append((self.sym(s, 'field name'), k))
        return V(STRUCT, kids), after

    def wrapper(self, low, pos, end, depth, annotated):
        if low < 3 or low == 15:
            raise Bad('annotation wrapper length')
        if annotated:
            raise Bad('nested annotation wrapper')
        n, pos = self.length(low, pos, end)
        _, after = self.take(pos, n, end)
        k, pos = self.vu(pos, after)
        if k < 1:
            raise Bad('no annotations')
        _, apos = self.take(pos, k, after)
        sids = []
        while pos < apos:
            s, pos = self.vu(pos, apos)
            sids.append(s)
        if pos >= after:
            raise Bad('no annotated value')
        if depth == 0 and self.table.lookup(sids[0]) == '$ion_symbol_table' and self.d[pos] >> 4 == 13:
            self.in_table = True
        x, pos = self.value(pos, after, depth, annotated=True)
        if pos != after:
            raise Bad('annotation wrapper length mismatch')
        return V(x.t, x.v, [self.sym(s) for s in sids]), after

    def decimal(self, pos, end):
        if pos == end:
            return (False, 0, 0)
        neg, e, pos = self.vi(pos, end)
        if neg:
            if e == 0:
                self.unsure('negative zero exponent')
            e = -e
        if abs(e) > 10 ** 17:
            raise Unsure('exponent')
        body = self.d[pos:end]
        if not body:
            return (False, 0, e)
        sign = bool(body[0] & 0x80)
        return (sign, int.from_bytes(bytes([body[0] & 0x7f]) + body[1:], 'big'), e)

    def timestamp(self, pos, end):
        from .gen import days_in
        if pos == end:
            raise Bad('empty timestamp')
        neg, off, pos = self.vi(pos, end)
        if neg and off == 0:
            off = None
        elif neg:
            off = -off
        f = [1, 1, 1, 0, 0, 0]
        n = 0
        while pos < end and n < 6:
            f[n], pos = self.vu(pos, end)
            n += 1
        if n == 0:
            raise Bad('timestamp without year')
        if n == 4:
            raise Bad('hour without minute')
        p = [None, YEAR, MONTH, DAY, None, MINUTE, SECOND][n]
        y, mo, d, h, mi, s = f
        frac = None
        if pos < end:
            neg, c, e = self.decimal(pos, end)
            if c == 0 and e >= 0:
                if neg:
                    self.unsure('negative zero fraction')
                frac = None
            else:
                if e >= 0:
                    raise Bad('fraction')
                if neg and c:
                    raise Bad('negative fraction')
                if neg:
                    self.unsure('negative zero fraction')
                if -e > 3000:
                    raise Unsure('very long fraction')
                if c >= 10 ** -e:
                    raise Bad('fraction out of range')
                frac = (c, -e)
        if not (1 <= y <= 9999 and 1 <= mo <= 12 and h <= 23 and mi <= 59 and s <= 59):
            raise Bad('timestamp field')
        if not 1 <= d <= days_in(y, mo):
            raise Bad('day')
        if off is not None and abs(off) >= 1440:
            raise Bad('offset')
        if p < MINUTE and off is not None:
            if off:
                raise Unsure('offset with low precision')
            self.unsure('offset with low precision')
        if off:
            y, mo, d, h, mi = shift(y, mo, d, h, mi, off)
            if not 1 <= y <= 9999:
                raise Unsure('local time out of range')
        return (p, y, mo, d, h, mi, s, frac, off)
