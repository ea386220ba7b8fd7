"""Reference text Ion 1.0: an encoder that makes random legal choices of notation and a strict decoder."""
import base64
import re
from .model import *
from .symref import Table, Catalog, apply_lst, is_lst
from .gen import days_in, OPERATORS, utc_in_range

WS = ' \t\n\r\x0b\x0c'
OPCHARS = set('!#%&*+-./;<=>?@^`|~')
IDENT = re.compile(r'[A-Za-z_$][A-Za-z0-9_$]*\Z')
KEYWORDS = ('null', 'true', 'false', 'nan')
RESERVED = re.compile(r'\$([0-9]+|ion_[0-9]+_[0-9]+)\Z')
SIMPLE_ESC = {0: '0', 7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r', 0x22: '"', 0x27: "'", 0x2f: '/', 0x3f: '?',
              0x5c: '\\'}
UNESC = dict((v, k) for k, v in SIMPLE_ESC.items())


def is_op(s):
    return bool(s) and all(c in OPCHARS for c in s) and '//' not in s and '/*' not in s


class TextEnc(object):
    def __init__(self, rng, sids=None, wild=0.4, comments=True, ascii_only=False):
        self.r = rng
        self.sids = sids            # None: text only; else a function symbol -> IDs it may be written with
        self.wild = wild
        self.comments = comments
        self.stats = {}
        self.last = None            # kind of the last token

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def w(self):
        return self.r.random() < self.wild

    # -- spacing
    def comment(self):
        r = self.r
        self.stat('comment')
        body = r.choice(['', ' c', '*', '/', "'", '"', '\\', '{[(', '"a', "'''", '\u2603', '\x00', '\x04', '**', '* /', '$ion_1_0', ':: ,', '/*'])
        if r.random() < 0.5:
            return '//' + body + r.choice(['\n', '\r', '\r\n'])
        body += r.choice(['', '\n', '\r\n', ' //'])
        return '/*' + body.replace('*/', '') + '*/'

    def ws(self, need=False, lead=False):
        """Random spacing; need: at least one separator; lead: must not start with a comment."""
        r = self.r
        out = ''
        if not self.w():
            return ' ' if need else ''
        n = r.choice([0, 0, 1, 1, 2, 3])
        for _ in range(n):
            if self.comments and r.random() < 0.25:
                if lead and not out:
                    out += r.choice(WS)
                out += self.comment()
            else:
                out += r.choice([' ', ' ', '\n', '\t', '\r', '\r\n', '\x0b', '\x0c'])
        if need and not out:
            out = ' '
        return out

    def gap(self, a, b, text, sexp=False):
        """Spacing between a token of kind a and one of kind b that starts with text."""
        need = lead = False
        if b == 'inf':
            b = 'num'
        if a == 'inf' and sexp and b == 'op':
            lead = True
            self.stat('operator-after-keyword')
        elif a in ('num', 'inf'):
            lead = True
            need = b in ('num', 'id', 'kw', 'op', 'q', 's', 'l') or (b == 'p' and text[0] not in '])},')
        elif a == 'id':
            need = b in ('num', 'id', 'kw')
        elif a == 'kw':
            need = b in ('num', 'id', 'kw', 'op', 'q')
            if sexp and b == 'op' and text[0] != '.':
                need = False
                self.stat('operator-after-keyword')
        elif a == 'op':
            lead = True
            need = b in ('num', 'op', 'kw') or (b == 'id')
        elif a == 'q':
            need = b in ('q', 'l')
        elif a == 'l':
            need = b in ('q', 'l')
        return self.ws(need, lead)

    # -- tokens
    def put(self, out, kind, text, sexp=False):
        if out:
            out.append(self.gap(self.last, kind, text, sexp))
        out.append(text)
        self.last = kind

    def escape(self, c, quote, clob=False):
        """One way to write the character with code c escaped."""
        r = self.r
        forms = []
        if c in SIMPLE_ESC:
            forms += ['\\' + SIMPLE_ESC[c]] * 2
        if c <= 0xff:
            forms.append('\\x%02x' % c)
            forms.append('\\x%02X' % c)
        if not clob:
            if c <= 0xffff:
                forms.append(('\\u%04x' if r.random() < 0.7 else '\\u%04X') % c)
            else:
                forms.append('\\u%04x\\u%04x' % (0xd800 + (c - 0x10000 >> 10), 0xdc00 + (c - 0x10000 & 0x3ff)))
                self.stat('surrogate-pair')
            forms.append(('\\U%08x' if r.random() < 0.7 else '\\U%08X') % c)
        return r.choice(forms)

    def quoted(self, text, quote, clob=False, symbol=False):
        r = self.r
        out = []
        for ch in text:
            c = ord(ch)
            must = c < 0x20 or ch == quote or ch == '\\' or (clob and c > 0x7e)
            if must and not clob and not symbol and c in (9, 11, 12) and r.random() < 0.3:
                must = False
                self.stat('raw-control')
            if must or (self.w() and r.random() < 0.15):
                out.append(self.escape(c, quote, clob))
            else:
                out.append(ch)
            if not symbol and self.w() and r.random() < 0.01:
                out.append('\\' + r.choice(['\n', '\r', '\r\n']))
                self.stat('escaped-newline')
        return quote + ''.join(out) + quote

    def long(self, text, clob=False):
        r = self.r
        out = []
        raw_cr = False
        quotes = 0
        for i, ch in enumerate(text):
            c = ord(ch)
            must = ch == '\\' or (c < 0x20 and c not in (9, 10, 11, 12)) or (clob and c > 0x7e)
            if ch == "'":
                # Never three quotes in a row, nor a quote right before the end.
                if quotes >= 1 or i == len(text) - 1 or r.random() < 0.5:
                    must = True
            if ch == '\n' and not must:
                if r.random() < 0.5:
                    # A raw newline, in any form, reads as a line feed.
                    s = r.choice(['\n', '\n', '\r\n', '\r'])
                    if s[0] == '\n' and raw_cr:
                        s = '\\n'
                    out.append(s)
                    raw_cr = s == '\r'
                    quotes = 0
                    self.stat('raw-newline')
                    continue
                must = True
            if must or (self.w() and r.random() < 0.1):
                out.append(self.escape(c, "'", clob))
                quotes = 0
            else:
                out.append(ch)
                quotes = quotes + 1 if ch == "'" else 0
            raw_cr = False
            if self.w() and r.random() < 0.01:
                out.append('\\' + r.choice(['\n', '\r\n']))
                quotes = 0
                self.stat('escaped-newline')
        return "'''" + ''.join(out) + "'''"

    def long_parts(self, text, clob=False):
        r = self.r
        k = r.choice([1, 1, 2, 3])
        cuts = sorted(r.randint(0, len(text)) for _ in range(k - 1))
        parts = [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)])]
        if k > 1:
            self.stat('concatenated')
        out = []
        for i, p in enumerate(parts):
            if i:
                if clob:
                    out.append(''.join([r.choice(WS) for _ in range(r.choice([0, 1, 2]))]))
                else:
                    out.append(self.ws())
            out.append(self.long(p, clob))
        return ''.join(out)

    def string(self, text, allow_long=True):
        if allow_long and self.w():
            self.stat('long-string')
            return 'l', self.long_parts(text)
        return 's', self.quoted(text, '"')

    def symbol(self, s, operators=False, value=False, top=False):
        """(kind, text) of a symbol token."""
        r = self.r
        if self.sids is not None:
            ids = self.sids(s)
            if ids and (not isinstance(s, str) or r.random() < 0.4):
                self.stat('symbol-id')
                return 'id', '$%s%d' % ('', r.choice(ids))
        if s == SYM0:
            return 'id', '$0'
        assert isinstance(s, str), s
        if IDENT.match(s) and s not in KEYWORDS and not RESERVED.match(s) and r.random() < 0.7:
            return 'id', s
        if operators and is_op(s) and r.random() < 0.7:
            self.stat('operator')
            return 'op', s
        return 'q', self.quoted(s, "'", symbol=True)

    def under(self, digits):
        """Digits with underscores inserted."""
        if len(digits) > 1 and self.w() and self.r.random() < 0.5:
            self.stat('underscore')
            return ''.join([d + ('_' if i < len(digits) - 1 and self.r.random() < 0.3 else '') for i, d in enumerate(digits)])
        return digits

    def int_(self, v):
        r = self.r
        sign = '-' if v < 0 else ''
        v = abs(v)
        x = r.random() if self.w() else 1
        if x < 0.3:
            self.stat('hex')
            d = '%x' % v if r.random() < 0.5 else '%X' % v
            if r.random() < 0.2:
                d = '0' * r.randint(1, 3) + d
            return sign + r.choice(['0x', '0X']) + self.under(d)
        if x < 0.5:
            self.stat('binary-int')
            return sign + r.choice(['0b', '0B']) + self.under(bin(v)[2:])
        if v == 0 and r.random() < 0.1:
            sign = '-'
        return sign + self.under(str(v))

    def float_(self, v):
        r = self.r
        if v != v:
            return 'kw', 'nan'
        if v in (float('inf'), float('-inf')):
            return 'inf', '+inf' if v > 0 else '-inf'
        from decimal import Decimal
        sign, digits, exp = Decimal(repr(v)).as_tuple()
        mant, e = self.scaled(int(''.join(map(str, digits))), exp)
        return 'num', ('-' if sign else '') + mant + r.choice('eE') + self.exponent(e)

    def exponent(self, e):
        r = self.r
        s = '-' if e < 0 else r.choice(['', '', '+'])
        if e == 0 and r.random() < 0.1:
            s = '-'
        return s + ('0' * r.choice([0, 0, 0, 1, 2])) + str(abs(e))

    def scaled(self, c, e):
        """A mantissa and exponent with the same coefficient and exponent once the point is removed."""
        r = self.r
        d = str(c)
        k = r.choice([0, 0, 1, 2, len(d) - 1, len(d), len(d) + 1, r.randint(0, len(d) + 2)])
        k = max(0, k)
        if k == 0:
            return self.under(d) + r.choice(['', '', '.']), e
        if k >= len(d):
            d = '0' * (k - len(d) + 1) + d
        return self.under(d[:-k]) + '.' + self.under(d[-k:]), e + k

    def decimal_(self, v):
        r = self.r
        neg, c, e = v
        sign = '-' if neg else ''
        d = str(c)
        if -60 < e < 0 and r.random() < 0.5:
            k = -e
            if k >= len(d):
                d = '0' * (k - len(d) + 1) + d
            return sign + self.under(d[:-k]) + '.' + self.under(d[-k:])
        if e == 0 and r.random() < 0.3:
            return sign + self.under(d) + '.'
        m, x = self.scaled(c, e)
        return sign + m + r.choice('dD') + self.exponent(x)

    def timestamp(self, ts):
        r = self.r
        p, y, mo, d, h, mi, s, f, off = ts
        out = '%04d' % y
        if p == YEAR:
            return out + 'T'
        out += '-%02d' % mo
        if p == MONTH:
            return out + 'T'
        out += '-%02d' % d
        if p == DAY:
            return out + r.choice(['', 'T'])
        out += 'T%02d:%02d' % (h, mi)
        if p == SECOND:
            out += ':%02d' % s
            if f is not None:
                out += '.%0*d' % (f[1], f[0])
        if off is None:
            return out + '-00:00'
        if off == 0:
            return out + r.choice(['Z', 'Z', '+00:00'])
        return out + '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)

    def clob(self, b):
        r = self.r
        t = b.decode('latin-1')
        sp = lambda: ''.join([r.choice(WS) for _ in range(r.choice([0, 0, 1, 2]))]) if self.w() else ''
        if self.w():
            return '{{' + sp() + self.long_parts(t, clob=True) + sp() + '}}'
        return '{{' + sp() + self.quoted(t, '"', clob=True) + sp() + '}}'

    def blob(self, b):
        r = self.r
        t = base64.b64encode(b).decode()
        if self.w():
            t = ''.join([c + (r.choice(WS) if r.random() < 0.2 else '') for c in t])
            t = r.choice(['', ' ', '\n']) + t
        return '{{' + t + '}}'

    # -- values
    def value(self, out, x, sexp=False, top=False, after_long=False):
        for s in x.ann:
            k, t = self.symbol(s)
            self.put(out, k, t)
            out.append(self.ws())
            out.append('::')
            self.last = 'p'
        t, v = x.t, x.v
        if v is None:
            if t == NULL:
                self.put(out, 'kw', self.r.choice(['null', 'null.null']))
            else:
                self.put(out, 'kw', 'null.' + NAMES[t])
        elif t == BOOL:
            self.put(out, 'kw', 'true' if v else 'false')
        elif t == INT:
            self.put(out, 'num', self.int_(v))
        elif t == FLOAT:
            self.put(out, *self.float_(v))
        elif t == DECIMAL:
            self.put(out, 'num', self.decimal_(v))
        elif t == TIMESTAMP:
            self.put(out, 'num', self.timestamp(v))
        elif t == SYMBOL:
            self.put(out, *self.symbol(v, operators=sexp and not x.ann, value=True), sexp=sexp)
        elif t == STRING:
            self.put(out, *self.string(v, allow_long=not (after_long and not x.ann)))
        elif t == CLOB:
            self.put(out, 'p', self.clob(v))
        elif t == BLOB:
            self.put(out, 'p', self.blob(v))
        elif t == LIST:
            self.put(out, 'p', '[')
            for i, c in enumerate(v):
                self.value(out, c)
                if i < len(v) - 1 or (self.w() and self.r.random() < 0.2):
                    self.put(out, 'p', ',')
            self.put(out, 'p', ']')
        elif t == SEXP:
            self.put(out, 'p', '(')
            for c in v:
                self.value(out, c, sexp=True, after_long=self.last == 'l')
            self.put(out, 'p', ')')
        else:
            self.put(out, 'p', '{')
            for i, (n, c) in enumerate(v):
                if isinstance(n, str) and self.w() and self.r.random() < 0.5:
                    self.put(out, *self.string(n))
                    self.stat('string-field-name')
                else:
                    self.put(out, *self.symbol(n))
                out.append(self.ws())
                out.append(':')
                self.last = 'p'
                self.value(out, c)
                if i < len(v) - 1 or (self.w() and self.r.random() < 0.2):
                    self.put(out, 'p', ',')
            self.put(out, 'p', '}')

    def begin(self):
        out = [self.ws()]
        self.last = 'p'
        return out

    def top(self, out, x):
        self.value(out, x, top=True, after_long=self.last == 'l')

    def ivm(self, out):
        self.put(out, 'id', '$ion_1_0')

    def end(self, out):
        out.append(self.ws(lead=self.last in ('num', 'inf', 'op')))
        return ''.join(out)

    def stream(self, values):
        out = self.begin()
        if self.r.random() < 0.3:
            self.ivm(out)
        for x in values:
            self.top(out, x)
            if self.r.random() < 0.05:
                self.ivm(out)
        return self.end(out)


# ---------------------------------------------------------------------------------------------------------------------
DIG = r'[0-9](?:_?[0-9])*'
DECINT = r'(?:0|[1-9](?:_?[0-9])*)'
NUM = re.compile(r'(-?)(?:'
                 r'(?P<hex>0[xX][0-9a-fA-F](?:_?[0-9a-fA-F])*)|'
                 r'(?P<bin>0[bB][01](?:_?[01])*)|'
                 r'(?P<int>' + DECINT + r')(?P<frac>\.(?:' + DIG + r')?)?(?:(?P<ek>[eEdD])(?P<exp>[+-]?[0-9]+))?)\Z')
TS = re.compile(r'([0-9]{4})(?:T|-([0-9]{2})(?:T|-([0-9]{2})(?:T?|T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]+))?)?'
                r'(Z|[+-][0-9]{2}:[0-9]{2}))))\Z')
STOP = set('{}[](),"\'' + WS)
B64 = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')


def parse_number(tok):
    """The value of a numeric token, or Bad."""
    m = TS.match(tok)
    if m:
        y, mo, d, h, mi, s, f, o = m.groups()
        p = YEAR if mo is None else MONTH if d is None else DAY if h is None else MINUTE if s is None else SECOND
        y, mo, d, h, mi, sec = int(y), int(mo or 1), int(d or 1), int(h or 0), int(mi or 0), int(s or 0)
        if not (1 <= y and 1 <= mo <= 12 and 1 <= d <= days_in(y, mo) and h <= 23 and mi <= 59 and sec <= 59):
            raise Bad('timestamp field')
        off = None
        if o == 'Z':
            off = 0
        elif o is not None and o != '-00:00':
            oh, om = int(o[1:3]), int(o[4:])
            if oh > 23 or om > 59:
                raise Bad('offset')
            off = oh * 60 + om
            if o[0] == '-':
                off = -off
        frac = (int(f), len(f)) if f is not None else None
        ts = (p, y, mo, d, h, mi, sec, frac, off)
        return V(TIMESTAMP, ts)
    m = NUM.match(tok)
    if not m:
        raise Bad('number %r' % tok[:40])
    neg = bool(m.group(1))
    if m.group('hex') or m.group('bin'):
        v = int((m.group('hex') or m.group('bin'))[2:].replace('_', ''), 16 if m.group('hex') else 2)
        return V(INT, -v if neg else v)
    i, f, k, e = m.group('int'), m.group('frac'), m.group('ek'), m.group('exp')
    i = i.replace('_', '')
    if f is None and k is None:
        return V(INT, int(i) * (-1 if neg else 1))
    fd = (f or '.')[1:].replace('_', '')
    if k and k in 'eE':
        return V(FLOAT, float(('-' if neg else '') + i + '.' + (fd or '0') + 'e' + e))
    exp = int(e) if e else 0
    if abs(exp) > 10 ** 15:
        raise Unsure('exponent')
    return V(DECIMAL, (neg, int(i + fd), exp - len(fd)))


class TextDec(object):
    def __init__(self, text, catalog=None):
        self.s = text
        self.n = len(text)
        self.i = 0
        self.catalog = catalog or Catalog()
        self.table = Table()
        self.values = []
        self.marks = []
        self.depth = 0
        self.ivms = 0
        self.pending = None

    def peek(self, k=0):
        i = self.i + k
        return self.s[i] if i < self.n else ''

    def ws(self, comments=True):
        s, n = self.s, self.n
        while self.i < n:
            c = s[self.i]
            if c in WS:
                self.i += 1
            elif comments and c == '/' and self.i + 1 < n and s[self.i + 1] in '/*':
                if s[self.i + 1] == '/':
                    self.i += 2
                    while self.i < n and s[self.i] not in '\r\n':
                        self.i += 1
                else:
                    j = s.find('*/', self.i + 2)
                    if j < 0:
                        raise Bad('unterminated comment')
                    self.i = j + 2
            else:
                return

    def decode(self):
        if self.s[:1] == '\ufeff':
            raise Unsure('byte order mark')
        while True:
            self.ws()
            if self.i >= self.n:
                return self.values
            start = self.i
            try:
                x, plain = self.value()
            except Bad as e:
                if str(e) in ('undefined symbol ID', 'symbol ID', 'timestamp field', 'offset') and \
                        re.match(r"('?\$ion_symbol_table'?|\$3)\s*::", self.s[start:]):
                    raise Unsure('in a symbol table: %s' % e)
                raise
            if x.t == SYMBOL and not x.ann and x.v is not None and plain and isinstance(plain, str):
                if plain == '$ion_1_0':
                    self.table = Table()
                    self.ivms += 1
                    continue
                if re.match(r'\$ion_[0-9]+_[0-9]+\Z', plain):
                    raise Bad('unsupported version %s' % plain)
            if x.t == SYMBOL and not x.ann and x.v == '$ion_1_0':
                raise Unsure('faux version marker')
            if is_lst(x):
                self.table = apply_lst(x, self.table, self.catalog, strict=True)
                continue
            if x.t == STRUCT and x.v is None and x.ann and x.ann[0] == '$ion_symbol_table':
                raise Unsure('null symbol table')
            self.values.append(x)

    def sym_id(self, tok):
        """The symbol an unquoted identifier token stands for."""
        if tok[0] == '$' and tok[1:].isdigit():
            if len(tok) > 1 and tok[1] == '0' and tok != '$0':
                raise Unsure('leading zero in symbol ID')
            if len(tok) > 12:
                raise Bad('symbol ID')
            s = self.table.lookup(int(tok[1:]))
            if s is None:
                raise Bad('undefined symbol ID')
            return s
        return tok

    def ident(self):
        j = self.i
        s, n = self.s, self.n
        while j < n and (s[j].isalnum() and s[j] < '\x80' or s[j] in '_$'):
            j += 1
        tok = s[self.i:j]
        self.i = j
        return tok

    def escape(self, clob):
        """After a backslash: the character, or '' for an escaped newline."""
        c = self.peek()
        if c == '':
            raise Bad('end in escape')
        self.i += 1
        if c in UNESC:
            return chr(UNESC[c])
        if c == '\n':
            return ''
        if c == '\r':
            if self.peek() == '\n':
                self.i += 1
            return ''
        k = {'x': 2, 'u': 4, 'U': 8}.get(c)
        if k is None or (clob and c != 'x'):
            raise Bad('escape')
        h = self.s[self.i:self.i + k]
        if len(h) < k or not all(ch in '0123456789abcdefABCDEF' for ch in h):
            raise Bad('hex escape')
        self.i += k
        v = int(h, 16)
        if v > 0x10ffff:
            raise Bad('code point')
        if 0xd800 <= v <= 0xdfff:
            # A pair of escapes stands for one code point.
            if k == 8:
                raise Unsure('surrogate escape of eight digits')
            low = self.s[self.i:self.i + 6]
            if v >= 0xdc00 or low[:2] != '\\u' or len(low) < 6 or not all(ch in '0123456789abcdefABCDEF' for ch in low[2:]) or not 0xdc00 <= int(low[2:], 16) <= 0xdfff:
                raise Bad('unpaired surrogate escape')
            self.i += 6
            v = 0x10000 + ((v - 0xd800) << 10) + int(low[2:], 16) - 0xdc00
        return chr(v)

    def short(self, quote, clob=False):
        """After the opening quote."""
        out = []
        while True:
            c = self.peek()
            if c == '':
                raise Bad('unterminated')
            self.i += 1
            if c == quote:
                return ''.join(out)
            if c == '\\':
                out.append(self.escape(clob))
                continue
            o = ord(c)
            if c in '\r\n':
                raise Bad('newline in short text')
            if o < 0x20:
                if c in '\t\x0b\x0c':
                    if quote == "'":
                        raise Unsure('raw whitespace in a quoted symbol')
                    out.append(c)
                    continue
                raise Bad('control character')
            if clob and o > 0x7e:
                if o == 0x7f:
                    raise Unsure('raw DEL in clob')
                raise Bad('non-ASCII in clob')
            if 0xd800 <= o <= 0xdfff:
                raise Unsure('surrogate')
            out.append(c)

    def long(self, clob=False):
        """After the opening quotes of one segment."""
        out = []
        while True:
            c = self.peek()
            if c == '':
                raise Bad('unterminated')
            if c == "'" and self.s[self.i:self.i + 3] == "'''":
                self.i += 3
                return ''.join(out)
            self.i += 1
            if c == '\\':
                out.append(self.escape(clob))
                continue
            if c == '\r':
                if self.peek() == '\n':
                    self.i += 1
                out.append('\n')
                continue
            o = ord(c)
            if o < 0x20 and c not in '\t\n\x0b\x0c':
                raise Bad('control character')
            if clob and o > 0x7e:
                if o == 0x7f:
                    raise Unsure('raw DEL in clob')
                raise Bad('non-ASCII in clob')
            if 0xd800 <= o <= 0xdfff:
                raise Unsure('surrogate')
            out.append(c)

    def long_string(self):
        """At the opening quotes of the first segment; leaves the position after the last segment."""
        out = []
        while self.s[self.i:self.i + 3] == "'''":
            self.i += 3
            out.append(self.long())
            save = self.i
            self.ws()
            if self.s[self.i:self.i + 3] != "'''":
                self.i = save
                break
        return ''.join(out)

    def number_token(self):
        j = self.i
        s, n = self.s, self.n
        while j < n and s[j] not in STOP:
            if s[j] in ':;' or s[j] == '/':
                # A colon belongs to a timestamp; comments and operators right after a number are left open.
                if s[j] == '/':
                    raise Unsure('slash after number')
                if s[j] == ';':
                    raise Unsure('operator after number')
            j += 1
        tok = s[self.i:j]
        return tok, j

    def value(self, sexp=False):
        """A value at the current position; returns (V, unquoted symbol text or None)."""
        ann = []
        while True:
            c = self.peek()
            if c == '':
                raise Bad('value expected')
            if c == "'" and self.s[self.i:self.i + 3] != "'''" or (c == "'" and self.s[self.i:self.i + 3] == "'''" and False):
                self.i += 1
                text = self.short("'")
                if self.annotation():
                    ann.append(text)
                    continue
                return V(SYMBOL, text, ann), None
            if c < '\x80' and (c.isalpha() or c in '_$'):
                save = self.i
                tok = self.ident()
                if not sexp and self.depth == 0 and self.peek() and self.peek() in '!#%&*+-.;<=>?@^`|~' and not (tok == 'null' and self.peek() == '.'):
                    raise Unsure('operator after identifier')
                if tok in KEYWORDS:
                    if tok == 'null' and self.peek() == '.':
                        if not (self.peek(1) < '\x80' and self.peek(1).isalpha()):
                            if sexp:
                                raise Unsure('operator after null')
                            raise Bad('null type')
                        self.i += 1
                        t = self.ident()
                        if t not in NAMES:
                            raise Bad('null type')
                        if not sexp and self.depth == 0 and self.peek() and self.peek() in OPCHARS and self.s[self.i:self.i + 2] not in ('//', '/*'):
                            raise Unsure('operator after null')
                        x = V(NAMES.index(t), None, ann)
                    elif tok == 'null':
                        x = V(NULL, None, ann)
                    elif tok == 'nan':
                        x = V(FLOAT, float('nan'), ann)
                    else:
                        x = V(BOOL, tok == 'true', ann)
                    if self.annotation():
                        raise Bad('keyword as annotation')
                    return x, None
                if self.annotation():
                    if re.match(r'\$ion_[0-9]+_[0-9]+\Z', tok) and tok != '$ion_1_0':
                        raise Unsure('version marker as annotation')
                    ann.append(self.sym_id(tok))
                    continue
                m = re.match(r'\$ion_[0-9]+_[0-9]+\Z', tok)
                if m and (self.depth or ann) and tok != '$ion_1_0':
                    raise Unsure('version marker in a container')
                return V(SYMBOL, self.sym_id(tok), ann), tok
            break
        s = self.s
        if c == "'":
            text = self.long_string()
            save = self.i
            self.ws()
            if s[self.i:self.i + 2] == '::':
                raise Bad('string as annotation')
            self.i = save
            return V(STRING, text, ann), None
        if c == '"':
            self.i += 1
            text = self.short('"')
            save = self.i
            self.ws()
            if s[self.i:self.i + 2] == '::':
                raise Bad('string as annotation')
            self.i = save
            return V(STRING, text, ann), None
        if '0' <= c <= '9' or (c == '-' and '0' <= self.peek(1) <= '9'):
            tok, j = self.number_token()
            if sexp:
                # What ends a number inside an s-expression is left open for operator characters.
                m = re.match(r'-?[0-9A-Za-z_.:+-]*', tok)
                if m.end() != len(tok):
                    raise Unsure('operator after number')
                try:
                    x = parse_number(tok)
                except Bad:
                    if re.search(r'[-+.]', tok[1:]):
                        raise Unsure('operator after number')
                    raise
            else:
                x = parse_number(tok)
            self.i = j
            x.ann = tuple(ann)
            return x, None
        if c in '+-' and s[self.i + 1:self.i + 4] == 'inf':
            nxt = self.peek(4)
            if nxt and nxt not in STOP and not (sexp and nxt in OPCHARS):
                if sexp or nxt in OPCHARS:
                    raise Unsure('after infinity')
                raise Bad('infinity')
            self.i += 4
            return V(FLOAT, float(c + 'inf'), ann), None
        if c == '[':
            return V(LIST, self.sequence(), ann), None
        if c == '(':
            return V(SEXP, self.sexp(), ann), None
        if c == '{':
            if self.peek(1) == '{':
                return self.lob(ann), None
            return V(STRUCT, self.struct(), ann), None
        if sexp and c in OPCHARS:
            j = self.i
            while j < self.n and s[j] in OPCHARS:
                j += 1
            op = s[self.i:j]
            if '//' in op or '/*' in op:
                raise Unsure('comment after operator')
            nxt = s[j:j + 1]
            if '0' <= nxt <= '9' and nxt:
                raise Unsure('number after operator')
            if s[j:j + 3] == 'inf' and op[-1] in '+-':
                raise Unsure('infinity after operator')
            if ann:
                raise Unsure('annotated operator')
            self.i = j
            if self.annotation():
                raise Bad('operator as annotation')
            return V(SYMBOL, op, ann), None
        raise Bad('unexpected character %r' % c)

    def annotation(self):
        """Whether '::' follows; consumes it and the spacing after it if so."""
        save = self.i
        self.ws()
        if self.s[self.i:self.i + 2] == '::':
            self.i += 2
            self.ws()
            return True
        self.i = save
        return False

    def enter(self):
        self.depth += 1
        if self.depth > 150:
            raise Unsure('deep')

    def sequence(self):
        self.enter()
        self.i += 1
        out = []
        while True:
            self.ws()
            if self.peek() == ']':
                self.i += 1
                self.depth -= 1
                return out
            out.append(self.value()[0])
            self.ws()
            if self.peek() == ',':
                self.i += 1
            elif self.peek() != ']':
                raise Bad('in list')

    def sexp(self):
        self.enter()
        self.i += 1
        out = []
        while True:
            self.ws()
            if self.peek() == ')':
                self.i += 1
                self.depth -= 1
                return out
            out.append(self.value(sexp=True)[0])

    def struct(self):
        self.enter()
        self.i += 1
        out = []
        while True:
            self.ws()
            c = self.peek()
            if c == '}':
                self.i += 1
                self.depth -= 1
                return out
            if c == '"':
                self.i += 1
                name = self.short('"')
            elif self.s[self.i:self.i + 3] == "'''":
                name = self.long_string()
            elif c == "'":
                self.i += 1
                name = self.short("'")
            elif c and c < '\x80' and (c.isalpha() or c in '_$'):
                tok = self.ident()
                if tok in KEYWORDS:
                    raise Bad('keyword as field name')
                if re.match(r'\$ion_[0-9]+_[0-9]+\Z', tok) and tok != '$ion_1_0':
                    raise Unsure('version marker as field name')
                name = self.sym_id(tok)
            else:
                raise Bad('field name')
            self.ws()
            if self.peek() != ':':
                raise Bad('colon')
            if self.peek(1) == ':':
                raise Bad('annotated field name')
            self.i += 1
            self.ws()
            out.append((name, self.value()[0]))
            self.ws()
            if self.peek() == ',':
                self.i += 1
            elif self.peek() != '}':
                raise Bad('in struct')

    def lob(self, ann):
        self.i += 2
        self.ws(comments=False)
        c = self.peek()
        if c == '"' or self.s[self.i:self.i + 3] == "'''":
            if c == '"':
                self.i += 1
                text = self.short('"', clob=True)
            else:
                out = []
                while self.s[self.i:self.i + 3] == "'''":
                    self.i += 3
                    out.append(self.long(clob=True))
                    self.ws(comments=False)
                text = ''.join(out)
            self.ws(comments=False)
            if self.s[self.i:self.i + 2] != '}}':
                raise Bad('clob end')
            self.i += 2
            return V(CLOB, text.encode('latin-1'), ann)
        digits = []
        pad = 0
        while True:
            c = self.peek()
            if c == '':
                raise Bad('unterminated blob')
            if c in WS:
                self.i += 1
            elif c in B64:
                if pad:
                    raise Bad('padding')
                digits.append(c)
                self.i += 1
            elif c == '=':
                pad += 1
                self.i += 1
            elif c == '}':
                if self.peek(1) != '}':
                    raise Bad('blob end')
                self.i += 2
                break
            else:
                raise Bad('blob character')
        if (len(digits) + pad) % 4 or pad > 2:
            raise Bad('blob length')
        t = ''.join(digits) + '=' * pad
        v = base64.b64decode(t)
        if base64.b64encode(v).decode() != t:
            raise Unsure('non-canonical base64')
        return V(BLOB, v, ann)
