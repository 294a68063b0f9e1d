"""The text reader against an independent reading of the Ion 1.0 text format."""
from amazon.ion.core import IonEventType, IonType, TimestampPrecision
from amazon.ion.reader_text import reader
from harness.binary_decode import Bad, Short, Unclear
from harness.events import flat
from amazon.ion.reader import NEXT_EVENT, read_data_event

TAB, LF, VT, FF, CR, SP = 9, 10, 11, 12, 13, 32
QUOTE, DQUOTE, SLASH, STAR, BSLASH, COLON, COMMA, DOT, MINUS, PLUS, USCORE, DOLLAR, EQ = \
    39, 34, 47, 42, 92, 58, 44, 46, 45, 43, 95, 36, 61
LPAREN, RPAREN, LBRACKET, RBRACKET, LBRACE, RBRACE = 40, 41, 91, 93, 123, 125
EOF = -1

NULLS = {}
for _t in IonType:
    NULLS[_t.name.lower()] = _t

ESCAPES = {'a': 7, 'b': 8, 't': 9, 'n': 10, 'f': 12, 'r': 13, 'v': 11, '0': 0, '?': 63, "'": 39, '"': 34, '/': 47,
           '\\': 92}


class Ref(object):
    """Reads values off characters; out is a list of (kind, ion_type, payload, field, annotations, depth)."""

    def __init__(self, h, chars):
        self.h = h
        self.d = chars
        self.i = 0
        self.out = []

    def c(self, k=0):
        k += self.i
        return self.d[k] if k < len(self.d) else EOF

    # ---- classes of characters
    def among(self, c, chars):
        if c == EOF:
            return False
        return bool(self.h.any([c == x for x in chars]))

    def within(self, c, *ranges):
        if c == EOF:
            return False
        return bool(self.h.any([self.h.all([c >= a, c <= b]) for a, b in ranges]))

    def digit(self, c):
        return self.within(c, (48, 57))

    def ident_start(self, c):
        return self.within(c, (65, 90), (97, 122), (USCORE, USCORE), (DOLLAR, DOLLAR))

    def ident(self, c):
        return self.within(c, (65, 90), (97, 122), (48, 57), (USCORE, USCORE), (DOLLAR, DOLLAR))

    def operator(self, c):
        return self.among(c, [ord(x) for x in '!#%&*+-./;<=>?@^`|~'])

    def white(self, c):
        return self.among(c, (SP, TAB, LF, CR, VT, FF))

    def word(self, chars, text):
        if len(chars) != len(text):
            return False
        return bool(self.h.all([chars[i] == ord(text[i]) for i in range(len(text))]))

    def looking_at(self, text, k=0):
        if self.i + k + len(text) > len(self.d):
            return False
        return self.word(self.d[self.i + k:self.i + k + len(text)], text)

    def stops_number(self):
        c = self.c()
        if c == EOF:
            return True
        if self.among(c, (LBRACE, RBRACE, LBRACKET, RBRACKET, LPAREN, RPAREN, COMMA, DQUOTE, QUOTE, SP, TAB, LF, CR,
                          VT, FF)):
            return True
        return self.comment_starts()

    def comment_starts(self):
        return self.among(self.c(), (SLASH,)) and self.among(self.c(1), (SLASH, STAR))

    def hexdigit(self, c):
        """Its value, or None."""
        if self.digit(c):
            return c - 48
        if self.within(c, (97, 102)):
            return c - 87
        if self.within(c, (65, 70)):
            return c - 55
        return None

    # ---- white space and comments
    def blank(self):
        while self.white(self.c()):
            self.i += 1

    def ws(self):
        while True:
            self.blank()
            if not self.comment_starts():
                return
            if self.among(self.c(1), (SLASH,)):
                self.i += 2
                while not (self.c() == EOF or self.among(self.c(), (LF, CR))):
                    self.i += 1
            else:
                self.i += 2
                while not (self.among(self.c(), (STAR,)) and self.among(self.c(1), (SLASH,))):
                    if self.c() == EOF:
                        raise Short()
                    self.i += 1
                self.i += 2

    # ---- values
    def stream(self):
        while True:
            self.ws()
            if self.c() == EOF:
                return
            self.value('top', None, 0)

    def emit(self, typ, v, field, anns, depth, kind='scalar'):
        self.out.append((kind, typ, v, field, tuple(anns), depth))

    def value(self, where, field, depth):
        anns = []
        while True:
            c = self.c()
            if c == EOF:
                raise Short()
            if self.among(c, (QUOTE,)):
                if self.looking_at("'''"):
                    return self.emit(IonType.STRING, ('text', self.long_string()), field, anns, depth)
                name = ('text', self.short(QUOTE))
                if self.annotation():
                    anns.append(name)
                    continue
                return self.emit(IonType.SYMBOL, name, field, anns, depth)
            if self.ident_start(c):
                chars = self.identifier(where)
                keyword = self.keyword(chars)
                if keyword is None:
                    name = self.name(chars)
                    if self.annotation():
                        anns.append(name)
                        continue
                    if where == 'top' and not anns and self.looks_version(chars):
                        if not self.word(chars, '$ion_1_0'):
                            raise Unclear()
                        return self.out.append(('ivm', None, None, None, (), 0))
                    return self.emit(IonType.SYMBOL, name, field, anns, depth)
                typ, v = keyword
                if typ is IonType.NULL and self.among(self.c(), (DOT,)):
                    typ = self.null_type(where)
                return self.emit(typ, v, field, anns, depth)
            if self.digit(c):
                typ, v = self.number()
                return self.emit(typ, v, field, anns, depth)
            if self.among(c, (MINUS,)) and self.digit(self.c(1)):
                typ, v = self.number()
                return self.emit(typ, v, field, anns, depth)
            if self.among(c, (PLUS, MINUS)) and self.looking_at('inf', 1):
                self.i += 4
                if self.stops_number():
                    return self.emit(IonType.FLOAT, ('inf', c), field, anns, depth)
                if where == 'sexp':
                    raise Unclear()
                raise Bad('infinity')
            if self.among(c, (DQUOTE,)):
                return self.emit(IonType.STRING, ('text', self.short(DQUOTE)), field, anns, depth)
            if self.among(c, (LBRACE,)):
                if self.among(self.c(1), (LBRACE,)):
                    typ, v = self.lob()
                    return self.emit(typ, ('octets', v), field, anns, depth)
                return self.struct(field, anns, depth)
            if self.among(c, (LBRACKET,)):
                return self.list(field, anns, depth)
            if self.among(c, (LPAREN,)):
                return self.sexp(field, anns, depth)
            if where == 'sexp' and self.operator(c):
                return self.emit(IonType.SYMBOL, ('text', self.operators()), field, anns, depth)
            raise Bad('value')

    def annotation(self):
        """Whether the symbol just read is an annotation."""
        at = self.i
        self.ws()
        if self.among(self.c(), (COLON,)) and self.among(self.c(1), (COLON,)):
            self.i += 2
            self.ws()
            return True
        self.i = at
        return False

    def identifier(self, where):
        at = self.i
        while self.ident(self.c()):
            self.i += 1
        if where != 'sexp' and self.among(self.c(), (PLUS, MINUS)):
            raise Unclear()          # a number right behind a word
        return self.d[at:self.i]

    def keyword(self, chars):
        for text, typ, v in (('null', IonType.NULL, None), ('true', IonType.BOOL, True),
                             ('false', IonType.BOOL, False), ('nan', IonType.FLOAT, ('nan',))):
            if self.word(chars, text):
                return typ, v
        return None

    def null_type(self, where):
        """After null, at the dot."""
        at = self.i
        self.i += 1
        chars = self.identifier(where)
        for text in NULLS:
            if self.word(chars, text):
                return NULLS[text]
        if where == 'sexp':
            raise Unclear()          # null and an operator?
        raise Bad('typed null')

    def name(self, chars):
        if len(chars) > 1 and self.among(chars[0], (DOLLAR,)):
            if bool(self.h.all([self.h.all([c >= 48, c <= 57]) for c in chars[1:]])):
                sid = 0
                for c in chars[1:]:
                    sid = sid * 10 + (c - 48)
                return ('sid', sid)
        return ('text', chars)

    def looks_version(self, chars):
        if len(chars) < 8 or not self.word(chars[:5], '$ion_'):
            return False
        parts, n = 0, 0
        for c in chars[5:]:
            if self.digit(c):
                n += 1
            elif self.among(c, (USCORE,)) and n > 0:
                parts, n = parts + 1, 0
            else:
                return False
        return parts == 1 and n > 0

    def operators(self):
        at = self.i
        while self.operator(self.c()) and not self.comment_starts():
            if self.i > at and self.among(self.c(), (PLUS, MINUS)):
                if self.digit(self.c(1)) or self.looking_at('inf', 1):
                    raise Unclear()
            self.i += 1
        if self.comment_starts():
            raise Unclear()          # or part of the operator?
        return self.d[at:self.i]

    # ---- numbers
    def digits(self, test):
        """Digits with single underscores between them; returns them without."""
        out = []
        while True:
            c = self.c()
            if test(c):
                out.append(c)
            elif self.among(c, (USCORE,)):
                if not out or not test(self.c(1)):
                    raise Bad('underscore')
            else:
                return out
            self.i += 1

    def bit(self, c):
        return self.within(c, (48, 49))

    def hexd(self, c):
        return self.within(c, (48, 57), (97, 102), (65, 70))

    def number(self):
        neg = self.among(self.c(), (MINUS,))
        if neg:
            self.i += 1
        if self.among(self.c(), (48,)) and self.among(self.c(1), (120, 88, 98, 66)):
            hexa = self.among(self.c(1), (120, 88))
            self.i += 2
            ds = self.digits(self.hexd if hexa else self.bit)
            if not ds or not self.stops_number():
                raise Bad('radix')
            v = 0
            for c in ds:
                v = v * (16 if hexa else 2) + self.hexdigit(c)
            return IonType.INT, (-v if neg else v)
        at = self.i
        ds = self.digits(self.digit)
        if not neg and len(ds) == 4 and self.i == at + 4 and self.among(self.c(), (MINUS, 84)):
            return IonType.TIMESTAMP, self.timestamp(ds)
        if len(ds) > 1 and self.among(ds[0], (48,)):
            raise Bad('leading zero')
        whole = ds
        frac = []
        dotted = self.among(self.c(), (DOT,))
        if dotted:
            self.i += 1
            frac = self.digits(self.digit)
        c = self.c()
        if self.among(c, (101, 69, 100, 68)):
            self.i += 1
            exp = self.exponent()
            if not self.stops_number():
                raise Bad('number')
            if self.among(c, (101, 69)):
                return IonType.FLOAT, ('float', neg, whole, frac, dotted, exp)
        else:
            if not self.stops_number():
                raise Bad('number')
            if not dotted:
                v = 0
                for x in whole:
                    v = v * 10 + (x - 48)
                return IonType.INT, (-v if neg else v)
            exp = (False, [])
        return IonType.DECIMAL, ('decimal', neg, whole + frac, len(frac), exp)

    def exponent(self):
        neg = False
        if self.among(self.c(), (PLUS, MINUS)):
            neg = self.among(self.c(), (MINUS,))
            self.i += 1
        ds = []
        while self.digit(self.c()):
            ds.append(self.c())
            self.i += 1
        if not ds:
            raise Bad('exponent')
        if self.among(self.c(), (USCORE,)):
            raise Unclear()
        return (neg, ds)

    # ---- timestamps
    def two(self, lo, hi):
        if not (self.digit(self.c()) and self.digit(self.c(1))):
            raise Bad('two digits')
        v = (self.c() - 48) * 10 + (self.c(1) - 48)
        self.i += 2
        if v < lo or v > hi:
            raise Bad('field')
        return v

    def skip(self, x):
        if not self.among(self.c(), (x,)):
            raise Bad('delimiter')
        self.i += 1

    def timestamp(self, ds):
        y = 0
        for x in ds:
            y = y * 10 + (x - 48)
        if y < 1:
            raise Bad('year')
        if self.among(self.c(), (84,)):
            self.i += 1
            return self.stopped([y], None, None)
        self.i += 1
        m = self.two(1, 12)
        if self.among(self.c(), (84,)):
            self.i += 1
            return self.stopped([y, m], None, None)
        self.skip(MINUS)
        d = self.two(1, 31)
        if m == 2:
            if d > 29:
                raise Bad('day')
            if d == 29:
                if y % 4 != 0:
                    raise Bad('day')
                if y % 100 == 0:
                    if y % 400 != 0:
                        raise Bad('day')
        elif d == 31:
            if m == 4 or m == 6 or m == 9 or m == 11:
                raise Bad('day')
        if not self.among(self.c(), (84,)):
            return self.stopped([y, m, d], None, None)
        self.i += 1
        if not self.digit(self.c()):
            return self.stopped([y, m, d], None, None)
        f = [y, m, d, self.two(0, 23)]
        self.skip(COLON)
        f.append(self.two(0, 59))
        frac = None
        if self.among(self.c(), (COLON,)):
            self.i += 1
            f.append(self.two(0, 59))
            if self.among(self.c(), (DOT,)):
                self.i += 1
                frac = []
                while self.digit(self.c()):
                    frac.append(self.c())
                    self.i += 1
                if not frac:
                    raise Bad('fraction')
        if self.among(self.c(), (90,)):
            self.i += 1
            return self.stopped(f, frac, 0)
        neg = self.among(self.c(), (MINUS,))
        if not neg:
            if not self.among(self.c(), (PLUS,)):
                raise Bad('offset')
        self.i += 1
        hh = self.two(0, 23)
        self.skip(COLON)
        off = hh * 60 + self.two(0, 59)
        if neg:
            if off == 0:
                return self.stopped(f, frac, None)
            off = -off
        return self.stopped(f, frac, off)

    def stopped(self, f, frac, off):
        if not self.stops_number():
            raise Bad('timestamp')
        return ('ts', f, frac, off)

    # ---- quoted text
    def escape(self, clob):
        """After the backslash; the character, None for an escaped line break, or (surrogate,)."""
        c = self.c()
        if c == EOF:
            raise Short()
        self.i += 1
        for k in ESCAPES:
            if self.among(c, (ord(k),)):
                return ESCAPES[k]
        if self.among(c, (LF,)):
            return None
        if self.among(c, (CR,)):
            if self.among(self.c(), (LF,)):
                self.i += 1
            return None
        if self.among(c, (120,)):
            return self.hexes(2)
        if not clob and self.among(c, (117,)):
            v = self.hexes(4)
        elif not clob and self.among(c, (85,)):
            v = self.hexes(8)
            if v > 0x10ffff:
                raise Bad('code point')
        else:
            raise Bad('escape')
        if self.within(v, (0xd800, 0xdfff)):
            return (v,)
        return v

    def hexes(self, n):
        v = 0
        for k in range(n):
            x = self.hexdigit(self.c())
            if x is None:
                raise Bad('hex digit')
            v = v * 16 + x
            self.i += 1
        return v

    def piece(self, out, clob):
        """An escape, appended to out."""
        self.i += 1
        v = self.escape(clob)
        if isinstance(v, tuple):
            v = v[0]
            if v >= 0xdc00:
                raise Bad('surrogate')
            if not self.among(self.c(), (BSLASH,)):
                raise Bad('surrogate')
            self.i += 1
            w = self.escape(clob)
            if not isinstance(w, tuple) or w[0] < 0xdc00:
                raise Bad('surrogate')
            v = 0x10000 + ((v - 0xd800) << 10) + (w[0] - 0xdc00)
        if v is not None:
            out.append(v)

    def allowed(self, c, clob):
        if c == EOF:
            raise Short()
        if clob and not self.within(c, (0x20, 0x7f), (TAB, TAB), (VT, VT), (FF, FF)):
            raise Bad('character')
        if not clob and not self.within(c, (0x20, 0x10ffff), (TAB, TAB), (VT, VT), (FF, FF)):
            raise Bad('character')

    def short(self, q, clob=False):
        out = []
        self.i += 1
        while True:
            c = self.c()
            if self.among(c, (q,)):
                self.i += 1
                return out
            if self.among(c, (BSLASH,)):
                self.piece(out, clob)
                continue
            self.allowed(c, clob)
            out.append(c)
            self.i += 1

    def long_string(self, clob=False):
        out = []
        while True:
            self.i += 3
            while not self.looking_at("'''"):
                c = self.c()
                if self.among(c, (BSLASH,)):
                    self.piece(out, clob)
                    continue
                if self.among(c, (LF,)):
                    out.append(LF)
                elif self.among(c, (CR,)):
                    if self.among(self.c(1), (LF,)):
                        self.i += 1
                    out.append(LF)
                else:
                    self.allowed(c, clob)
                    out.append(c)
                self.i += 1
            self.i += 3
            at = self.i
            if clob:
                self.blank()
            else:
                self.ws()
            if not self.looking_at("'''"):
                self.i = at
                return out

    # ---- octets
    def lob(self):
        self.i += 2
        self.blank()
        if self.among(self.c(), (DQUOTE,)):
            typ, v = IonType.CLOB, self.short(DQUOTE, True)
        elif self.looking_at("'''"):
            typ, v = IonType.CLOB, self.long_string(True)
        else:
            typ, v = IonType.BLOB, self.base64()
        self.blank()
        if self.c() == EOF:
            raise Short()
        if not (self.among(self.c(), (RBRACE,)) and self.among(self.c(1), (RBRACE,))):
            raise Bad('end of lob')
        self.i += 2
        return typ, v

    def base64(self):
        vals = []
        pads = 0
        while True:
            self.blank()
            c = self.c()
            if self.within(c, (65, 90)):
                v = c - 65
            elif self.within(c, (97, 122)):
                v = c - 71
            elif self.digit(c):
                v = c + 4
            elif self.among(c, (PLUS,)):
                v = 62
            elif self.among(c, (SLASH,)):
                v = 63
            elif self.among(c, (EQ,)):
                pads += 1
                self.i += 1
                continue
            else:
                break
            if pads:
                raise Bad('padding')
            vals.append(v)
            self.i += 1
        if (len(vals) + pads) % 4 != 0 or pads > 2:
            raise Bad('base64')
        out = []
        acc, bits = 0, 0
        for v in vals:
            acc = (acc << 6) | v
            bits += 6
            if bits >= 8:
                bits -= 8
                out.append(acc >> bits)
                acc = acc & ((1 << bits) - 1)
        if bits and not (acc == 0):
            raise Unclear()
        return out

    # ---- containers
    def struct(self, field, anns, depth):
        self.emit(IonType.STRUCT, None, field, anns, depth, 'start')
        self.i += 1
        self.ws()
        while not self.among(self.c(), (RBRACE,)):
            name = self.field()
            self.ws()
            self.skip(COLON)
            self.ws()
            self.value('struct', name, depth + 1)
            self.ws()
            if not self.among(self.c(), (RBRACE,)):
                self.skip(COMMA)
                self.ws()
        self.i += 1
        self.emit(IonType.STRUCT, None, None, (), depth, 'end')

    def field(self):
        c = self.c()
        if c == EOF:
            raise Short()
        if self.among(c, (QUOTE,)):
            if self.looking_at("'''"):
                return ('text', self.long_string())
            return ('text', self.short(QUOTE))
        if self.among(c, (DQUOTE,)):
            return ('text', self.short(DQUOTE))
        if not self.ident_start(c):
            raise Bad('field name')
        chars = self.identifier('field')
        if self.keyword(chars) is not None:
            raise Bad('field name')
        return self.name(chars)

    def list(self, field, anns, depth):
        self.emit(IonType.LIST, None, field, anns, depth, 'start')
        self.i += 1
        self.ws()
        while not self.among(self.c(), (RBRACKET,)):
            self.value('list', None, depth + 1)
            self.ws()
            if not self.among(self.c(), (RBRACKET,)):
                self.skip(COMMA)
                self.ws()
        self.i += 1
        self.emit(IonType.LIST, None, None, (), depth, 'end')

    def sexp(self, field, anns, depth):
        self.emit(IonType.SEXP, None, field, anns, depth, 'start')
        self.i += 1
        self.ws()
        while not self.among(self.c(), (RPAREN,)):
            self.value('sexp', None, depth + 1)
            self.ws()
        self.i += 1
        self.emit(IonType.SEXP, None, None, (), depth, 'end')


_KIND = {'scalar': IonEventType.SCALAR, 'start': IonEventType.CONTAINER_START, 'end': IonEventType.CONTAINER_END,
         'ivm': IonEventType.VERSION_MARKER}
_PRECISION = {1: TimestampPrecision.YEAR, 2: TimestampPrecision.MONTH, 3: TimestampPrecision.DAY,
              5: TimestampPrecision.MINUTE, 6: TimestampPrecision.SECOND}


def same_text(h, got, want):
    return len(got) == len(want) and h.all([ord(got[i]) == want[i] for i in range(len(want))])


def same_token(h, got, want):
    if want[0] == 'sid':
        return got.text is None and got.sid == want[1]
    return got.text is not None and same_text(h, got.text, want[1])


def number(ds):
    v = 0
    for c in ds:
        v = v * 10 + (c - 48)
    return v


def check_value(h, typ, got, want):
    if want is None:
        h.check(got is None, 'null')
    elif typ is IonType.BOOL:
        h.check(got is want, 'bool')
    elif typ is IonType.INT:
        h.check(got == want, 'int')
    elif typ is IonType.FLOAT:
        if want[0] == 'nan':
            h.check(got != got, 'nan')
        elif want[0] == 'inf':
            h.check(got == (float('-inf') if want[1] == MINUS else float('inf')), 'infinity')
        else:
            _, neg, whole, frac, dotted, (eneg, exp) = want
            text = ('-' if neg else '') + ''.join([chr(c) for c in whole]) + '.' + ''.join([chr(c) for c in frac]) + \
                'e' + ('-' if eneg else '') + ''.join([chr(c) for c in exp])
            h.check(h.same_float(got, float(text)), 'float')
    elif typ is IonType.DECIMAL:
        _, neg, ds, scale, (eneg, exp) = want
        s, c, e = h.dec_parts(got)
        exp = number(exp)
        h.check(c is not None, 'decimal')
        h.check_each([e == (-exp if eneg else exp) - scale, c == number(ds), s == (1 if neg else 0)], 'decimal')
    elif typ is IonType.TIMESTAMP:
        check_timestamp(h, got, want)
    elif typ is IonType.SYMBOL:
        h.check(same_token(h, got, want), 'symbol')
    elif typ is IonType.STRING:
        h.check(same_text(h, got, want[1]), 'string')
    else:
        want = want[1]
        h.check(len(got) == len(want), 'lob length')
        h.check(h.all([got[i] == want[i] for i in range(len(want))]), 'lob')


def check_timestamp(h, got, want):
    _, f, frac, off = want
    h.check(got.precision == _PRECISION[len(f)], 'timestamp precision')
    if off is None:
        h.check(got.tzinfo is None, 'offset')
    else:
        h.check(got.tzinfo is not None, 'offset')
        o = got.utcoffset()
        h.check(o.days * 1440 + o.seconds // 60 == off, 'offset')
    f = f + [1, 1, 0, 0, 0][len(f) - 1:]
    h.check_each([got.second == f[5], got.minute == f[4], got.hour == f[3], got.day == f[2], got.month == f[1],
                  got.year == f[0]], 'timestamp fields')
    s, c, e = h.dec_parts(got.fractional_seconds)
    if frac is None:
        h.check(h.all([c == 0, e == 0]), 'fraction')
    else:
        h.check(h.all([c == number(frac), e == -len(frac), s == 0]), 'fraction')


def compare(h, chars, evs, how):
    ref = Ref(h, chars)
    h.check(how != 'endless', 'the end of the input is never reached')
    try:
        ref.stream()
        want = 'ok'
    except Bad as e:
        want = 'bad'
    except Short:
        want = 'short'
    except Unclear:
        return
    if want != 'ok':
        h.check(how != 'end', 'malformed text accepted')
        h.reached(want)
        return
    h.check(how == 'end', 'well-formed text rejected')
    h.check(len(evs) == len(ref.out), 'number of events')
    for k in range(len(ref.out)):
        kind, typ, v, field, anns, depth = ref.out[k]
        e = evs[k]
        h.check(e[0] is _KIND[kind], 'event')
        h.check(e[5] == depth, 'depth')
        if kind == 'ivm':
            continue
        h.check(e[1] is typ, 'type')
        if kind == 'end':
            continue
        if field is None:
            h.check(e[3] is None, 'field')
        else:
            h.check(e[3] is not None, 'field')
            h.check(same_token(h, e[3], field), 'field')
        h.check(len(e[4]) == len(anns), 'annotations')
        for j in range(len(anns)):
            h.check(same_token(h, e[4][j], anns[j]), 'annotation')
        if kind == 'scalar':
            check_value(h, typ, e[2], v)
    h.reached('ok')


def events(r, data):
    """All events of data, and whether the stream ended there."""
    out = []
    flushes = 0
    try:
        event = r.send(NEXT_EVENT)
        given = False
        while True:
            t = event.event_type
            if not given and (t is IonEventType.STREAM_END or t is IonEventType.INCOMPLETE):
                given = True
                event = r.send(read_data_event(data))
            elif t is IonEventType.STREAM_END:
                return out, 'end'
            elif t is IonEventType.INCOMPLETE:
                # NEXT says that there is no more data. A comment and the value before it can take one each.
                flushes += 1
                if flushes > 5:
                    return out, 'endless'
                event = r.send(NEXT_EVENT)
            else:
                out.append(flat(event))
                event = r.send(NEXT_EVENT)
    except Exception:
        return out, 'error'


GAPS = [u'', u' ', u'/*%s*/', u'//%s\n', u'//%s\r', u'/**%s/*/', u' /*%s*/ ']


def gaps(h, doc, gaps=1):
    """The tokens of doc (a space where one is needed), with white space and comments of one character in up to
    `gaps` places."""
    toks = DOCS[doc]
    s = u''
    at = []
    for i in range(gaps):
        at.append(h.choice('at%d' % i, range(at[-1] + 1 if at else 0, len(toks) + 2 - gaps + i)))
    for k in range(len(toks) + 1):
        if k in at:
            g = h.choice('gap%d' % k, GAPS)
            if u'%s' in g:
                a, b = g.split(u'%s')
                g = a + h.str('c%d' % k, 1, 1, 0x7f) + b
            s = s + g
        if k < len(toks):
            s = s + toks[k]
    h.observe('text', s)
    evs, how = events(reader(is_unicode=False), s.encode('utf-8'))
    compare(h, [ord(x) for x in s], evs, how)


DOCS = {
    'struct': [u'{', u'a', u':', u'b', u'::', u'1', u',', u'"c"', u':', u"'d'", u'}'],
    'struct2': [u'{', u"'a'", u':', u"''", u'::', u'x', u',', u"'''c'''", u"'''d'''", u':', u'$4', u'::', u'{', u'}', u'}'],
    'list': [u'[', u'a', u'::', u'-1', u',', u'b', u',', u"'c'", u'::', u'"d"', u',', u'2001T', u',', u'null', u']'],
    'list2': [u'[', u'nan', u',', u'$4', u'::', u'$5', u',', u'[', u']', u',', u"'''a'''", u"'''b'''", u',', u"''", u']'],
    'sexp': [u'(', u'a', u'::', u'+', u'b ', u'-1', u"'c'", u'::', u'(', u')', u'[', u']', u'-', u')'],
    'sexp2': [u'(', u"'''a'''", u"'''b'''", u"'c'", u'"d"', u'+inf', u'a', u"''", u'i', u')'],
    'top': [u'a', u'::', u'b', u'::', u'1 ', u'x', u"'y'", u'[', u']', u'$4'],
    'top2': [u"'a'", u'::', u"''", u'::', u"'''b'''", u"'''c'''", u"'d'"],
    'top3': [u'$4', u'::', u'true', u'(', u')', u'-inf', u'"x"', u'1'],
    'top4': [u'a', u'::', u'null.int'],
    'top5': [u'a', u'::', u'$ion_1_0', u' $ion_1_0'],
    'top6': [u'{', u'{', u'"a"', u'}', u'}', u'{{', u'YQ', u'==', u'}}', u'1'],
}


def text(h, n=1, before=u'', after=u'', lo=0, hi=0x7f, m=0, middle=u'', wide=False):
    """before, n characters, middle, m characters, after"""
    s = before + h.str('s', n, lo, hi) + middle
    if m:
        s = s + h.str('t', m, lo, hi)
    s = s + after
    data = s if wide else s.encode('utf-8')
    h.observe('text', s)
    evs, how = events(reader(is_unicode=wide), data)
    compare(h, [ord(x) for x in s], evs, how)



TOKENS = [u"'''a'''", u"''", u"'b'", u'c', u'$4', u'1', u'-', u'+in', u'null', u':', u',', u'{', u'}', u'[', u']',
          u'(', u')', u'//x\n', u'/**/', u'"d"', u' ', u'.', u'{{', u'YQ==', u'}}', u'2001T', u'-inf', u'nan', u'true.',
          u'.int', u'::', u'$ion_1_0', u'é']


def tokens(h, k, before=u'', after=u'', skip=()):
    """k tokens in a row."""
    s = before
    toks = [t for t in TOKENS if t not in skip]
    for i in range(k):
        s = s + h.choice('t%d' % i, toks)
    s = s + after
    h.observe('text', s)
    evs, how = events(reader(is_unicode=True), [s][0])
    compare(h, [ord(x) for x in s], evs, how)


EDITED = [u'2000-01-01T00:10:20.0+00:30', u'2000-01-01T11:00Z', u"{{ '''a''' '''b''' }}", u'/**/1/***/ 2', u'$ion_1_0 $ion_2x',
          u'(null.int 1)', u'{true : 1}', u'{a /**/:1}', u'{{"a"}}', u'{{ AAAA}}', u"(a'''b''' //c\nd)", u'(+inf -inf)',
          u'-0.1d-12', u'1e+05', u'0x1F', u'-0b10', u'1_000.0', u"'a'::b::'''c'''", u"{'a':$4,b:c::[]}", u'[1,a::x,(),{}]',
          u"('a'b+ ''c::d)", u'"\\u0041\\x41\\\n"', u"'''a\\'b''' ''", u'"\\ud83d\\udc0d"', u'null.string nan', u"[''' ''',1]",
          u'(a::)1', u"('''a''' '')", u"{'''a''' /**/ '''b''':1}", u"['''a'''/**/'''b''', 'c'::d]", u"('''a'''//\n'''b''' /c)",
          u'a::/**/b::1 //', u'null.timestamp $0', u'{a:1,}', u'[1,2,]', u'{{ "a\\x41\\n" }}', u'{{YWI=}} {{Y W Jj}}',
          u'(a+-b-1-c+ -2)', u'2000-01T 2000T 2001-02-03', u'2000-01-01T00:00-00:00', u'2000-12-31T23:59:59.999Z',
          u'1. 0. -0 0.0 -0e0', u'(1-1)', u'a b $a _b', u'"a" \'b\' "c"', u'{"a":{b:(c)}}', u'(a.b ..)', u'true false nan',
          u'$1::$2 $3x', u'{$1:$2,$3:null}', u'(:: a)', u'[[],[[]]]', u'{}{}', u'()[]', u'"\\U0001F600"', u'/*a//*/1//b\r2',
          u'null.null null.decimal', u'(- 1 -a)', u'( -inf+inf)', u'(//\n)', u'[/**/]', u"''::'a'", u"'''\\\r\na\r'''",
          u'-1.5d0 1D3 1E3', u'0b1_0 0xa_F', u'1_0.0_1', u'$ion_12 $ion_1::$ion_']


def edited(h, doc, replace=0, n=1):
    """A document with n other characters in place of `replace` ones, at any place."""
    s = EDITED[doc]
    at = h.choice('at', range(len(s) + 1 - replace))
    s = s[:at] + h.str('c', n, 0, 0x7f) + s[at + replace:]
    h.observe('text', s)
    evs, how = events(reader(is_unicode=True), s)
    compare(h, [ord(x) for x in s], evs, how)
