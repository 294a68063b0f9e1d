"""ion_equals against a reference of the data model."""
from collections import OrderedDict
from datetime import datetime, timedelta
from decimal import Decimal
from amazon.ion.core import IonType, Timestamp, TimestampPrecision, OffsetTZInfo, Multimap
from amazon.ion.equivalence import ion_equals
from amazon.ion.simple_types import (IonPyInt, IonPyBool, IonPyFloat, IonPyDecimal, IonPyText, IonPyBytes,
                                     IonPySymbol, IonPyTimestamp, IonPyNull, IonPyList, IonPyDict)
from amazon.ion.symbols import SymbolToken, ImportLocation

_PRECISIONS = [TimestampPrecision.YEAR, TimestampPrecision.MONTH, TimestampPrecision.DAY, TimestampPrecision.MINUTE,
               TimestampPrecision.SECOND]


ITEMS = ['int', 'bool', 'wrapped']


class V(object):
    """A value, and what it is in the data model.

    kind     what the native value is
    content  what it holds, to be compared by same_content
    type     Ion type (None for a native value), anns texts of its annotations
    """
    def __init__(self, value, kind, content, type=None, anns=()):
        self.value, self.kind, self.content, self.type, self.anns = value, kind, content, type, anns


class Gen(object):
    def __init__(self, h, who, typed, digits=2, anns=2, dates=None, most=2, items=ITEMS, places=(0, 2, 6, 8), precisions=(0, 1, 2, 3, 4),
                 pick=False):
        self.precisions = precisions
        self.h, self.who, self.typed, self.digits, self.anns = h, who, typed, digits, anns
        self.pick = pick
        self.dates, self.most, self.items, self.places = dates, most, items, places
        self.k = 0

    def name(self, what):
        self.k += 1
        return '%s.%s%d' % (self.who, what, self.k)

    def finish(self, cls, native, kind, content, types):
        """The native value itself or wrapped with a type and annotations."""
        h = self.h
        typed = h.flag(self.name('typed')) if self.typed == 'any' else self.typed
        if not typed:
            return V(native, kind, content)
        t = h.choice(self.name('type'), types)
        anns = []
        for i in range(h.choice(self.name('annotations'), range(self.anns))):
            anns.append(self.symbol_content())
        tokens = tuple([x[0] if x[1] is None and x[0] is not None else SymbolToken(*x) for x in anns])
        return V(cls.from_value(t, native, tokens), kind, content, t, anns)

    def symbol_content(self):
        """(text, sid, location)"""
        h = self.h
        what = h.choice(self.name('symbol'), ['text', 'token', 'unknown', 'imported'])
        if what == 'text':
            return (h.str(self.name('s'), 1), None, None)
        if what == 'token':
            return (h.str(self.name('s'), 1), h.int(self.name('sid'), 0, 20), None)
        if what == 'unknown':
            return (None, h.int(self.name('sid'), 0, 20), None)
        # Symbol identifier 0 is not imported from anywhere.
        return (None, h.int(self.name('sid'), 1, 20),
                ImportLocation(h.choice(self.name('table'), [u'x', u'y']), h.int(self.name('position'), 1, 3)))

    def make(self, kind, depth=0):
        h = self.h
        if kind == 'int':
            x = h.int(self.name('x'), -(1 << 70), 1 << 70)
            return self.finish(IonPyInt, x, 'int', x, [IonType.INT])
        if kind == 'small':
            x = h.int(self.name('x'), 0, 1)
            return self.finish(IonPyInt, x, 'int', x, [IonType.INT])
        if kind == 'bool':
            x = h.flag(self.name('x'))
            return self.finish(IonPyBool, x, 'bool', x, [IonType.BOOL])
        if kind == 'float':
            x = h.float(self.name('x'))
            return self.finish(IonPyFloat, x, 'float', x, [IonType.FLOAT])
        if kind == 'decimal':
            p = (h.choice(self.name('sign'), [0, 1]), h.int(self.name('coef'), 0, 10 ** self.digits - 1),
                 h.int(self.name('exp'), -4, 4))
            return self.finish(IonPyDecimal, h.decimal(*p), 'decimal', p, [IonType.DECIMAL])
        if kind == 'text':
            s = h.str(self.name('s'), h.choice(self.name('n'), [0, 1, 2]))
            return self.finish(IonPyText, s, 'text', (s, None, None), [IonType.STRING, IonType.SYMBOL])
        if kind == 'symbol':
            c = self.symbol_content()
            if c[1] is None:
                c = (c[0], 10, None)
            return self.finish(IonPySymbol, SymbolToken(*c), 'symbol', c, [IonType.SYMBOL])
        if kind == 'bytes':
            s = h.bytes(self.name('s'), h.choice(self.name('n'), [0, 1, 2]))
            return self.finish(IonPyBytes, s, 'bytes', s, [IonType.CLOB, IonType.BLOB])
        if kind == 'time':
            return self.time()
        if kind == 'datetime':
            f = self.fields(3)
            micro = h.int(self.name('micro'), 0, 999999)
            # A naive datetime has microseconds.
            c = (4, f + [7, micro], (h.decimal(0, micro, -6)), None)
            return self.finish(IonPyTimestamp, datetime(*(f + [7, micro])), 'time', c, [IonType.TIMESTAMP])
        if kind == 'null':
            t = h.choice(self.name('of'), [IonType.NULL, IonType.INT, IonType.LIST, IonType.SYMBOL])
            if self.typed != True and h.flag(self.name('native')):
                return V(None, 'null', None)
            v = self.finish(IonPyNull, None, 'null', t, [t])
            if v.type is None:
                h.stop()
            return v
        if kind in ('list', 'tuple'):
            xs = [self.item(i) for i in range(h.choice(self.name('n'), range(self.most + 1)))]
            native = [x.value for x in xs]
            return self.finish(IonPyList, native if kind == 'list' else tuple(native), 'list', xs,
                               [IonType.LIST, IonType.SEXP])
        if kind in ('dict', 'multi'):
            n = h.choice(self.name('n'), range(self.most + 1))
            d = OrderedDict() if kind == 'dict' else Multimap()
            fields = []
            for i in range(n):
                f = u'ab'[i] if kind == 'dict' else h.choice(self.name('f'), [u'a', u'b'])
                x = self.item(i)
                fields.append((f, x))
                if kind == 'dict':
                    d[f] = x.value
                else:
                    d.add_item(f, x.value)
            return self.finish(IonPyDict, d, 'struct', fields, [IonType.STRUCT])
        raise ValueError(kind)

    def item(self, i):
        """What containers hold: values that Python's == would confuse."""
        h = self.h
        what = h.choice(self.name('item'), self.items)
        if what == 'nan':
            return V(float('nan'), 'float', float('nan'))
        if what == 'bool':
            x = h.flag(self.name('x'))
            return V(x, 'bool', x)
        if what == 'seq':
            y = h.int(self.name('x'), 0, 1)
            y = V(y, 'int', y)
            return V([y.value], 'list', [y])
        if what == 'struct':
            y = h.int(self.name('x'), 0, 1)
            y = V(y, 'int', y)
            return V({u'a': y.value}, 'struct', [(u'a', y)])
        x = h.int(self.name('x'), 0, 1)
        if what == 'wrapped':
            return V(IonPyInt.from_value(IonType.INT, x), 'int', x, IonType.INT)
        return V(x, 'int', x)

    def fields(self, precision):
        h = self.h
        if self.dates is None:
            out = [h.int(self.name('year'), 1, 9999), 1, 1, 0, 0]
        else:
            out = list(h.choice(self.name('date'), self.dates[:1] if precision < 3 and not self.pick else self.dates)) + [0, 0]
        if precision >= 3:
            out[3], out[4] = h.int(self.name('hour'), 0, 23), h.int(self.name('minute'), 0, 59)
        return out

    def time(self):
        h = self.h
        p = h.choice(self.name('precision'), self.precisions)
        f = self.fields(p)
        second = h.int(self.name('second'), 0, 59) if p == 4 else 0
        off = h.int(self.name('off'), -1439, 1439) if p >= 3 and h.flag(self.name('offset')) else None
        tz = None if off is None else OffsetTZInfo(timedelta(minutes=off))
        frac = None
        if p == 4:
            places = h.choice(self.name('places'), self.places)
            frac = h.decimal(0, h.int(self.name('frac'), 0, 99) if places else 0, -places)
        t = Timestamp(f[0], f[1], f[2], f[3], f[4], second, None, tz, precision=_PRECISIONS[p],
                      fractional_seconds=frac)
        if frac is None:
            frac = h.decimal(0, 0, 0)
        return self.finish(IonPyTimestamp, t, 'time', (p, f + [second], frac, off), [IonType.TIMESTAMP])


def same(h, a, b, instants=False):
    """Whether a and b are equivalent, as a term."""
    if a.type is not None and b.type is not None:
        if a.type is not b.type or len(a.anns) != len(b.anns):
            return False
        anns = [same_symbol(h, x, y) for x, y in zip(a.anns, b.anns)]
    elif a.anns or b.anns:
        return False
    else:
        anns = []
        # A null of a type other than null has no native counterpart.
        if a.kind == 'null' and b.kind == 'null':
            return (a.type is None or a.type is IonType.NULL) and (b.type is None or b.type is IonType.NULL)
    return h.all(anns + [same_content(h, a, b, instants)])


def same_content(h, a, b, instants):
    symbolic = ('text', 'symbol')
    if a.kind != b.kind and not (a.kind in symbolic and b.kind in symbolic):
        return False
    x, y = a.content, b.content
    if a.kind in symbolic:
        if (a.kind == 'symbol' and b.type is IonType.STRING) or (b.kind == 'symbol' and a.type is IonType.STRING):
            # A symbol token is no string.
            return False
        if a.kind == 'symbol' or b.kind == 'symbol':
            return same_symbol(h, x, y)
        return x[0] == y[0]
    if a.kind == 'null':
        return True
    if a.kind == 'float':
        return h.same_float(x, y)
    if a.kind == 'decimal':
        return h.eq(x, y)
    if a.kind == 'time':
        if instants:
            return same_instant(h, x, y)
        if x[0] != y[0] or (x[3] is None) != (y[3] is None):
            return False
        fx, fy = h.dec_parts(x[2]), h.dec_parts(y[2])
        out = [h.eq(fx[1], fy[1]), fx[2] == fy[2]] + [p == q for p, q in zip(x[1], y[1])]
        if x[3] is not None:
            out.append(x[3] == y[3])
        return h.all(out)
    if a.kind == 'list':
        return len(x) == len(y) and h.all([same(h, p, q, instants) for p, q in zip(x, y)])
    if a.kind == 'struct':
        return len(x) == len(y) and same_fields(h, x, y, instants)
    return x == y


def same_fields(h, x, y, instants):
    """Equal multisets: x[0] matches some field of y, and the rest match the rest."""
    if not x:
        return True
    f, v = x[0]
    out = []
    for i, (g, w) in enumerate(y):
        if f == g:
            out.append(h.all([same(h, v, w, instants), same_fields(h, x[1:], y[:i] + y[i + 1:], instants)]))
    return h.any(out)


def same_symbol(h, x, y):
    if (x[0] is None) != (y[0] is None):
        return False
    if x[0] is not None:
        return x[0] == y[0]
    if (x[2] is None) != (y[2] is None):
        return False
    if x[2] is not None:
        return h.all([x[2].name == y[2].name, x[2].position == y[2].position])
    return h.all([h.implies(x[1] == 0, y[1] == 0), h.implies(y[1] == 0, x[1] == 0)])


DATES = [(2000, 1, 1), (1999, 12, 31), (2000, 2, 29), (2000, 3, 1)]


def minutes(f, off):
    """Minutes since the first of 1999."""
    days = [366, 365, 366 + 60, 366 + 61][DATES.index(tuple(f[:3]))]
    return days * 1440 + f[3] * 60 + f[4] - (0 if off is None else off)


def same_instant(h, x, y):
    fx, fy = h.dec_parts(x[2]), h.dec_parts(y[2])
    sx, sy = x[1][5] if len(x[1]) > 5 else 0, y[1][5] if len(y[1]) > 5 else 0
    k = max(-fx[2], -fy[2], 0)
    return h.all([minutes(x[1], x[3]) == minutes(y[1], y[3]), sx == sy,
                  fx[1] * 10 ** (k + fx[2]) == fy[1] * 10 ** (k + fy[2])])


def pairs(h, a, b, typed='any', instants=False, anns=1, digits=2, most=2, items=ITEMS, dates=4, places=(0, 2, 6, 8),
          precisions=(0, 1, 2, 3, 4), pick=False):
    """ion_equals of two values says whether they are the same in the data model, both ways round."""
    dates = DATES[:dates] if instants or pick else None
    x = Gen(h, 'a', typed, digits, anns, dates, most, items, places, precisions, pick).make(a)
    y = Gen(h, 'b', typed, digits, anns, dates, most, items, places, precisions, pick).make(b)
    expected = same(h, x, y, instants)
    try:
        got = ion_equals(x.value, y.value, instants)
        other = ion_equals(y.value, x.value, instants)
    except OverflowError:
        # Instants outside the calendar: datetime's own limit.
        h.check(instants, 'overflow')
        return
    if got:
        h.check(expected, 'different values are equal')
    else:
        h.check(h.implies(expected, False), 'equal values are different')
    h.check(h.eq(bool(got), bool(other)), 'the order matters')
    h.check(ion_equals(x.value, x.value, instants), 'not equal to itself')
    h.reached('equal' if got else 'different')
