"""Text encoding: strings, symbols, names and octets survive dumps/loads."""
from datetime import datetime, timedelta, timezone
from amazon.ion import simpleion
from amazon.ion.core import IonType, TimestampPrecision, OffsetTZInfo
from amazon.ion.simple_types import IonPyBytes, IonPyText, IonPySymbol, IonPyDict, IonPyList, IonPyNull, IonPyInt, IonPyFloat, \
    IonPyBool
from amazon.ion.symbols import SymbolToken

ALPHABETS = {'any': (0, 0x10ffff), 'ascii': (0, 127), 'printable': (32, 126), 'wide': (0x80, 0x10ffff)}


def text(h, name, n, alphabet, prefix=u'', suffix=u''):
    lo, hi = ALPHABETS[alphabet]
    return prefix + h.str(name, n, lo, hi) + suffix


def string_roundtrip(h, n, alphabet='any', binary=False):
    s = text(h, 's', n, alphabet)
    data = simpleion.dumps(s, binary=binary)
    h.observe('data', data)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.STRING, 'type')
    h.check(y == s, 'value')
    h.check(len(y.ion_annotations) == 0, 'annotations')
    h.reached('end')


def symbol_roundtrip(h, n, alphabet='any', where='top', prefix=u'', suffix=u'', binary=False):
    s = text(h, 's', n, alphabet, prefix, suffix)
    if where == 'top' and u'$ion_1_0'.startswith(prefix):
        # A symbol of that text is no value at the top level: Ion takes it as a system value without effect.
        h.assume(h.eq(s, u'$ion_1_0') == False)          # noqa: E712
    v = IonPySymbol.from_value(IonType.SYMBOL, SymbolToken(s, None))
    if where == 'list':
        v = [v, 1]
    elif where == 'sexp':
        v = IonPyList.from_value(IonType.SEXP, [v, 1])
    elif where == 'sexp2':
        v = IonPyList.from_value(IonType.SEXP, [1, v])
    elif where == 'struct':
        v = {u'a': v}
    data = simpleion.dumps(v, binary=binary)
    h.observe('data', data)
    y = simpleion.loads(data)
    if where == 'list' or where == 'sexp':
        h.check(len(y) == 2, 'size')
        h.check(y[1] == 1, 'second value')
        y = y[0]
    elif where == 'sexp2':
        h.check(len(y) == 2, 'size')
        h.check(y[0] == 1, 'first value')
        y = y[1]
    elif where == 'struct':
        h.check(len(y) == 1, 'size')
        y = y[u'a']
    h.check(y.ion_type is IonType.SYMBOL, 'type')
    h.check(y.text == s, 'value')
    h.check(len(y.ion_annotations) == 0, 'annotations')
    h.reached('end')


def name_roundtrip(h, n, alphabet='any', role='field', prefix=u'', suffix=u'', binary=False, indent=None):
    s = text(h, 's', n, alphabet, prefix, suffix)
    if role == 'field':
        v = {s: 7, u'other': 8}
        h.assume(h.eq(s, u'other') == False)          # noqa: E712
    elif role == 'annotation':
        v = IonPyInt.from_value(IonType.INT, 7, (s,))
    elif role == 'annotation2':
        v = IonPySymbol.from_value(IonType.SYMBOL, SymbolToken(u'v', None), (u'first', s))
    else:
        v = IonPyList.from_value(IonType.SEXP, [IonPyNull.from_value(IonType.CLOB, None, (s, u'x'))])
    data = simpleion.dumps(v, binary=binary, indent=indent)
    h.observe('data', data)
    y = simpleion.loads(data)
    if role == 'field':
        h.check(y.ion_type is IonType.STRUCT, 'type')
        items = list(y.items())
        h.check(len(items) == 2, 'size')
        h.check(items[0][0] == s, 'field name')
        h.check(items[0][1] == 7, 'field value')
        h.check(items[1][0] == u'other', 'field name')
        h.check(y[u'other'] == 8, 'field value')
    elif role == 'annotation':
        h.check(y.ion_type is IonType.INT, 'type')
        h.check(y == 7, 'value')
        h.check(len(y.ion_annotations) == 1, 'annotations')
        h.check(y.ion_annotations[0].text == s, 'annotation')
    elif role == 'annotation2':
        h.check(y.ion_type is IonType.SYMBOL, 'type')
        h.check(y.text == u'v', 'value')
        h.check(len(y.ion_annotations) == 2, 'annotations')
        h.check(y.ion_annotations[0].text == u'first', 'annotation')
        h.check(y.ion_annotations[1].text == s, 'annotation')
    else:
        y = y[0]
        h.check(y.ion_type is IonType.CLOB, 'type')
        h.check(len(y.ion_annotations) == 2, 'annotations')
        h.check(y.ion_annotations[0].text == s, 'annotation')
        h.check(y.ion_annotations[1].text == u'x', 'annotation')
    h.reached('end')


def lob_roundtrip(h, n, kind='clob', where='top', binary=False):
    b = h.bytes('b', n)
    t = IonType.CLOB if kind == 'clob' else IonType.BLOB
    v = IonPyBytes.from_value(t, b) if h.flag('wrapped') or kind == 'clob' else b
    if where == 'sexp':
        v = IonPyList.from_value(IonType.SEXP, [v, v])
    elif where == 'struct':
        v = {u'a': v}
    data = simpleion.dumps(v, binary=binary)
    h.observe('data', data)
    y = simpleion.loads(data)
    if where == 'sexp':
        h.check(len(y) == 2, 'size')
        y = y[0]
    elif where == 'struct':
        y = y[u'a']
    h.check(y.ion_type is t, 'type')
    h.check(y == b, 'value')
    h.reached('end')


NULLS = [IonType.NULL, IonType.BOOL, IonType.INT, IonType.FLOAT, IonType.DECIMAL, IonType.TIMESTAMP, IonType.SYMBOL,
         IonType.STRING, IonType.CLOB, IonType.BLOB, IonType.LIST, IonType.SEXP, IonType.STRUCT]


def null_or_bool(h, binary=False):
    """Typed nulls, booleans and Python's None, True and False, at top level, in containers and annotated."""
    what = h.choice('what', ['null', 'bool', 'native null', 'native bool'])
    ann = ()
    if what == 'null':
        t = h.choice('type', NULLS)
        ann = (u'a',) if h.flag('ann') else ()
        v, want = IonPyNull.from_value(t, None, ann), None
    elif what == 'bool':
        t, want = IonType.BOOL, h.flag('b')
        ann = (u'a',) if h.flag('ann') else ()
        v = IonPyBool.from_value(t, want, ann)
    elif what == 'native null':
        t, v, want = IonType.NULL, None, None
    else:
        t = IonType.BOOL
        v = want = h.flag('b')
    where = h.choice('where', ['top', 'list', 'sexp', 'struct'])
    if where == 'list':
        x = [v, v]
    elif where == 'sexp':
        x = IonPyList.from_value(IonType.SEXP, [v, v])
    elif where == 'struct':
        x = {u'f': v}
    else:
        x = v
    data = simpleion.dumps(x, binary=binary)
    h.observe('data', data)
    y = simpleion.loads(data)
    if where == 'list' or where == 'sexp':
        h.check(len(y) == 2, 'size')
        y = y[1]
    elif where == 'struct':
        y = y[u'f']
    h.check(y.ion_type is t, 'type')
    if want is None:
        h.check(isinstance(y, IonPyNull), 'null')
    else:
        h.check(isinstance(y, IonPyBool), 'bool')
        h.check(bool(y) is want, 'bool')
    h.check(len(y.ion_annotations) == len(ann), 'annotations')
    if ann:
        h.check(y.ion_annotations[0].text == u'a', 'annotation')
    h.reached('end')


def special_float(h, binary=False):
    inf = float('inf')
    x = h.choice('x', [inf, -inf, inf - inf])
    where = h.choice('where', ['top', 'sexp', 'struct'])
    v = IonPyList.from_value(IonType.SEXP, [x, x]) if where == 'sexp' else {u'f': x} if where == 'struct' else x
    data = simpleion.dumps(v, binary=binary)
    y = simpleion.loads(data)
    y = y[1] if where == 'sexp' else y[u'f'] if where == 'struct' else y
    h.check(y.ion_type is IonType.FLOAT, 'type')
    h.check(h.same_float(x, y), 'value')
    h.reached('end')


def float_roundtrip(h, whole, frac, exp=None, neg=False):
    """Floats whose repr() has the given shape."""
    t = str(h.digits('whole', whole))
    ds = h.str('frac', frac, 48, 57)
    if frac:
        if frac > 1 or exp is not None:
            h.assume(ds[frac - 1] != u'0')
        t = t + u'.' + ds
    if exp is not None:
        h.assume(t[0] != u'0')
        t = t + u'e' + exp
    if neg:
        t = u'-' + t
    x = h.float_text(t)
    where = h.choice('where', ['top', 'sexp', 'struct'])
    v = IonPyList.from_value(IonType.SEXP, [x, x]) if where == 'sexp' else {u'f': x} if where == 'struct' else x
    data = simpleion.dumps(v, binary=False)
    h.observe('data', data)
    y = simpleion.loads(data)
    y = y[1] if where == 'sexp' else y[u'f'] if where == 'struct' else y
    h.check(y.ion_type is IonType.FLOAT, 'type')
    h.check(h.same_float(x, y), 'value')
    h.reached('end')


# Floats whose shortest text is long, or about to change its form.
FLOATS = [1.2345678901234567e+100, 0.1 + 0.2, 1 / 3.0, 2 / 3.0, 1e22, 1e23, 9007199254740993.0, 9007199254740992.0,
          4503599627370496.5, 4503599627370497.5, 1e15, 1e16, 9999999999999998.0, 9999999999999999.0, 123456789012345680.0,
          1e-4, 1e-5, 9.999999999999999e-05, 0.00010000000000000002, 5e-324, 1e-323, 2.2250738585072014e-308,
          2.225073858507201e-308, 1.7976931348623157e+308, 1.7976931348623155e+308, 8.98846567431158e+307,
          2.0 ** 53 + 2, 2.0 ** 64, 2.0 ** 63, 2.0 ** -1022, 2.0 ** -30, 2.0 ** 100, 1.0000000000000002, 0.9999999999999999,
          4.35, 0.285, 1.005, 100.0, 1e2, 123456.789, 299792458.0, 6.02214076e+23, 1.602176634e-19, 72057594037927945.0,
          3.141592653589793, 2.718281828459045, 1e300, 1e-300, 9.109383701528e-31, 5.0, 0.5, 1.5, 10.0, 4294967296.0,
          16777217.0, 3.4028234663852886e+38, 1.401298464324817e-45, 65504.0]


def hard_float(h):
    x = FLOATS[h.choice('which', range(len(FLOATS)))]
    x = -x if h.flag('negative') else x
    v = [x, {u'f': x}, IonPyFloat.from_value(IonType.FLOAT, x, (u'a',))][h.choice('where', range(3))]
    y = simpleion.loads(simpleion.dumps(v, binary=False))
    y = y[u'f'] if isinstance(v, dict) else y
    h.check(y.ion_type is IonType.FLOAT, 'type')
    h.check(h.same_float(x, y), 'value')
    h.reached('end')


def datetime_roundtrip(h, kind, binary=False, micro=True):
    """A plain datetime: written with its microseconds."""
    from harness.binary_scalars import assume_date
    year, month, day = h.int('year', 1, 9999), h.int('month', 1, 12), h.int('day', 1, 31)
    assume_date(h, year, month, day)
    us = h.int('us', 0, 999999) if micro else 120000
    off = None
    tz = None
    if kind == 'zero':
        off, tz = 0, OffsetTZInfo()
    elif kind == 'any':
        off = h.int('off', -1439, 1439)
        tz = OffsetTZInfo(timedelta(minutes=off))
    elif kind == 'stdlib':
        off = h.choice('off', [-1439, -61, -1, 0, 330, 1439])
        tz = timezone(timedelta(minutes=off))
    v = datetime(year, month, day, h.int('hour', 0, 23), h.int('minute', 0, 59), h.int('second', 0, 59), us, tz)
    try:
        data = simpleion.dumps(v, binary=binary)
    except OverflowError:
        h.check(h.any([year == 1, year == 9999]), 'overflow away from the ends of the calendar')
        return
    h.observe('data', data)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.TIMESTAMP, 'type')
    h.check(y.precision == TimestampPrecision.SECOND, 'precision')
    h.check_each([y.microsecond == us, y.second == v.second, y.minute == v.minute, y.hour == v.hour, y.day == v.day,
                  y.month == v.month, y.year == v.year], 'fields')
    if off is None:
        h.check(y.tzinfo is None, 'offset')
    else:
        h.check(y.utcoffset() == timedelta(minutes=off), 'offset')
    s, c, e = h.dec_parts(y.fractional_seconds)
    h.check(h.all([s == 0, c == us, e == -6]), 'fraction')
    h.reached('end')


def nonfinite_decimal(h):
    """A decimal without a finite value has no Ion form: refused by both writers."""
    from decimal import Decimal
    x = Decimal(h.choice('x', ['NaN', '-NaN', 'sNaN', 'NaN12', 'Infinity', '-Infinity']))
    v = [x] if h.flag('inside') else x
    try:
        simpleion.dumps(v, binary=h.flag('binary'))
    except Exception:
        h.reached('end')
        return
    h.fail('written')
