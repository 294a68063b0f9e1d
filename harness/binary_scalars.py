"""Binary encoding: scalars survive dumps/loads."""
from decimal import getcontext, ROUND_UP, Inexact, Rounded
from amazon.ion import simpleion
from amazon.ion.core import IonType


def int_roundtrip(h, bits, base=0):
    x = h.int('x', -(1 << bits) + 1, (1 << bits) - 1)
    if base:
        x = h.choice('sign', [1, -1]) * (base + x)
    data = simpleion.dumps(x, binary=True)
    h.observe('data', data)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.INT, 'type')
    h.check(isinstance(y, int), 'python type')
    h.check(y == x, 'value')
    # the shortest encoding
    h.check(h.all([data[0] == 0xe0, data[1] == 1, data[2] == 0, data[3] == 0xea]), 'version marker')
    t = data[4]
    n = len(data) - 5
    if n == 0:
        h.check(h.all([t == 0x20, x == 0]), 'zero')
    else:
        h.check(t >> 4 == h.ite(x < 0, 3, 2), 'type octet')
        if n < 14:
            h.check((t & 15) == n, 'length')
            h.check(data[5] != 0, 'leading zero octet')
        else:
            h.check((t & 15) == 14, 'length')
            size = 0
            i = 5
            while True:
                size = (size << 7) | (data[i] & 0x7f)
                i += 1
                if data[i - 1] & 0x80:
                    break
            h.check(size == len(data) - i, 'length')
            h.check(size >= 14, 'length')
            h.check(i - 5 == (1 if size < 128 else 2 if size < 1 << 14 else 3), 'length')
            h.check(data[i] != 0, 'leading zero octet')
    h.reached('end')


def set_context(kind):
    """Decimal contexts a program may have in force."""
    c = getcontext()
    if kind == 'small':
        c.prec, c.Emax, c.Emin = 2, 3, -3
    elif kind == 'up':
        c.prec, c.rounding = 5, ROUND_UP
    elif kind == 'traps':
        c.prec = 3
        c.traps[Inexact] = True
        c.traps[Rounded] = True


def decimal_roundtrip(h, digits, exp, context=None, base=0):
    set_context(context)
    sign = h.choice('sign', [0, 1])
    coef = base + h.int('coef', 0, 10 ** digits - 1)
    e = h.int('exp', -exp, exp)
    d = h.decimal(sign, coef, e)
    data = simpleion.dumps(d, binary=True)
    y = simpleion.loads(data)
    h.observe('parts', h.dec_parts(y))
    h.check(y.ion_type is IonType.DECIMAL, 'type')
    s2, c2, e2 = h.dec_parts(y)
    h.check(h.all([s2 == sign, c2 == coef, e2 == e]), 'value')
    h.reached('end')


def float_roundtrip(h):
    x = h.float('x')
    data = simpleion.dumps(x, binary=True)
    h.observe('data', data)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.FLOAT, 'type')
    h.check(h.same_float(x, y), 'value')
    h.reached('end')


from amazon.ion.core import Timestamp, TimestampPrecision, OffsetTZInfo, timestamp
from datetime import timedelta, datetime


_PRECISIONS = [TimestampPrecision.YEAR, TimestampPrecision.MONTH, TimestampPrecision.DAY,
               TimestampPrecision.MINUTE, TimestampPrecision.SECOND]


def assume_date(h, y, m, d):
    short = h.any([m == 4, m == 6, m == 9, m == 11])
    leap = h.all([y % 4 == 0, h.any([y % 25 != 0, y % 16 == 0])])
    h.assume(h.all([h.implies(short, d <= 30), h.implies(m == 2, d <= 29), h.implies(h.all([m == 2, d == 29]), leap)]))


def make_timestamp(h, precision, offset_kind, fraction_digits=None):
    """A Timestamp of the given precision; offset_kind: none|zero|any."""
    year = h.int('year', 1, 9999)
    month = h.int('month', 1, 12) if precision >= 1 else 1
    day = h.int('day', 1, 31) if precision >= 2 else 1
    assume_date(h, year, month, day)
    hour = h.int('hour', 0, 23) if precision >= 3 else 0
    minute = h.int('minute', 0, 59) if precision >= 3 else 0
    second = h.int('second', 0, 59) if precision >= 4 else 0
    tz = None
    off = None
    if offset_kind != 'none':
        off = 0 if offset_kind == 'zero' else h.int('off', -1439, 1439)
        tz = OffsetTZInfo(timedelta(minutes=off))
    frac = None
    if fraction_digits is not None:
        c = h.digits('frac', h.choice('frac_len', range(1, fraction_digits + 1)))
        frac = h.decimal(0, c, -fraction_digits)
    t = Timestamp(year, month, day, hour, minute, second, None, tz,
                  precision=_PRECISIONS[precision], fractional_precision=None, fractional_seconds=frac)
    return t, off


def timestamp_roundtrip(h, precision, offset_kind, fraction_digits=None):
    t, off = make_timestamp(h, precision, offset_kind, fraction_digits)
    # offset known: the instant must be representable in UTC
    try:
        data = simpleion.dumps(t, binary=True)
    except OverflowError:
        h.check(h.any([t.year == 1, t.year == 9999]), 'overflow away from the ends of the calendar')
        return
    h.observe('data', data)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.TIMESTAMP, 'type')
    h.check(y.precision == t.precision, 'precision')
    h.check_each([y.second == t.second, y.microsecond == t.microsecond, y.minute == t.minute, y.hour == t.hour,
                  y.day == t.day, y.month == t.month, y.year == t.year], 'fields')
    if off is None:
        h.check(y.tzinfo is None, 'offset')
    else:
        h.check(y.utcoffset() == t.utcoffset(), 'offset')
    h.check(h.eq(h.dec_parts(y.fractional_seconds), h.dec_parts(t.fractional_seconds)), 'fraction')
    h.reached('end')
