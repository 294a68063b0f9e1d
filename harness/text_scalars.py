"""Text encoding: scalars survive dumps/loads."""
from amazon.ion import simpleion
from amazon.ion.core import IonType
from harness.binary_scalars import make_timestamp


def int_roundtrip(h, digits):
    x = h.digits('x', digits)
    if h.flag('neg'):
        x = -x
    data = simpleion.dumps(x, binary=False)
    y = simpleion.loads(data)
    h.observe('data', data)
    h.check(y.ion_type is IonType.INT, 'type')
    h.check(y == x, 'value')
    h.reached('end')


def decimal_roundtrip(h, digits, exp):
    sign = h.choice('sign', [0, 1])
    coef = h.digits('coef', digits)
    e = h.int('exp', -exp, exp)
    d = h.decimal(sign, coef, e)
    data = simpleion.dumps(d, binary=False)
    h.observe('data', data)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.DECIMAL, 'type')
    s2, c2, e2 = h.dec_parts(y)
    h.check(h.all([s2 == sign, c2 == coef, e2 == e]), 'value')
    h.reached('end')


def timestamp_roundtrip(h, precision, offset_kind, fraction_digits=None):
    t, off = make_timestamp(h, precision, offset_kind, fraction_digits)
    data = simpleion.dumps(t, binary=False)
    h.observe('data', data)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.TIMESTAMP, 'type')
    h.check(y.precision == t.precision, 'precision')
    h.check_each([y.second == t.second, y.microsecond == t.microsecond, y.minute == t.minute, y.hour == t.hour,
                  y.day == t.day, y.month == t.month, y.year == t.year], 'fields')
    if off is None:
        h.check(y.tzinfo is None, 'offset')
    else:
        h.check(y.utcoffset() == t.utcoffset(), 'offset')
    h.check(h.eq(h.dec_parts(y.fractional_seconds), h.dec_parts(t.fractional_seconds)), 'fraction')
    h.reached('end')
