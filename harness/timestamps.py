"""Timestamp construction: microseconds, fraction and fractional precision describe one number."""
from datetime import timedelta, datetime
from decimal import Decimal
from amazon.ion.core import Timestamp, TimestampPrecision, OffsetTZInfo, timestamp

from harness.binary_scalars import set_context, assume_date

ABSENT = 'absent'


def build(how, micro, tz, kw):
    """The three ways to pass microseconds."""
    if micro is ABSENT:
        if how == 'function':
            return timestamp(2007, 2, 23, 12, 14, 33, precision=TimestampPrecision.SECOND, **kw)
        return Timestamp(2007, 2, 23, 12, 14, 33, tzinfo=tz, precision=TimestampPrecision.SECOND, **kw)
    if how == 'positional':
        return Timestamp(2007, 2, 23, 12, 14, 33, micro, tz, precision=TimestampPrecision.SECOND, **kw)
    if how == 'keyword':
        return Timestamp(2007, 2, 23, 12, 14, 33, microsecond=micro, tzinfo=tz, precision=TimestampPrecision.SECOND,
                         **kw)
    return timestamp(2007, 2, 23, 12, 14, 33, micro, precision=TimestampPrecision.SECOND, **kw)


def intact(h, t):
    h.check(h.all([t.year == 2007, t.month == 2, t.day == 23, t.hour == 12, t.minute == 14, t.second == 33]), 'fields')
    h.check(t.precision is TimestampPrecision.SECOND, 'precision')


def micros(h, context=None, lengths=(1, 2, 3, 4, 5, 6, 7)):
    """From microseconds, with or without a fractional precision."""
    set_context(context)
    how = h.choice('how', ['positional', 'keyword', 'function'])
    m = h.choice('which', ['number', None, ABSENT])
    if m == 'number':
        m = h.digits('micro', h.choice('len', lengths))
        digits = str(m)
        if h.flag('negative'):
            m = -m
    kw = {}
    p = h.choice('precision', ['number', None, ABSENT])
    if p == 'number':
        p = h.choice('fp', [-1, 0, 1, 2, 3, 4, 5, 6, 7])
        kw['fractional_precision'] = p
    elif p is None:
        kw['fractional_precision'] = None
    if h.flag('fraction None'):
        kw['fractional_seconds'] = None
    has_m = m is not None and m is not ABSENT
    has_p = p is not None and p is not ABSENT
    wrong = False
    if has_p and (p < 0 or p > 6 or not has_m):
        wrong = True
    elif has_m:
        k = 6 - (p if has_p else 6)
        dropped = digits[len(digits) - k:] if k < len(digits) else digits
        wrong = h.any([m < 0, m > 999999] + ([c != u'0' for c in dropped] if k else []))
    try:
        t = build(how, m, None, kw)
    except ValueError:
        h.check(wrong, 'refused')
        h.reached('refused')
        return
    h.check(h.eq(wrong, False), 'accepted')
    intact(h, t)
    value = m if has_m else 0
    places = (p if has_p else 6) if has_m else 0
    h.observe('fraction', h.dec_parts(t.fractional_seconds))
    h.check(t.microsecond == value, 'microsecond')
    h.check(t.fractional_precision == places, 'fractional precision')
    s, c, e = h.dec_parts(t.fractional_seconds)
    h.check(h.all([s == 0, e == -places]), 'fractional seconds')
    if c == 0:
        h.check(value == 0, 'fractional seconds')
    else:
        h.check(str(c) + u'0' * (6 - places) == (digits if has_m else u'0'), 'fractional seconds')
    h.reached('end')


def fraction(h, digits, exp, context=None, top=2):
    """From fractional seconds."""
    set_context(context)
    how = h.choice('how', ['positional', 'keyword', 'function'])
    m = h.choice('which', [None, ABSENT, 'number'])
    if m == 'number':
        m = h.int('micro', 0, 999999)
    kw = {}
    p = h.choice('precision', [None, ABSENT, 'number'])
    if p == 'number':
        p = h.choice('fp', [0, 3, 6])
        kw['fractional_precision'] = p
    elif p is None:
        kw['fractional_precision'] = None
    sign = h.choice('sign', [0, 1])
    c = h.digits('coef', h.choice('coef_len', range(1, digits + 1)))
    e = h.int('exp', -exp, top)
    d = h.decimal(sign, c, e)
    kw['fractional_seconds'] = d
    has_m = m is not None and m is not ABSENT
    has_p = p is not None and p is not ABSENT
    # d in [0, 1): zero, or positive and below one
    e = int(e)
    inside = h.any([c == 0, h.all([sign == 0, c < 10 ** -e]) if e <= 0 else False])
    try:
        t = build(how, m, None, kw)
    except ValueError:
        h.check(h.any([has_m, has_p, h.eq(inside, False)]), 'refused')
        h.reached('refused')
        return
    h.check(not has_m and not has_p, 'accepted')
    h.check(inside, 'accepted')
    intact(h, t)
    h.observe('fraction', h.dec_parts(t.fractional_seconds))
    s2, c2, e2 = h.dec_parts(t.fractional_seconds)
    e = min(e, 0)
    h.check(h.all([c2 == c, e2 == e]), 'fractional seconds')
    h.check(t.fractional_precision == min(-e, 6), 'fractional precision')
    h.check(t.microsecond == (c * 10 ** (6 + e) if e >= -6 else c // 10 ** (-6 - e)), 'microsecond')
    h.reached('end')


def offsets(h):
    """timestamp() combines hours and minutes of the offset."""
    hours = h.choice('which hours', ['number', None])
    if hours == 'number':
        hours = h.int('hours', -26, 26)
    minutes = h.choice('which minutes', ['number', None])
    if minutes == 'number':
        minutes = h.int('minutes', -62, 62)
    wrong = h.any([h.any([hours < -23, hours > 23]) if hours is not None else False,
                   h.any([minutes < -59, minutes > 59]) if minutes is not None else False])
    try:
        t = timestamp(2007, 2, 23, 12, 14, 33, off_hours=hours, off_minutes=minutes,
                      precision=TimestampPrecision.SECOND)
    except ValueError:
        h.check(wrong, 'refused')
        h.reached('refused')
        return
    h.check(h.eq(wrong, False), 'accepted')
    intact(h, t)
    h.check(t.microsecond == 0 and t.fractional_precision == 0, 'no fraction')
    if hours is None and minutes is None:
        h.check(t.utcoffset() is None, 'unknown offset')
    else:
        total = (hours if hours is not None else 0) * 60 + (minutes if minutes is not None else 0)
        h.check(t.utcoffset() == timedelta(minutes=total), 'offset')
    h.reached('end')


def offset_info(h):
    """OffsetTZInfo takes any offset below 24 hours."""
    seconds = h.int('minutes', -1500, 1500)
    try:
        z = OffsetTZInfo(timedelta(minutes=seconds))
    except ValueError:
        h.check(h.any([seconds <= -1440, seconds >= 1440]), 'refused')
        h.reached('refused')
        return
    h.check(h.all([seconds > -1440, seconds < 1440]), 'accepted')
    h.check(z.utcoffset(None) == timedelta(minutes=seconds), 'offset')
    h.reached('end')


def adjusted(h, precision, digits=0, exp=0):
    """adjust_from_utc_fields keeps instant, offset, precision and fraction."""
    p = list(TimestampPrecision)[precision]
    y, mo, d = h.int('year', 2, 9998), h.int('month', 1, 12), h.int('day', 1, 31)
    assume_date(h, y, mo, d)
    hh, mi = h.int('hour', 0, 23), h.int('minute', 0, 59)
    s = h.int('second', 0, 59) if precision == 4 else 0
    off = h.int('off', -1439, 1439)
    c = h.digits('frac', digits) if digits else 0
    frac = h.decimal(0, c, -exp) if digits else None
    t = Timestamp.adjust_from_utc_fields(y, mo, d, hh, mi, s, None, OffsetTZInfo(timedelta(minutes=off)),
                                         precision=p, fractional_precision=None, fractional_seconds=frac)
    h.check(isinstance(t, Timestamp), 'type')
    h.check(t.precision is p, 'precision')
    h.check(t.utcoffset() == timedelta(minutes=off), 'offset')
    if frac is not None:
        h.check(h.eq(h.dec_parts(t.fractional_seconds), h.dec_parts(frac)), 'fraction')
        h.check(t.microsecond == (c * 10 ** (6 - exp) if exp <= 6 else c // 10 ** (exp - 6)), 'microsecond')
    else:
        h.check(t.microsecond == 0, 'fraction')
    back = datetime(t.year, t.month, t.day, t.hour, t.minute, t.second)
    h.check(back == datetime(y, mo, d, hh, mi, s) + timedelta(minutes=off), 'instant')
    h.reached('end')
