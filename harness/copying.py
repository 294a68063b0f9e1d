"""What was read is written and read back the same."""
from io import BytesIO

from amazon.ion import simpleion
from amazon.ion.core import IonEvent, IonType, ION_STREAM_END_EVENT
from amazon.ion.simple_types import IonPyNull
from amazon.ion.writer import blocking_writer
from amazon.ion.writer_text import raw_writer
from harness import streaming

FORMATS = ['binary', 'text', 'indented']


def token(h, x, y):
    if x.text is None:
        h.check(y.text is None and y.sid == x.sid, 'unknown symbol')
    else:
        h.check(y.text is not None, 'symbol')
        h.check(x.text == y.text, 'symbol')


def same(h, x, y):
    typ = x.ion_type
    h.check(y.ion_type is typ, 'type')
    h.check(len(x.ion_annotations) == len(y.ion_annotations), 'annotations')
    for a, b in zip(x.ion_annotations, y.ion_annotations):
        token(h, a, b)
    h.check(isinstance(x, IonPyNull) == isinstance(y, IonPyNull), 'null')
    if isinstance(x, IonPyNull):
        return
    if typ is IonType.LIST or typ is IonType.SEXP:
        h.check(len(x) == len(y), 'elements')
        for i in range(len(x)):
            same(h, x[i], y[i])
    elif typ is IonType.STRUCT:
        xs, ys = list(x.items()), list(y.items())
        h.check(len(xs) == len(ys), 'fields')
        for (j, a), (k, b) in zip(xs, ys):
            h.check(j == k, 'field name')
            same(h, a, b)
    elif typ is IonType.SYMBOL:
        token(h, x, y)
    elif typ is IonType.FLOAT:
        h.check(h.same_float(x, y), 'float')
    elif typ is IonType.DECIMAL:
        (s, c, e), (s2, c2, e2) = h.dec_parts(x), h.dec_parts(y)
        h.check(h.all([s == s2, c == c2, e == e2]), 'decimal')
    elif typ is IonType.TIMESTAMP:
        h.check(x.precision is y.precision, 'precision')
        if x.precision.includes_minute:
            h.check((x.tzinfo is None) == (y.tzinfo is None), 'offset')
            if x.tzinfo is not None:
                h.check(x.utcoffset() == y.utcoffset(), 'offset')
        h.check(h.all([x.year == y.year, x.month == y.month, x.day == y.day, x.hour == y.hour, x.minute == y.minute,
                       x.second == y.second, x.microsecond == y.microsecond]), 'time')
        if x.precision.includes_second:
            (_, c, e), (_, c2, e2) = h.dec_parts(x.fractional_seconds), h.dec_parts(y.fractional_seconds)
            h.check(h.all([c == c2, e == e2]), 'fraction')
    else:
        h.check(x == y, 'value')


def any_value(values, test):
    """Whether test holds of one of the values or of what they hold."""
    for x in values:
        if test(x):
            return True
        if isinstance(x, IonPyNull):
            continue
        if x.ion_type is IonType.STRUCT and any_value([v for _, v in x.items()], test):
            return True
        if (x.ion_type is IonType.LIST or x.ion_type is IonType.SEXP) and any_value(x, test):
            return True
    return False


def unwritable(x):
    """A decimal beyond the greatest exponent, or a symbol of unknown text which is not $0.
    """
    if any(a.text is None and a.sid != 0 for a in x.ion_annotations):
        return True
    if isinstance(x, IonPyNull):
        return False
    if x.ion_type is IonType.SYMBOL:
        return x.text is None and x.sid != 0
    return x.ion_type is IonType.DECIMAL and not -10 ** 18 < x.as_tuple()[2] < 10 ** 18


def short_date_with_offset(x):
    """A timestamp without time but with an offset, which text cannot say."""
    return x.ion_type is IonType.TIMESTAMP and not isinstance(x, IonPyNull) and not x.precision.includes_minute \
        and x.tzinfo is not None


def write(values, how):
    out = BytesIO()
    simpleion.dump(values, out, binary=how == 'binary', indent='  ' if how == 'indented' else None,
                   sequence_as_stream=True)
    return out.getvalue()


def edited(h, kind, doc, replace=1, n=1, formats=FORMATS, twice=False):
    """An edited document that is read without error; written in any format it means the same."""
    data, at = streaming.edited(h, kind, doc, replace, n)
    try:
        values = simpleion.loads(data, single_value=False)
    except Exception:
        h.stop()
    if any_value(values, unwritable):
        h.stop()
    how = h.choice('format', formats)
    if how != 'binary' and any_value(values, short_date_with_offset):
        h.stop()
    written = write(values, how)
    h.observe('count', len(values))
    again = simpleion.loads(written, single_value=False)
    h.check(len(again) == len(values), 'values')
    for x, y in zip(values, again):
        same(h, x, y)
    if twice:
        h.check(write(again, how) == written, 'written differently')
    h.reached('end')


def events(h, kind, doc, replace=1, n=1, formats=('text', 'indented')):
    """The events of an edited document, as the raw reader gives them, given to a raw text writer and read again."""
    data, at = streaming.edited(h, kind, doc, replace, n)
    sent, how = streaming.feed(streaming.make(kind, False), [data])
    h.assume(how == 'end')
    out = BytesIO()
    indent = '\t' if h.choice('format', formats) == 'indented' else None
    writer = blocking_writer(raw_writer(indent=indent), out)
    for typ, ion_type, value, name, annotations, depth in sent:
        if kind == 'binary' and ion_type is IonType.TIMESTAMP and value is not None and value.tzinfo is not None \
                and not value.precision.includes_minute:
            h.stop()
        writer.send(IonEvent(typ, ion_type, value, name, annotations, depth))
    writer.send(ION_STREAM_END_EVENT)
    again, how = streaming.feed(streaming.make('bytes', False), [out.getvalue()] if sent else [])
    h.check(how == 'end', 'end of input')
    streaming.same_events(h, sent, again, 'copied')
    h.reached('end')
