"""Ion-typed Python values: from_value, from_event, to_event, copies."""
import copy
import pickle
from collections import OrderedDict
from datetime import datetime, timedelta
from decimal import Decimal
from amazon.ion.core import IonType, IonEvent, IonEventType, Timestamp, TimestampPrecision, OffsetTZInfo, Multimap
from amazon.ion.simple_types import (IonPyInt, IonPyBool, IonPyFloat, IonPyDecimal, IonPyText, IonPyBytes,
                                     IonPySymbol, IonPyTimestamp, IonPyNull, IonPyList, IonPyDict, is_null)
from amazon.ion.symbols import SymbolToken

from harness.binary_scalars import make_timestamp


class Case(object):
    """A wrapper class, a native value for it, the Ion types it may carry, and how to compare content."""
    def __init__(self, cls, native, types, same):
        self.cls, self.native, self.types, self.same = cls, native, types, same


def make(h, kind):
    if kind == 'int':
        x = h.int('x', -(1 << 70), 1 << 70)
        return Case(IonPyInt, x, [IonType.INT], lambda a, b: a == b)
    if kind == 'bool':
        return Case(IonPyBool, h.choice('x', [False, True]), [IonType.BOOL], lambda a, b: a == b)
    if kind == 'float':
        return Case(IonPyFloat, h.float('x'), [IonType.FLOAT], h.same_float)
    if kind == 'decimal':
        d = h.decimal(h.choice('sign', [0, 1]), h.int('coef', 0, 99999), h.int('exp', -30, 30))
        return Case(IonPyDecimal, d, [IonType.DECIMAL], lambda a, b: h.eq(h.dec_parts(a), h.dec_parts(b)))
    if kind == 'text':
        s = h.str('x', h.choice('n', [0, 1, 3]), surrogates=True)
        return Case(IonPyText, s, [IonType.STRING], lambda a, b: a == b)
    if kind == 'bytes':
        s = h.bytes('x', h.choice('n', [0, 1, 3]))
        return Case(IonPyBytes, s, [IonType.CLOB, IonType.BLOB], lambda a, b: a == b)
    if kind == 'symbol':
        t = h.choice('of', ['text', 'token', 'sid'])
        if t == 'text':
            s = h.str('x', 1)
            return Case(IonPySymbol, s, [IonType.SYMBOL],
                        lambda a, b: (a.text if isinstance(a, SymbolToken) else a) ==
                        (b.text if isinstance(b, SymbolToken) else b))
        s = SymbolToken(h.str('x', 1) if t == 'token' else None, h.int('sid', 0, 300))
        return Case(IonPySymbol, s, [IonType.SYMBOL],
                    lambda a, b: a.text == b.text and a.sid == b.sid and a.location == b.location)
    if kind == 'timestamp' or kind == 'aware' or kind == 'fraction':
        p = h.choice('precision', [0, 1, 2, 3, 4]) if kind == 'timestamp' else 4 if kind == 'fraction' else 3
        t, off = make_timestamp(h, p, 'any' if kind == 'aware' else 'none', 8 if kind == 'fraction' else None)
        return Case(IonPyTimestamp, t, [IonType.TIMESTAMP], lambda a, b: same_time(h, a, b))
    if kind == 'datetime':
        t = datetime(h.int('year', 1, 9999), h.int('month', 1, 12), 5, 6, 7, 8, h.int('micro', 0, 999999))
        return Case(IonPyTimestamp, t, [IonType.TIMESTAMP], lambda a, b: same_time(h, a, b))
    if kind == 'list':
        xs = [h.int('x%d' % i, 0, 9) for i in range(h.choice('n', [0, 1, 2]))]
        return Case(IonPyList, xs, [IonType.LIST, IonType.SEXP], lambda a, b: len(a) == len(b) and same_items(a, b))
    if kind == 'dict':
        d = OrderedDict()
        for i in range(h.choice('n', [0, 1, 2])):
            d[u'abc'[i]] = h.int('x%d' % i, 0, 9)
        return Case(IonPyDict, d, [IonType.STRUCT], same_fields)
    if kind == 'multi':
        d = Multimap()
        for i in range(h.choice('n', [0, 1, 3])):
            d.add_item(h.choice('k%d' % i, [u'a', u'b']), h.int('x%d' % i, 0, 9))
        return Case(IonPyDict, d, [IonType.STRUCT], same_fields)
    raise ValueError(kind)


def same_items(a, b):
    for i in range(len(a)):
        if not a[i] == b[i]:
            return False
    return True


def same_fields(a, b):
    x = [(k, v) for k, v in (a.items())]
    y = [(k, v) for k, v in (b.items())]
    return len(x) == len(y) and same_items(x, y)


def same_time(h, a, b):
    same = [getattr(a, f) == getattr(b, f) for f in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')]
    if (a.tzinfo is None) != (b.tzinfo is None):
        return False
    if a.tzinfo is not None:
        same.append(a.utcoffset() == b.utcoffset())
    if isinstance(a, Timestamp) and isinstance(b, Timestamp):
        same.append(a.precision is b.precision)
        same.append(a.fractional_precision == b.fractional_precision)
        same.append(h.eq(h.dec_parts(a.fractional_seconds), h.dec_parts(b.fractional_seconds)))
    return h.all(same)


def annotations(h):
    n = h.choice('annotations', [0, 1, 2, 4])
    return tuple([h.str('a0', 1), SymbolToken(h.str('a1', 1), None), u'', SymbolToken(None, 0)][:n])


def wrapped(h, kind):
    """from_value, to_event, from_event, copy and deepcopy keep type, annotations and content."""
    c = make(h, kind)
    t = h.choice('type', c.types)
    anns = annotations(h)
    v = c.cls.from_value(t, c.native, anns)
    intact(h, c, v, t, anns, 'from_value')
    # copies
    for name, w in (('copy', copy.copy(v)), ('deepcopy', copy.deepcopy(v)), ('_copy', v._copy()),
                    ('from_value of wrapped', c.cls.from_value(t, v, anns))):
        intact(h, c, w, t, anns, name)
        if kind in ('list', 'dict', 'multi'):
            h.check(w is not v, name + ': same object')
    # events
    in_struct = h.flag('in_struct')
    f = h.choice('field', [None, u'f', u'', SymbolToken(u'g', 12), SymbolToken(u'', None), SymbolToken(None, 0)])
    e = v.to_event(IonEventType.SCALAR, field_name=f, in_struct=in_struct, depth=2)
    h.check(e.event_type is IonEventType.SCALAR, 'event type')
    h.check(e.ion_type is t, 'type of event')
    h.check(e.depth == 2, 'depth')
    check_annotations(h, e.annotations, anns, 'event')
    if t in (IonType.LIST, IonType.SEXP, IonType.STRUCT):
        h.check(e.value is None, 'value of a container event')
    else:
        h.check(c.same(e.value, c.native), 'value of event')
        w = c.cls.from_event(IonEvent(IonEventType.SCALAR, t, c.native, None, anns, 0))
        intact(h, c, w, t, anns, 'from_event')
    if in_struct:
        g = e.field_name
        if f is None:
            h.check(g.text is None and g.sid == 0, 'absent field name')
        else:
            h.check(g.text == (f if not isinstance(f, SymbolToken) else f.text), 'field name')
            h.check(g.sid == (f.sid if isinstance(f, SymbolToken) else None), 'sid of field name')
    else:
        h.check(e.field_name is None, 'no field name')
    h.reached('end')


def check_annotations(h, got, anns, label):
    h.check(len(got) == len(anns), label + ': annotations')
    for i in range(len(anns)):
        h.check(got[i] == anns[i], label + ': annotation')


def intact(h, c, v, t, anns, label):
    h.check(isinstance(v, c.cls), label + ': class')
    h.check(v.ion_type is t, label + ': type')
    check_annotations(h, v.ion_annotations, anns, label)
    h.check(c.same(v, c.native), label + ': content')


def nulls(h):
    t = h.choice('type', list(IonType))
    anns = annotations(h)
    v = h.choice('class', [IonPyNull, IonPyInt, IonPyText, IonPySymbol, IonPyTimestamp, IonPyList, IonPyDict,
                           IonPyDecimal, IonPyFloat, IonPyBytes]).from_value(t, None, anns)
    for w in (v, copy.copy(v), copy.deepcopy(v), v._copy(),
              IonPyNull.from_event(IonEvent(IonEventType.SCALAR, t, None, None, anns, 0))):
        h.check(isinstance(w, IonPyNull), 'class')
        h.check(is_null(w), 'is_null')
        h.check(not w, 'truth')
        h.check(w.ion_type is t, 'type')
        check_annotations(h, w.ion_annotations, anns, 'null')
        e = w.to_event(IonEventType.SCALAR, depth=0)
        h.check(e.value is None and e.ion_type is t and e.field_name is None, 'event')
        check_annotations(h, e.annotations, anns, 'event')
    h.reached('end')


def nested(h, n):
    """deepcopy of containers shares no container, copies share nothing at the top."""
    leaf = IonPyInt.from_value(IonType.INT, h.int('x', 0, 9), (u'a',))
    inner = h.choice('inner', ['list', 'dict'])
    if inner == 'list':
        v = IonPyList.from_value(IonType.SEXP, [leaf], (u'b',))
    else:
        v = IonPyDict.from_value(IonType.STRUCT, {u'k': leaf}, (u'b',))
        v.add_item(u'k', 7)
    outer = h.choice('outer', ['list', 'dict'])
    if outer == 'list':
        o = IonPyList.from_value(IonType.LIST, [v, 1], (u'c',))
        get = lambda z: z[0]
    else:
        o = IonPyDict.from_value(IonType.STRUCT, {u'q': v}, (u'c',))
        get = lambda z: z[u'q']
    how = h.choice('how', ['copy', 'deepcopy'])
    w = copy.deepcopy(o) if how == 'deepcopy' else copy.copy(o)
    h.check(w is not o, 'same object')
    h.check(w.ion_type is o.ion_type and w.ion_annotations[0] == u'c', 'nature of the copy')
    x = get(w)
    h.check(x.ion_type is v.ion_type and x.ion_annotations[0] == u'b', 'nature of the nested copy')
    y = x[0] if inner == 'list' else x.get_all_values(u'k')[0]
    h.check(y == leaf and y.ion_type is IonType.INT and y.ion_annotations[0] == u'a', 'leaf')
    if how == 'deepcopy':
        h.check(x is not v, 'nested object shared')
    # changes to the copy do not show in the original
    before = len(v), len(o)
    if outer == 'list':
        w.append(3)
    else:
        w.add_item(u'q', 3)
    if how == 'deepcopy':
        if inner == 'list':
            x.append(4)
        else:
            x.add_item(u'k', 4)
            h.check(len(x) == 3, 'copy holds all values')
    h.check((len(v), len(o)) == before or (how == 'copy' and len(v) == before[0] and outer == 'dict'), 'aliased')
    h.reached('end')
