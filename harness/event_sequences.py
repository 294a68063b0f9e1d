"""Any sequence of events: a writer accepts it and writes just that, or refuses it."""
from datetime import datetime
from decimal import Decimal

from amazon.ion.core import IonEvent, IonEventType, IonType, ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.reader import NEXT_EVENT, read_data_event
from amazon.ion.reader_binary import raw_reader as binary_raw_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import reader as text_raw_reader
from amazon.ion.symbols import SymbolToken
from amazon.ion.writer import WriteEventType
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_binary_raw import _raw_binary_writer
from amazon.ion.writer_buffer import BufferTree
from amazon.ion.writer_text import raw_writer as text_writer

from harness.events import flat
from harness.streaming import DOCS, content, feed, make, same_events

IVM = b'\xe0\x01\x00\xea'
CONTAINERS = {'list': IonType.LIST, 'sexp': IonType.SEXP, 'struct': IonType.STRUCT}


def make_writer(kind, indent=None):
    if kind == 'text':
        return text_writer(indent)
    if kind == 'raw':
        return _raw_binary_writer(BufferTree())
    return binary_writer()


def send(w, event):
    """Output for the event, last answer, and the exception."""
    out = b''
    try:
        while True:
            r = w.send(event)
            out = out + r.data
            if r.type is not WriteEventType.HAS_PENDING:
                return out, r.type, None
            event = None
    except Exception as e:
        return out, None, e


def read(kind, data):
    if len(data) == 0:
        return [], 'end'
    if kind == 'text':
        return feed(text_raw_reader(is_unicode=False), [data])
    if kind == 'raw':
        return feed(binary_raw_reader(), [IVM + data])
    return feed(managed_reader(binary_raw_reader(), None), [data])


def check_read(h, kind, data, want, label):
    got, how = read(kind, data)
    h.check(how == 'end', label + ': readable')
    if kind != 'text':
        # where the binary version markers go is the writer's business
        got = [e for e in got if e[0] is not IonEventType.VERSION_MARKER]
        want = [e for e in want if e[0] is not IonEventType.VERSION_MARKER]
    h.check(len(got) == len(want), label + ': number of events')
    for i in range(len(want)):
        g, w = got[i], want[i]
        h.check(g[0] is w[0], label + ': kind of event')
        if w[0] is IonEventType.VERSION_MARKER:
            continue
        h.check(g[1] is w[1], label + ': type')
        h.check(g[5] == w[5], label + ': depth')
        if w[0] is IonEventType.CONTAINER_END:
            continue
        h.check(same(g[2], w[2]), label + ': value')
        h.check(same(g[3], w[3]), label + ': field name')
        h.check(len(g[4]) == len(w[4]), label + ': number of annotations')
        for j in range(len(w[4])):
            h.check(same(g[4][j], w[4][j]), label + ': annotation')


def same(got, want):
    """want: a value, or ('sid', n), or ('text', s)"""
    if isinstance(want, tuple):
        return isinstance(got, SymbolToken) and (got.sid if want[0] == 'sid' else got.text) == want[1]
    if want is None:
        return got is None
    return not isinstance(got, SymbolToken) and got == want


class Names(object):
    """Symbols as the kind of writer takes them."""
    def __init__(self, h, kind, wide):
        self.h, self.kind, self.wide = h, kind, wide

    def make(self, name):
        h = self.h
        if self.kind == 'raw':
            n = h.int(name, 1, 300 if self.wide else 127)
            return SymbolToken(None, n), ('sid', n)
        if not self.wide:
            s = h.str(name, 1, 0x61, 0x68)
            return s, ('text', s)
        s = h.str(name, 1, 0, 0x7f)
        return s if h.flag(name + ' plain') else SymbolToken(s, None), ('text', s)


def sequence(h, kind, ops, names=(True,), anns=(0,), indent=None, wide=False, ends=True):
    """ops: at each step, the possible events; names: whether there is a field name; anns: how many annotations.
    ends: whether events have a depth, and CONTAINER_END ones the type of the container."""
    w = make_writer(kind, indent)
    names_of = Names(h, kind, wide)
    stack, want, data, pending = [], [], b'', False
    for i in range(len(ops)):
        op = ops[i]
        if not isinstance(op, str):
            op = h.choice('op%d' % i, op)
        legal, either = True, False
        if op == 'end':
            legal = len(stack) > 0
            t = stack.pop() if stack else IonType.LIST
            event = IonEvent(IonEventType.CONTAINER_END, t if ends else None, depth=len(stack) if ends else None)
            expected = (IonEventType.CONTAINER_END, t, None, None, (), len(stack))
        elif op == 'stream end':
            legal = len(stack) == 0
            event, expected = ION_STREAM_END_EVENT, None
        elif op == 'ivm':
            legal = len(stack) == 0
            either = kind == 'raw' or (kind == 'binary' and pending)
            event, expected = ION_VERSION_MARKER_EVENT, (IonEventType.VERSION_MARKER,)
        elif op == 'incomplete':
            legal = False
            event, expected = IonEvent(IonEventType.INCOMPLETE), None
        elif op == 'bad start':
            legal = False
            event, expected = IonEvent(IonEventType.CONTAINER_START, IonType.INT, depth=len(stack)), None
        else:
            named = h.choice('named%d' % i, names)
            in_struct = len(stack) > 0 and stack[-1] is IonType.STRUCT
            legal = named or not in_struct
            token, text = names_of.make('f%d' % i) if named else (None, None)
            tokens, texts = [], []
            for j in range(h.choice('anns%d' % i, anns)):
                x, y = names_of.make('a%d_%d' % (i, j))
                tokens.append(x)
                texts.append(y)
            value, expect, how = None, None, IonEventType.SCALAR
            if op in CONTAINERS:
                t, how = CONTAINERS[op], IonEventType.CONTAINER_START
            elif op == 'int':
                t, value = IonType.INT, h.int('v%d' % i, 0, 9)
                expect = value
            elif op == 'symbol':
                t = IonType.SYMBOL
                value, expect = names_of.make('v%d' % i)
            elif op == 'string':
                t, value = IonType.STRING, h.str('v%d' % i, 1)
                expect = value
            elif op == 'null struct':
                t = IonType.STRUCT
            elif op == 'bad list':
                t, value, legal = IonType.LIST, [], False
            else:
                t = IonType.NULL
            event = IonEvent(how, t, value, token, tuple(tokens), depth=len(stack) if ends else None)
            expected = (how, t, expect, text if in_struct else None, texts, len(stack))
            if how is IonEventType.CONTAINER_START:
                stack.append(t)
        out, answer, exc = send(w, event)
        data = data + out
        if not legal:
            h.reached('refused')
            h.check(exc is not None, 'refused')
            return
        if exc is not None and either:
            h.stop()
        h.check(exc is None, 'accepted')
        if expected is not None:
            want.append(expected)
        pending = op not in ('stream end', 'ivm') or (pending and op != 'stream end')
        if stack:
            h.check(answer is WriteEventType.NEEDS_INPUT, 'NEEDS_INPUT inside a container')
        elif kind == 'text' and op != 'ivm':
            h.check(answer is WriteEventType.COMPLETE, 'COMPLETE after a value')
        if answer is WriteEventType.COMPLETE and op != 'ivm':
            h.observe('data', data)
            check_read(h, kind, data, want, 'complete')
        if op == 'stream end':
            h.check(answer is WriteEventType.COMPLETE, 'complete after STREAM_END')
    if stack:
        return
    out, answer, exc = send(w, ION_STREAM_END_EVENT)
    data = data + out
    h.check(exc is None and answer is WriteEventType.COMPLETE, 'ended')
    h.observe('data', data)
    check_read(h, kind, data, want, 'end')
    h.reached('end')


WRONG = [1, 1.5, Decimal(1), u'a', b'a', [], (1,), {u'a': 1}, datetime(2000, 1, 1), SymbolToken(u'a', None), object()]
RIGHT = {
    IonType.BOOL: (bool, int), IonType.INT: int, IonType.FLOAT: float, IonType.DECIMAL: Decimal,
    IonType.TIMESTAMP: datetime, IonType.SYMBOL: (str, SymbolToken), IonType.STRING: str,
    IonType.CLOB: (bytes, bytearray), IonType.BLOB: (bytes, bytearray), IonType.NULL: (), IonType.LIST: (),
    IonType.SEXP: (), IonType.STRUCT: (),
}


def wrong_values(h, kind):
    """A scalar event whose value is not of the event's type."""
    types = sorted(RIGHT)
    t = types[h.choice('type', range(len(types)))]
    v = WRONG[h.choice('value', range(len(WRONG)))]
    h.assume(not isinstance(v, RIGHT[t]))
    if isinstance(v, int):
        v = h.int('number', -(2 ** 70), 2 ** 70)
    inside = h.choice('inside', ['', 'list', 'struct'])
    w = make_writer(kind)
    if inside:
        out, answer, exc = send(w, IonEvent(IonEventType.CONTAINER_START, CONTAINERS[inside], depth=0))
        h.check(exc is None, 'container')
    name = None
    if inside == 'struct':
        name = SymbolToken(None, 10) if kind == 'raw' else u'x'
    out, answer, exc = send(w, IonEvent(IonEventType.SCALAR, t, v, name, depth=1 if inside else 0))
    h.check(exc is not None, 'refused')
    h.reached('refused')


def protocol(h, kind):
    """None is for a writer with pending output only, and then nothing else is."""
    w = make_writer(kind)
    if h.flag('first'):
        r = None
    else:
        r = w.send(IonEvent(IonEventType.CONTAINER_START, IonType.LIST, annotations=(SymbolToken(u'x', 10),), depth=0))
        for i in range(h.choice('steps', range(3))):
            if r.type is WriteEventType.HAS_PENDING:
                r = w.send(None)
    waiting = r is not None and r.type is WriteEventType.HAS_PENDING
    event = None if h.flag('none') else IonEvent(IonEventType.SCALAR, IonType.INT, h.int('x', 0, 99), depth=1)
    try:
        w.send(event)
        ok = True
    except TypeError:
        ok = False
    h.check(ok == ((event is None) == waiting), 'None when there is pending output, an event when there is none')
    h.reached('end')


def copy(h, source, doc, kind, indent=None):
    """The events of a document, given to a writer, are those of its output."""
    data = content(h, DOCS[doc] if isinstance(doc, str) else doc, source)
    r = make(source, True)
    events = []
    try:
        e = r.send(NEXT_EVENT)
        h.assume(e.event_type is IonEventType.STREAM_END)
        e = r.send(read_data_event(data))
        flushed = False
        while e.event_type is not IonEventType.STREAM_END:
            if e.event_type is IonEventType.INCOMPLETE:
                if flushed:
                    h.stop()
                flushed = True
            else:
                e.value
                events.append(e)
            e = r.send(NEXT_EVENT)
    except Exception:
        h.stop()
    w = make_writer(kind, indent)
    out = b''
    for e in events + [ION_STREAM_END_EVENT]:
        if e.event_type is IonEventType.VERSION_MARKER:
            continue
        o, answer, exc = send(w, e)
        h.check(exc is None, 'accepted')
        out = out + o
    got, how = feed(make(kind if kind == 'binary' else 'bytes', True), [out] if len(out) else [])
    h.check(how == 'end', 'readable')
    a = [flat(e) for e in events if e.event_type is not IonEventType.VERSION_MARKER]
    b = [e for e in got if e[0] is not IonEventType.VERSION_MARKER]
    h.check(len(a) == len(b), 'number of events')
    for i in range(len(a)):
        x, y = a[i], b[i]
        h.check(x[0] is y[0], 'kind of event')
        h.check(x[1] is y[1], 'type')
        h.check(x[5] == y[5], 'depth')
        h.check(same_value(h, x[2], y[2]), 'value')
        h.check(same_value(h, x[3], y[3]), 'field name')
        h.check(len(x[4]) == len(y[4]), 'number of annotations')
        for j in range(len(x[4])):
            h.check(same_value(h, x[4][j], y[4][j]), 'annotation')
    h.reached('end')


def same_value(h, x, y):
    if isinstance(x, SymbolToken) or isinstance(y, SymbolToken):
        if not (isinstance(x, SymbolToken) and isinstance(y, SymbolToken)):
            return False
        return x.text == y.text
    if isinstance(x, float) and isinstance(y, float):
        return h.same_float(x, y)
    if isinstance(x, Decimal) and isinstance(y, Decimal):
        a, b = x.as_tuple(), y.as_tuple()
        return h.all([x == y, a.exponent == b.exponent, a.sign == b.sign])
    if isinstance(x, datetime) and isinstance(y, datetime):
        if not x.precision.includes_minute:     # without a time there is no offset in text
            return h.all([x.precision is y.precision, x.year == y.year, x.month == y.month, x.day == y.day])
        return h.all([x == y, x.precision is y.precision, x.fractional_seconds == y.fractional_seconds])
    return x == y
