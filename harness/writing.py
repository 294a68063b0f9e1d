"""The binary writer's symbol tables: every segment of output is readable on its own."""
from amazon.ion.core import IonEvent, IonEventType, IonType, ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT
from amazon.ion.reader_binary import raw_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.symbols import ImportLocation, SymbolToken, SymbolTableCatalog, shared_symbol_table
from amazon.ion.writer import WriteEventType
from amazon.ion.writer_binary import binary_writer

from harness.streaming import feed

_ELSEWHERE = ImportLocation(u'other', 1)


def send(writer, event):
    """What the writer emits for the event, and the type of its last answer."""
    out = b''
    while True:
        r = writer.send(event)
        out = out + r.data
        if r.type is not WriteEventType.HAS_PENDING:
            return out, r.type
        event = None


def token(h, name, kinds, top):
    """A symbol as text or token, and its text."""
    kind = h.choice(name + '_kind', kinds)
    if kind == 'text':
        s = h.str(name, 1, 0, top)
        return s, s
    if kind == 'token':
        s = h.str(name, 1, 0, top)
        return SymbolToken(s, None), s
    if kind == 'foreign':
        # A token of another table: its identifier means nothing here.
        s = h.str(name, 1, 0, top)
        return SymbolToken(s, h.choice(name + '_sid', [0, 4, 10, 99])), s
    if kind == 'elsewhere':
        s = h.str(name, 1, 0, top)
        return SymbolToken(s, h.choice(name + '_sid', [4, 10]), _ELSEWHERE), s
    if kind == 'system':
        return u'name', u'name'
    if kind == 'imported':
        return u'i1', u'i1'
    if kind == 'zero':
        return SymbolToken(None, 0), None
    return SymbolToken(None, 10), u'i0'        # by identifier, of the first import


def symbols(h, ops, kinds, imports=0, top=0x10ffff):
    """ops: which of 'value', 'field', 'annotation', 'nested', 'int', 'flush', 'ivm', at each step."""
    tables = [shared_symbol_table(u't%d' % k, 1, [u'i%d' % k, [None, u'i1'][k], u'i1', None][:3 + k]) for k in range(imports)]
    cat = SymbolTableCatalog()
    for t in tables:
        cat.register(t)
    w = binary_writer(tables if imports or h.flag('empty imports') else None)
    segments, current, want = [], b'', []
    pending = False
    for i in range(len(ops) + 1):
        if i == len(ops):
            op = 'flush'
        else:
            op = ops[i]
            if not isinstance(op, str):
                op = h.choice('op%d' % i, op)
        name = 's%d' % i
        if op == 'flush':
            out, t = send(w, ION_STREAM_END_EVENT)
            h.check(t is WriteEventType.COMPLETE, 'complete')
            segments.append((current + out, want))
            current, want, pending = b'', [], False
            continue
        if op == 'ivm':
            if pending:
                h.stop()
            out, t = send(w, ION_VERSION_MARKER_EVENT)
            h.check(t is WriteEventType.NEEDS_INPUT or t is WriteEventType.COMPLETE, 'more')
            current = current + out
            continue
        pending = True
        if op == 'int':
            events, expected = [IonEvent(IonEventType.SCALAR, IonType.INT, 5, depth=0)], [(5, None, [])]
        else:
            x, text = token(h, name, kinds, top)
            if op == 'value':
                h.assume(text is None or text != u'$ion_1_0')
                events = [IonEvent(IonEventType.SCALAR, IonType.SYMBOL, x, depth=0)]
                expected = [((text,), None, [])]
            elif op == 'annotation':
                events = [IonEvent(IonEventType.SCALAR, IonType.INT, 5, annotations=(u'a', x), depth=0)]
                expected = [(5, None, [u'a', text])]
            elif op == 'null':
                events = [IonEvent(IonEventType.SCALAR, IonType.SYMBOL, None, annotations=(x,), depth=0)]
                expected = [(None, None, [text])]
            else:
                y, text2 = token(h, name + 'b', kinds, top)
                events = [IonEvent(IonEventType.CONTAINER_START, IonType.STRUCT, depth=0),
                          IonEvent(IonEventType.CONTAINER_START, IonType.SEXP, field_name=x, annotations=(y,), depth=1),
                          IonEvent(IonEventType.SCALAR, IonType.SYMBOL, x, depth=2),
                          IonEvent(IonEventType.CONTAINER_END), IonEvent(IonEventType.CONTAINER_END)]
                expected = ['start', (None, (text,), [text2]), ((text,), None, []), 'end', 'end']
        for e in events:
            out, t = send(w, e)
            h.check(t is WriteEventType.NEEDS_INPUT or t is WriteEventType.COMPLETE, 'more')
            current = current + out
        want = want + expected
    everything = []
    for data, want in segments:
        h.observe('data', data)
        check(h, data, want, cat)
        everything = everything + want
    check(h, b''.join([d for d, _ in segments]), everything, cat)
    h.reached('end')


def check(h, data, want, cat):
    if len(data) == 0:
        h.check(len(want) == 0, 'something written')
        return
    got, how = feed(managed_reader(raw_reader(), cat), [data])
    h.check(how == 'end', 'readable')
    h.check(len(got) == len(want), 'number of events')
    for i in range(len(want)):
        if want[i] == 'end':
            h.check(got[i][0] is IonEventType.CONTAINER_END, 'end')
            continue
        if want[i] == 'start':
            h.check(got[i][0] is IonEventType.CONTAINER_START, 'start')
            continue
        v, f, anns = want[i]
        if v == 5:
            h.check(got[i][2] == 5, 'value')
        elif v is None:
            h.check(got[i][2] is None, 'null')
        else:
            h.check(got[i][2].text == v[0], 'symbol')
        if f is None:
            h.check(got[i][3] is None, 'no field name')
        else:
            h.check(got[i][3].text == f[0], 'field name')
        h.check(len(got[i][4]) == len(anns), 'annotations')
        for j in range(len(anns)):
            h.check(got[i][4][j].text == anns[j], 'annotation')


def undefined(h):
    """An identifier beyond the table is refused, whether or not other symbols came first."""
    w = binary_writer()
    if h.flag('first'):
        send(w, IonEvent(IonEventType.SCALAR, IonType.SYMBOL, u'x', depth=0))
    sid = h.int('sid', 11, 300)
    what = h.choice('what', ['value', 'field', 'annotation'])
    try:
        if what == 'value':
            send(w, IonEvent(IonEventType.SCALAR, IonType.SYMBOL, SymbolToken(None, sid), depth=0))
        elif what == 'annotation':
            send(w, IonEvent(IonEventType.SCALAR, IonType.INT, 1, annotations=(SymbolToken(None, sid),), depth=0))
        else:
            send(w, IonEvent(IonEventType.CONTAINER_START, IonType.STRUCT, depth=0))
            send(w, IonEvent(IonEventType.SCALAR, IonType.INT, 1, field_name=SymbolToken(None, sid), depth=1))
    except Exception:
        h.reached('end')
        return
    h.fail('accepted')


def flush_events(h, n, imports=0):
    """simpleion.dump of several values with shared imports into one file."""
    from io import BytesIO
    from amazon.ion import simpleion
    from amazon.ion.simple_types import IonPySymbol
    tables = [shared_symbol_table(u't%d' % k, 1, [u'i%d' % k, u'q']) for k in range(imports)]
    cat = SymbolTableCatalog()
    for t in tables:
        cat.register(t)
    f = BytesIO()
    vs = []
    for i in range(n):
        s = h.str('s%d' % i, 1)
        v = IonPySymbol.from_value(IonType.SYMBOL, SymbolToken(s, None), (u'i0',))
        simpleion.dump(v, f, imports=tables, binary=True)
        vs.append(s)
    out = simpleion.loads(f.getvalue(), catalog=cat, single_value=False)
    h.check(len(out) == n, 'number of values')
    for i in range(n):
        h.check(out[i].text == vs[i], 'symbol')
        h.check(out[i].ion_annotations[0].text == u'i0', 'annotation')
    h.reached('end')
