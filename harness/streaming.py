"""Readers fed in chunks, and readers asked to skip."""
from decimal import Decimal

from amazon.ion.core import IonEventType, IonType, Timestamp
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, BufferQueue, read_data_event
from amazon.ion.reader_binary import raw_reader, binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import reader as text_reader
from amazon.ion.symbols import SymbolToken

from harness import binary_decode, text_decode
from harness.events import flat

IVM = b'\xe0\x01\x00\xea'


def feed(reader, chunks, skips=(), flush=True):
    """The events of the chunks; skips are the numbers of the events after which SKIP is sent. Returns (events, end)."""
    out = []
    todo = list(chunks)
    command = NEXT_EVENT
    try:
        event = reader.send(command)
        while True:
            t = event.event_type
            if t is IonEventType.STREAM_END or t is IonEventType.INCOMPLETE:
                if todo:
                    event = reader.send(read_data_event(todo.pop(0)))
                elif t is IonEventType.STREAM_END:
                    return out, 'end'
                elif flush:
                    flush = False
                    event = reader.send(NEXT_EVENT)
                else:
                    return out, 'incomplete'
            else:
                k = len(out)
                out.append(flat(event))
                event = reader.send(SKIP_EVENT if k in skips else NEXT_EVENT)
    except Exception as e:
        return out, 'error'


def same_events(h, a, b, label):
    h.check(len(a) == len(b), label + ': number of events')
    for i in range(len(a)):
        x, y = a[i], b[i]
        h.check(x[0] is y[0], label + ': kind of event')
        h.check(x[1] is y[1], label + ': type')
        h.check(same_value(h, x[2], y[2]), label + ': value')
        h.check(same_value(h, x[3], y[3]), label + ': field name')
        h.check(len(x[4]) == len(y[4]), label + ': annotations')
        for j in range(len(x[4])):
            h.check(same_value(h, x[4][j], y[4][j]), label + ': annotation')
        h.check(x[5] == y[5], label + ': depth')


def same_value(h, x, y):
    if isinstance(x, float) and isinstance(y, float):
        return h.same_float(x, y)
    if isinstance(x, Decimal) and isinstance(y, Decimal):
        return h.all([a == b for a, b in zip(h.dec_parts(x), h.dec_parts(y))])
    if isinstance(x, Timestamp) and isinstance(y, Timestamp):
        if x.precision is not y.precision or (x.tzinfo is None) != (y.tzinfo is None):
            return False
        parts = [x.year == y.year, x.month == y.month, x.day == y.day, x.hour == y.hour, x.minute == y.minute,
                 x.second == y.second, x.microsecond == y.microsecond]
        if x.tzinfo is not None:
            parts.append(x.utcoffset() == y.utcoffset())
        if x.fractional_seconds is not None and y.fractional_seconds is not None:
            parts.append(same_value(h, x.fractional_seconds, y.fractional_seconds))
        return h.all(parts)
    if isinstance(x, SymbolToken) and isinstance(y, SymbolToken):
        return x.text == y.text and x.location == y.location and (x.text is not None or x.sid == y.sid)
    return x == y


def cut(h, data, parts, lo=1):
    """data in `parts` non-empty chunks, cut anywhere from lo on."""
    at = [0]
    for i in range(parts - 1):
        at.append(h.choice('cut%d' % i, range(max(lo, at[-1] + 1), len(data) - parts + i + 2)))
    at.append(len(data))
    return [data[at[i]:at[i + 1]] for i in range(parts)]


def make(kind, managed):
    r = raw_reader() if kind == 'binary' else text_reader(is_unicode=(kind == 'unicode'))
    return managed_reader(r) if managed else r


def content(h, doc, kind):
    """The document: bytes and texts, with (name, n, lo, hi) for n symbolic units between."""
    parts = []
    for p in doc:
        if isinstance(p, tuple):
            name, n, lo, hi = p
            if kind == 'unicode':
                parts.append(h.str(name, n, lo, hi))
            else:
                parts.append(bytes([h.int('%s%d' % (name, i), lo, min(hi, 255)) for i in range(n)]))
        else:
            parts.append(p if kind != 'unicode' else p.decode('latin-1'))
    out = parts[0]
    for p in parts[1:]:
        out = out + p
    return out


def chunked(h, kind, doc, parts=2, managed=False, single=False, lo=1, every=False):
    """Same events however the document is cut (every: one unit at a time)."""
    data = content(h, DOCS[doc] if isinstance(doc, str) else doc, kind)
    whole, how = feed(make(kind, managed), [data])
    if every:
        chunks = [data[i:i + 1] for i in range(len(data))]
    else:
        chunks = cut(h, data, parts, lo)
    pieces, how2 = feed(make(kind, managed), chunks)
    h.observe('how', how)
    h.check(how == how2, 'end of input')
    same_events(h, whole, pieces, 'chunked')
    if how == 'end':
        h.reached('end')


def edited(h, kind, doc, replace=1, n=1):
    """The document with n other units in place of `replace` ones at any place, and that place."""
    if kind == 'binary':
        els = [int(x, 16) for x in (doc if isinstance(doc, str) else binary_decode.EDITED[doc]).split()]
    else:
        els = [ord(x) for x in (doc if isinstance(doc, str) else text_decode.EDITED[doc])]
    at = h.choice('at', range(len(els) + 1 - replace))
    top = 255 if kind == 'binary' else 127
    before, after = els[:at], els[at + replace:]
    if kind == 'unicode':
        return u''.join(map(chr, before)) + h.str('c', n, 0, 127) + u''.join(map(chr, after)), at
    data = bytes(before + [h.int('c%d' % i, 0, top) for i in range(n)] + after)
    return (IVM + data, at + 4) if kind == 'binary' else (data, at)


def edited_chunked(h, kind, doc, replace=1, n=1):
    """The same with an edited document, cut right before, in, or right behind the other units."""
    data, at = edited(h, kind, doc, replace, n)
    whole, how = feed(make(kind, False), [data])
    i = at + h.choice('cut', range(n + 1))
    j = len(data) if h.flag('two') else i + 1
    pieces, how2 = feed(make(kind, False), [x for x in (data[:i], data[i:j], data[j:]) if len(x) > 0])
    h.observe('how', how)
    h.check(how == how2, 'end of input')
    same_events(h, whole, pieces, 'chunked')
    h.reached('end')


def edited_skipping(h, kind, doc, replace=1, n=1):
    data, at = edited(h, kind, doc, replace, n)
    check_skipping(h, data, kind)


def skipping(h, kind, doc, parts=1, managed=False, skips=1, lo=1):
    """SKIP gives the event that would follow the rest of the container."""
    check_skipping(h, content(h, DOCS[doc] if isinstance(doc, str) else doc, kind), kind, parts, managed, skips, lo)


def check_skipping(h, data, kind, parts=1, managed=False, skips=1, lo=1):
    whole, how = feed(make(kind, managed), [data])
    h.assume(how == 'end')
    n = len(whole)
    at = []
    for i in range(skips):
        first = at[-1] + 1 if at else 0
        h.assume(first < n)
        at.append(h.choice('skip%d' % i, range(first, n)))
    # what is expected: from each skip on, nothing up to the end of the container
    want, sent = [], []
    i = 0
    while i < n:
        want.append(whole[i])
        if i in at:
            e = whole[i]
            d = e[5] if e[0] is IonEventType.CONTAINER_START else e[5] - 1
            if d < 0:
                h.stop()
            sent.append(len(want) - 1)
            i += 1
            while not (whole[i][0] is IonEventType.CONTAINER_END and whole[i][5] == d):
                i += 1
        else:
            i += 1
    h.assume(len(sent) == skips)
    chunks = cut(h, data, parts, lo) if parts else [data[i:i + 1] for i in range(len(data))]
    got, how2 = feed(make(kind, managed), chunks, sent)
    h.check(how2 == 'end', 'end of input')
    same_events(h, want, got, 'skipped')
    h.reached('end')


ANY = (32, 126)

DOCS = {
    # text
    'numbers': [b'1', ('d', 1) + ANY, b'2 -0x1f 1_0.5e', ('e', 1) + ANY, b'2 '],
    'timestamps': [b'2001-0', ('d', 1) + ANY, b'-1', ('e', 1) + ANY, b'T00:59:59.123+01:00 2001T '],
    'keywords': [b'nul', ('d', 1) + ANY, b'.int true nan ', ('e', 1) + ANY, b"inf 'null'::1 "],
    'strings': [b'"a\\', ('d', 1) + ANY, b'41b" "', ('e', 1) + ANY, b'" '],
    'escapes': [b'"\\u00', ('d', 1) + ANY, b'1\\U0001f40d\\x41\\\n\\n" '],
    'surrogates': [b"'\\ud83d\\u", ('d', 1) + ANY, b"c0d' '''x\r\ny''' "],
    'newlines': [b"'''a\r\nb\rc\\\r\nd", ('d', 1, 0, 127), b"''' '''x''' "],
    'long': [b"'''a''", ('d', 1) + ANY, b" '''b''' /*c*/ 'd' '''e''' ''::", ('e', 1) + ANY],
    'symbols': [b"'a'", ('d', 1) + ANY, b":b::$1", ('e', 1) + ANY, b' $ion_1_0 $ion 5'],
    'comments': [b'1 /', ('d', 1) + ANY, b'* \r\n// 2*/3\n', ('e', 1, 0, 127), b'4//'],
    'struct': [b'{a:1,\'b\'', ('d', 1) + ANY, b'"c",c:{},\'\'\'d\'\'\'', ('e', 1) + ANY, b'[1,(2)],} '],
    'sexp': [b'(+', ('d', 1) + ANY, b'-1 a', ('e', 1) + ANY, b'b null.list -inf [])'],
    'operators': [b'(+ /', ('d', 1, 0, 127), b'/ b\n- a/*c*/ 1//2\n +inf/.*-inf)'],
    'lobs': [b'{{ aGVsbG8', ('d', 1) + ANY, b' }} {{"a\\x', ('e', 1) + ANY, b'0"}} {{\'\'\'x\'\'\' \'\'\'y\'\'\' }}'],
    'flush': [b'abc', ('d', 1, 0, 127)],
    'flushed': [b"'''a''' ''", ('d', 1) + ANY],
    'annotated': [b'a::', ('d', 1) + ANY, b"::'b'::{c:d::", ('e', 1) + ANY, b'}'],
    'utf8': [b'"\xc3\xa9', ('d', 1, 32, 126), b'\xf0\x9f\x90\x8d" '],
    # text, nested
    'nested': [b'[[1,2],[3,(4 5)],6] {a:[1],b:{c:2},d:3} ((a)(b c) d)'],
    'nested2': [b'[[],[[]],{a:{}},()]  [a::[1,b::2],/*]*/"]",\'\'\']\'\'\',{{"]"}},\']\'::1] 5'],
    'nested3': [b'(({{"a"}}) {b:(+ -)}) [', ('d', 1) + ANY, b', [x', ('e', 1) + ANY, b'y], {z:1}] end '],
    # binary
    'bnums': [IVM, b'\x21', ('d', 1, 0, 255), b'\x48\x40\x09\x21\xfb\x54\x44\x2d\x18\x53\xc2\x81', ('e', 1, 0, 255)],
    'btimes': [IVM, b'\x69\xc0\x0f\xd1\x81\x81\x80\x80\x80', ('d', 1, 0, 255), b'\x64\x80\x0f\xd1\x81'],
    'btext': [IVM, b'\x8e\x8fabcdefghijklm', ('d', 2, 0, 255), b'\x93a', ('e', 1, 0, 255), b'b\xa1\x00\x71\x04\x80'],
    'bnest': [IVM, b'\xb9\xb2\x21\x01\xc3\xb0\x21', ('d', 1, 0, 255), b'\x11\x10\xd8\x84\xd4\x85\xb2\x21\x02\x86\x0f'
              b'\x20'],
    'bann': [IVM, b'\xe6\x81\x84\xb3\x21', ('d', 1, 0, 255), b'\x20\xe4\x81\x84\xb1\x11\xee\x85\x81\x85\xd2\x84\x20'],
    'bpad': [IVM, b'\x01', ('d', 1, 0, 255), b'\xb5\x03aaa\x20\x0e\x82', ('e', 2, 0, 255), b'\x20\xd5\x84\x01\x20\x85\x20'],
    'bivm': [IVM, b'\x20', IVM, b'\xb4\xb0\xc1\x20\xd0', IVM, b'\x11'],
    'blong': [IVM, b'\xbe\x94\x8e\x8eabcdefghijklm', ('d', 1, 0, 255), b'\x20\x21\x05\xb0\x0f\xde\x83\x84\x21\x07\xc0'],
    'bordered': [IVM, b'\xd1\x83\x84\x21', ('d', 1, 0, 255), b'\x20'],
    'blst': [IVM, b'\xe9\x81\x83\xd6\x87\xb4\x81a\x81', ('d', 1, 97, 122), b'\x71\x0a\x71\x0b\xb2\x71\x0a'],
    'bany1': [IVM, ('d', 1, 0, 255)],
    'bany2': [IVM, ('d', 2, 0, 255)],
    'bwrap': [IVM, ('d', 1, 0xe3, 0xe5), b'\x81\x84', ('e', 1, 0, 255), b'\x01\x02'],
    'bstruct': [IVM, b'\xd4\x84', ('d', 1, 0, 255), b'\x01\x02\x20'],
    'blist': [IVM, b'\xb3', ('d', 1, 0, 255), b'\x82\x02\x20'],
    'blen': [IVM, ('d', 1, 0x20, 0x3f), b'\x00\x83\x01\x02\x03\x20'],
    'any1': [('d', 1, 0, 0x7f)],
    'any2': [('d', 2, 0, 0x7f)],
    'any3': [('d', 3, 0, 0x7f)],
    'wide': [b'"', ('d', 2, 0, 0x10ffff), b"' '", ('e', 1, 0, 0x10ffff), b"' "],
    'after': [b'[{a:"x"}', ('d', 2, 0, 0x7f), b'] '],
    'infield': [b'{a', ('d', 2, 0, 0x7f), b'1} '],
    'inlong': [b"'''a", ('d', 2, 0, 0x7f), b"'''"],
    'inlob': [b'{{"', ('d', 2, 0, 0x7f), b'"}}'],
    'inblob': [b'{{YQ', ('d', 2, 0, 0x7f), b'}}'],
    'time1': [b'2001-01-01T01:01', ('d', 2, 0, 0x7f), b'01:01'],
    'time2': [b'2001', ('d', 2, 0, 0x7f), b' 1'],
    'sign': [b'(', ('d', 2, 0, 0x7f), b'inf)'],
}
