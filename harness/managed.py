"""The managed reader's symbol resolution against the rules of the Ion 1.0 specification."""
from amazon.ion.core import IonEventType, IonType
from amazon.ion.reader_binary import raw_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table

from harness.streaming import feed
from harness.symbol_tables import SYSTEM

IVM = b'\xe0\x01\x00\xea'


class Refused(Exception):
    """The stream must be rejected."""


class Unchecked(Exception):
    """The specification leaves this open."""


# ---- encoding, for contents of fewer than 128 octets

def wrapped(tid, body):
    n = len(body)
    if n < 14:
        return bytes([tid * 16 + n]) + body
    return bytes([tid * 16 + 14, 0x80 + n]) + body


def string(s):
    return wrapped(8, s.encode('utf-8'))


def small(n):
    """An int in -127..127; n may be symbolic, its sign must not."""
    return b'\x20' if n == 0 else bytes([0x31, -n]) if n < 0 else bytes([0x21, n])


def symbol(sid):
    return bytes([0x71, sid])


def field(sid, value):
    return bytes([0x80 + sid]) + value


def annotated(sids, value):
    a = bytes([0x80 + s for s in sids])
    return wrapped(14, bytes([0x80 + len(sids)]) + a + value)


# ---- local symbol tables

SYMBOL_ITEMS = ['text', 'null', 'int', 'list', 'system', 'annotated']


def symbols_field(h, name, n, kinds, simple):
    """The value of a symbols field, and the texts it declares (None: not a list)."""
    kind = h.choice(name + '_kind', ['list', 'null list', 'sexp', 'int'][:kinds])
    if kind == 'null list':
        return b'\xbf', []
    if kind == 'sexp':
        return wrapped(12, string(u'no')), []
    if kind == 'int':
        return small(7), []
    body, texts = b'', []
    for i in range(h.choice(name + '_size', range(n + 1))):
        item = h.choice('%s_%d' % (name, i), SYMBOL_ITEMS[:2] if simple else SYMBOL_ITEMS)
        if item == 'text':
            s = u'%s%d' % (name, i)
            body, texts = body + string(s), texts + [s]
        elif item == 'annotated':
            body, texts = body + annotated([4], string(u'an')), texts + [u'an']
        elif item == 'system':
            body, texts = body + string(u'name'), texts + [u'name']
        elif item == 'null':
            body, texts = body + b'\x8f', texts + [None]
        elif item == 'int':
            body, texts = body + small(5), texts + [None]
        else:
            body, texts = body + wrapped(11, string(u'x') + small(1)), texts + [None]
    return wrapped(11, body), texts


class Tables(object):
    """The catalog: shared table s, versions 1 and 3."""
    def __init__(self):
        self.catalog = SymbolTableCatalog()
        self.refused = False
        self.known = {1: [u's1', u's2'], 3: [u's1', u's2', None, u's4']}
        for v in self.known:
            self.catalog.register(shared_symbol_table(u's', v, self.known[v]))

    def resolve(self, name, version, max_id):
        known = self.known if name == u's' else {}
        exact = None
        for v in known:
            if v == version:
                exact = known[v]
        if max_id is None:
            if exact is None:
                self.refused = True
                return []
            return exact
        texts = exact if exact is not None else known[3] if known else []
        for k in range(9):
            if max_id == k:
                return (texts + [None] * k)[:k]
        raise Unchecked()


def import_struct(h, name, tables, simple):
    """One import declaration and the texts it brings."""
    body = b''
    which = 's' if simple else h.choice(name + '_name', ['s', 'u', 'none', 'empty', 'ion', 'int'])
    texts = {'s': u's', 'u': u'u', 'empty': u'', 'ion': u'$ion'}
    if which in texts:
        body = body + field(4, string(texts[which]))
    elif which == 'int':
        body = body + field(4, small(3))
    version = 1
    kind = 'int' if simple else h.choice(name + '_version', ['none', 'int', 'string', 'null'])
    if kind == 'int':
        v = h.int(name + '_v', -2, 4)
        body = body + field(5, small(v))
        version = v if v > 0 else 1
    elif kind != 'none':
        body = body + field(5, string(u'9') if kind == 'string' else b'\x2f')
    max_id = None
    kind = 'int' if simple else h.choice(name + '_max', ['none', 'int', 'null', 'list'])
    if kind == 'int':
        m = h.int(name + '_m', -1, 5)
        body = body + field(8, small(m))
        max_id = m if m >= 0 else None
    elif kind != 'none':
        body = body + field(8, b'\x2f' if kind == 'null' else wrapped(11, small(1)))
    if which in ('none', 'empty', 'ion', 'int'):
        return wrapped(13, body), []
    return wrapped(13, body), tables.resolve(texts[which], version, max_id)


def imports_field(h, name, n, tables, current, kinds, simple):
    """The value of an imports field, and the table it makes the start (None: no imports)."""
    kind = h.choice(name + '_kind', ['append', 'list', 'other symbol', 'null symbol', 'null list', 'string', 'struct',
                                     'append annotated'][:kinds])
    if kind == 'append':
        return symbol(3), current
    if kind == 'append annotated':
        return annotated([4], symbol(3)), current
    if kind == 'other symbol':
        return symbol(4), None
    if kind == 'null symbol':
        return b'\x7f', None
    if kind == 'null list':
        return b'\xbf', None
    if kind == 'string':
        return string(u'$ion_symbol_table'), None
    if kind == 'struct':
        return wrapped(13, field(4, string(u's'))), None
    body, texts = b'', SYSTEM
    refused = False
    for i in range(h.choice(name + '_size', range(n + 1))):
        what = 'struct' if simple else h.choice('%s_%d' % (name, i), ['struct', 'null struct', 'list', 'string'])
        if what == 'struct':
            x, more = import_struct(h, '%s_%d' % (name, i), tables, simple)
            body, texts = body + x, texts + more
        else:
            body = body + {'null struct': b'\xdf', 'list': wrapped(11, wrapped(13, b'')), 'string': string(u's')}[what]
    return wrapped(11, body), texts


def table(h, name, tables, current, imports, symbols, kinds=9, simple=False, extras=True):
    """A local symbol table and the one in force after it."""
    parts = []
    start, texts = None, []
    order = h.choice(name + '_order', ['reversed', 'imports', 'symbols', 'both', 'neither', 'repeated'][:kinds])
    if order in ('both', 'reversed', 'imports'):
        v, start = imports_field(h, name + '_imports', imports, tables, current, kinds, simple)
        parts.append(field(6, v))
    if order in ('both', 'reversed', 'symbols', 'repeated'):
        v, texts = symbols_field(h, name + '_symbols', symbols, kinds, simple)
        parts.append(field(7, v))
    if order == 'repeated':
        again = h.choice(name + '_again', [(7,), (6,), (6, 6)])
        parts = parts + [field(k, b'\x0f' if k == 7 else wrapped(11, b'')) for k in again]
        if again != (6,):
            tables.refused = True
    if order == 'reversed':
        parts = parts[::-1]
    if extras and h.choice(name + '_open', [False, True]):
        parts = [field(4, small(1)), field(5, wrapped(11, symbol(4)))] + parts
    anns = [3] if not extras else h.choice(name + '_anns', [[3], [3, 4]])
    return annotated(anns, wrapped(13, b''.join(parts))), (SYSTEM if start is None else start) + texts


# ---- streams

def unknown(texts, sid):
    """The text of an identifier in the table (None when it has none)."""
    if sid == 0:
        return None
    for k in range(len(texts)):
        if sid == k + 1:
            return texts[k]
    raise Refused()


def value(h, name, low, top, shapes):
    """A value with identifiers: its octets and a function of the table giving its events."""
    shape = h.choice(name + '_shape', ['symbol', 'field', 'annotation', 'nested', 'plain table', 'null', 'marker'][:shapes])
    sid = h.int(name + '_sid', low, top)
    if shape == 'symbol':
        return symbol(sid), [('value', sid, None, [], 0)]
    if shape == 'field':
        return wrapped(13, field(sid, small(1))), [('start', None, None, [], 0), ('int', None, sid, [], 1),
                                                   ('end', None, None, [], 0)]
    if shape == 'annotation':
        first = h.choice(name + '_first', [4, 3])
        return annotated([first, sid], small(1)), [('int', None, None, [first, sid], 0)]
    if shape == 'nested':
        return wrapped(11, wrapped(12, symbol(sid))), [('start', None, None, [], 0), ('start', None, None, [], 1),
                                                       ('value', sid, None, [], 2), ('end', None, None, [], 1),
                                                       ('end', None, None, [], 0)]
    if shape == 'null':
        return b'\x7f', [('null', None, None, [], 0)]
    if shape == 'marker':
        # $ion_1_0 is a version marker at the top level and without annotations only
        where = h.choice(name + '_where', ['annotated', 'list', 'field', 'nested'])
        if where == 'annotated':
            return annotated([sid], symbol(2)), [('value', 2, None, [sid], 0)]
        if where == 'field':
            return wrapped(13, field(sid, symbol(2))), [('start', None, None, [], 0), ('value', 2, sid, [], 1),
                                                        ('end', None, None, [], 0)]
        body, inner = symbol(2), [('value', 2, None, [], 1)]
        if where == 'nested':
            body, inner = annotated([sid], symbol(2)) + symbol(2), [('value', 2, None, [sid], 1), inner[0]]
        return wrapped(12, body), [('start', None, None, [], 0)] + inner + [('end', None, None, [], 0)]
    kind = h.choice(name + '_kind', ['inside', 'second', 'list', 'null'])
    t = wrapped(13, field(7, wrapped(11, string(u'no'))))
    inner = [('start', None, None, None, 0), ('start', None, 7, [], 1), ('other', None, None, [], 2),
             ('end', None, 7, [], 1), ('end', None, None, [], 0)]
    if kind == 'inside':
        inner = [(a, b, c, d, e + 1) for a, b, c, d, e in inner]
        inner[0] = inner[0][:3] + ([3], 1)
        return wrapped(11, annotated([3], t)), [('start', None, None, [], 0)] + inner + [('end', None, None, [], 0)]
    if kind == 'second':
        inner[0] = inner[0][:3] + ([4, 3], 0)
        return annotated([4, 3], t), inner
    if kind == 'list':
        return annotated([3], wrapped(11, b'')), [('start', None, None, [3], 0), ('end', None, None, [], 0)]
    return annotated([3], b'\xdf'), [('other', None, None, [3], 0)]


def stream(h, items, imports=1, symbols=1, kinds=9, top=14, simple=False, shapes=9, low=0, extras=True):
    """items: which kinds of things the stream may have."""
    tables = Tables()
    current = SYSTEM
    data = IVM
    want = []
    refused = False
    try:
        for i in range(len(items)):
            if tables.refused:
                raise Refused()
            what = items[i]
            if what == 'any':
                what = h.choice('item%d' % i, ['value', 'table', 'ivm', 'faux'])
            if what == 'ivm':
                data, current = data + IVM, SYSTEM
            elif what == 'faux':
                data = data + symbol(2)
            elif what == 'table':
                x, current = table(h, 'table%d' % i, tables, current, imports, symbols, kinds, simple, extras)
                data = data + x
            else:
                x, events = value(h, 'value%d' % i, low, top, shapes)
                h.assume(x != symbol(2) if len(x) == 2 else True)
                data = data + x
                for kind, v, f, anns, depth in events:
                    e = (kind, None if kind != 'value' else (unknown(current, v),),
                         None if f is None else (unknown(current, f),), [unknown(current, a) for a in anns], depth)
                    want.append(e)
        refused = tables.refused
    except Refused:
        refused = True
    except Unchecked:
        h.stop()
    h.observe('data', data)
    got, how = feed(managed_reader(raw_reader(), tables.catalog), [data])
    if refused:
        h.check(how == 'error', 'rejected')
        h.reached('refused')
    else:
        h.check(how == 'end', 'accepted')
        # the version marker at the start is swallowed as well
        h.check(len(got) == len(want), 'number of events')
    n = min(len(got), len(want))
    for i in range(n):
        kind, v, f, anns, depth = want[i]
        et, it, gv, gf, ga, gd = got[i]
        h.check(gd == depth, 'depth')
        h.check(et is {'start': IonEventType.CONTAINER_START, 'end': IonEventType.CONTAINER_END}.get(
            kind, IonEventType.SCALAR), 'event')
        if kind == 'value':
            h.check(it is IonType.SYMBOL, 'type')
            h.check(gv.text == v[0], 'symbol text')
        elif kind == 'null':
            h.check(it is IonType.SYMBOL, 'type')
            h.check(gv is None, 'null')
        elif kind == 'int':
            h.check(gv == 1, 'value')
        if f is None:
            h.check(gf is None, 'no field name')
        elif kind != 'end':
            h.check(gf.text == f[0], 'field name')
        if kind != 'end':
            h.check(len(ga) == len(anns), 'annotations')
            for j in range(len(anns)):
                h.check(ga[j].text == anns[j], 'annotation')
    h.reached('end')


def text_identifiers(h, digits, role):
    """$n in text: the symbol with that identifier; '$n' in quotes: a text."""
    from amazon.ion import simpleion
    d = h.str('d', digits, 48, 57)
    n = 0
    for c in d:
        n = n * 10 + (ord(c) - 48)
    quoted = h.flag('quoted')
    tok = u"'$" + d + u"'" if quoted else u'$' + d
    texts = SYSTEM + [u'a', u'b c', None, u'', u'e']
    head = u'$ion_symbol_table::{symbols:["a", "b c", null.string, "", "e"]} '
    if role == 'value':
        data = head + tok + u' '
    elif role == 'last':
        data = head + tok
    elif role == 'field':
        data = head + u'{' + tok + u':1}'
    elif role == 'annotation':
        data = head + tok + u'::1'
    else:
        data = head + u'(1 ' + tok + u')'
    try:
        want = u'$' + d if quoted else unknown(texts, n)
    except Refused:
        try:
            y = simpleion.loads(data)
            if role == 'field':
                list(y.items())
        except Exception:
            h.reached('refused')
            return
        h.fail('out of range')
    if role == 'value' or role == 'last':
        if want == u'$ion_1_0':
            h.stop()
    y = simpleion.loads(data)
    if role == 'value' or role == 'last':
        h.check(y.ion_type is IonType.SYMBOL, 'type')
        got = y
    elif role == 'field':
        h.check(len(y) == 1, 'fields')
        k = list(y.items())[0][0]
        h.check(k == want if want is not None else k is None, 'field name')
        h.reached('end')
        return
    elif role == 'annotation':
        h.check(len(y.ion_annotations) == 1, 'annotations')
        got = y.ion_annotations[0]
    else:
        got = y[1]
    h.check(got.text == want, 'text')
    h.reached('end')
