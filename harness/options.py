"""Options of dump and load."""
from io import BytesIO
from amazon.ion import simpleion
from amazon.ion.core import IonType
from amazon.ion.exceptions import IonException
from amazon.ion.simple_types import IonPyList, IonPyDict, IonPyNull, IonPyInt, IonPySymbol, IonPyText
from amazon.ion.symbols import SymbolToken

from harness.files import same

WHITE_SPACE = u' \t\n\r\x0b\x0c'
KINDS = ['int', 'null', 'text', 'symbol', 'list', 'tuple', 'dict', 'sexp', 'typed list', 'nulllist', 'operator']


class Gen(object):
    def __init__(self, h, kinds, width):
        self.h, self.kinds, self.width, self.k = h, kinds, width, 0

    def name(self, what):
        self.k += 1
        return '%s%d' % (what, self.k)

    def make(self, depth):
        """(value, Ion type it is written as without tuple_as_sexp, and with it, items)"""
        h = self.h
        kinds = [k for k in self.kinds if depth > 0 or k not in ('list', 'tuple', 'dict', 'sexp', 'typed list')]
        k = h.choice(self.name('kind'), kinds)
        if k == 'int':
            return (h.int(self.name('x'), 0, 99), IonType.INT, IonType.INT, ())
        if k == 'null':
            return (None, IonType.NULL, IonType.NULL, ())
        if k == 'nulllist':
            return (IonPyNull.from_value(IonType.LIST, None), IonType.LIST, IonType.LIST, ())
        if k == 'text':
            return (h.str(self.name('s'), 1, 32, 126), IonType.STRING, IonType.STRING, ())
        if k == 'symbol':
            return (SymbolToken(h.str(self.name('s'), 1, 32, 126), None), IonType.SYMBOL, IonType.SYMBOL, ())
        if k == 'operator':
            return (IonPySymbol.from_value(IonType.SYMBOL, SymbolToken(u'+', None)), IonType.SYMBOL, IonType.SYMBOL, ())
        items = [self.make(depth - 1) for i in range(h.choice(self.name('n'), range(self.width + 1)))]
        values = [x[0] for x in items]
        if k == 'dict':
            d = {}
            for i in range(len(values)):
                d[u'ab'[i]] = values[i]
            return (d, IonType.STRUCT, IonType.STRUCT, items)
        if k == 'list':
            return (values, IonType.LIST, IonType.LIST, items)
        if k == 'tuple':
            return (tuple(values), IonType.LIST, IonType.SEXP, items)
        if k == 'sexp':
            return (IonPyList.from_value(IonType.SEXP, values), IonType.SEXP, IonType.SEXP, items)
        return (IonPyList.from_value(IonType.LIST, values, (u'x',)), IonType.LIST, IonType.LIST, items)


def check_types(h, got, made, as_sexp):
    value, plain, sexp, items = made
    h.check(got.ion_type is (sexp if as_sexp else plain), 'type')
    if value is None or isinstance(value, IonPyNull):
        return
    if plain is IonType.STRUCT:
        h.check(len(got) == len(items), 'size')
        for i in range(len(items)):
            check_types(h, got[u'ab'[i]], items[i], as_sexp)
    elif items or plain in (IonType.LIST, IonType.SEXP):
        h.check(len(got) == len(items), 'size')
        for i in range(len(items)):
            check_types(h, got[i], items[i], as_sexp)
    elif plain is IonType.SYMBOL:
        h.check(got.text == value.text, 'symbol')
    else:
        h.check(got == value, 'value')


def tuples(h, depth, width, binary, kinds=KINDS, sequence=False):
    """tuple_as_sexp turns tuples, and nothing else, into s-expressions; with sequence_as_stream too."""
    made = Gen(h, kinds, width).make(depth)
    as_sexp = h.flag('as_sexp')
    stream = sequence and h.flag('stream')
    data = simpleion.dumps(made[0], binary=binary, tuple_as_sexp=as_sexp, sequence_as_stream=stream)
    h.observe('data', data)
    got = simpleion.loads(data, single_value=False)
    value = made[0]
    if stream and isinstance(value, (list, tuple)) and not isinstance(value, SymbolToken):
        h.check(len(got) == len(made[3]), 'number of values')
        for i in range(len(got)):
            check_types(h, got[i], made[3][i], as_sexp)
        h.reached('stream')
    else:
        h.check(len(got) == 1, 'number of values')
        check_types(h, got[0], made, as_sexp)
        h.reached('value')
    # single_value
    try:
        x = simpleion.loads(data)
    except IonException:
        h.check(len(got) != 1, 'a single value refused')
    else:
        h.check(len(got) == 1, 'not a single value')
        same(h, x, got[0], 'single value')
    # a file gets what dumps returns, after what it already holds
    before = b'ab'
    f = BytesIO()
    f.write(before)
    simpleion.dump(made[0], f, binary=binary, tuple_as_sexp=as_sexp, sequence_as_stream=stream)
    h.check(f.getvalue() == before + (data if binary else data.encode('utf-8')), 'dump and dumps')


def marker(h, depth, width, kinds=KINDS, indents=(None,)):
    """Omitting the version marker changes nothing else; in binary it is never omitted."""
    made = Gen(h, kinds, width).make(depth)
    indent = h.choice('indent', indents)
    stream = h.flag('stream')
    binary = h.flag('binary')
    a = simpleion.dumps(made[0], binary=binary, indent=indent, sequence_as_stream=stream)
    b = simpleion.dumps(made[0], binary=binary, indent=indent, sequence_as_stream=stream, omit_version_marker=True)
    h.observe('data', b)
    if binary:
        h.check(a == b, 'binary differs')
    else:
        h.check(a[:8] == u'$ion_1_0', 'no version marker')
        rest = a[8:]
        if b:
            h.check(rest[:1] in (u' ', u'\n') and rest[1:] == b, 'text differs')
            h.check(b[:8] != u'$ion_1_0', 'marker')
        else:
            h.check(rest.strip() == u'', 'text differs')
    h.reached('end')


def indents(h, n, hi=0x30ff):
    """Any indent of white space is only layout; anything else is refused."""
    indent = h.str('indent', n, 0, hi)
    space = h.all([h.any([c == w for w in WHITE_SPACE]) for c in indent])
    value = [1, {u'a': [2, ()]}, IonPyList.from_value(IonType.SEXP, [3, SymbolToken(u'+', None)])]
    try:
        data = simpleion.dumps(value, binary=False, indent=indent, omit_version_marker=True)
    except ValueError:
        h.check(h.implies(space, False), 'white space refused')
        h.reached('refused')
        return
    h.check(space, 'not white space')
    h.observe('data', data)
    got = simpleion.loads(data)
    want = simpleion.loads(simpleion.dumps(value, binary=False))
    same(h, got, want, 'indented')
    for depth, leaf in ((1, u'1'), (3, u'2'), (2, u'3')):
        h.check((u'\n' + indent * depth + leaf) in data, 'layout')
    h.reached('end')


def bad_indent(h):
    for x in (b' ', 4, True, [u' ']):
        try:
            simpleion.dumps(1, binary=False, indent=x)
        except ValueError:
            continue
        h.fail('indent accepted')
    h.reached('end')


def successive(h, n, kinds=KINDS):
    """Binary dumps to one file, one after the other, are read as one stream of all the values."""
    f = BytesIO()
    g = Gen(h, kinds, 1)
    made = []
    for i in range(n):
        x = g.make(1)
        stream = h.flag('stream%d' % i)
        simpleion.dump(x[0], f, binary=True, sequence_as_stream=stream)
        if stream and isinstance(x[0], (list, tuple)) and not isinstance(x[0], SymbolToken):
            made.extend(x[3])
        else:
            made.append(x)
    data = f.getvalue()
    h.observe('data', data)
    got = simpleion.loads(data, single_value=False)
    h.check(len(got) == len(made), 'number of values')
    for i in range(len(made)):
        check_types(h, got[i], made[i], False)
    h.reached('end')
