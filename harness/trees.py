"""Trees of containers: what is written is read back."""
from amazon.ion import simpleion
from amazon.ion.core import IonType
from amazon.ion.simple_types import IonPyList, IonPyDict, IonPyNull, IonPyInt, IonPyText, IonPySymbol
from amazon.ion.symbols import SymbolToken

FIELDS = [u'a', u'', u'name', u'b c']
ANNS = [(), (u'x',), (u'', u'$10', u'x'), (u'x', u'x', u'', u'x')]


class Gen(object):
    def __init__(self, h, leaves, fields=2, anns=2, budget=99):
        self.h, self.leaves, self.fields, self.anns, self.budget = h, leaves, fields, anns, budget
        self.k = 0

    def name(self, what):
        self.k += 1
        return '%s%d' % (what, self.k)

    def annotations(self):
        return self.h.choice(self.name('anns'), ANNS[:self.anns])

    def leaf(self):
        h = self.h
        kind = h.choice(self.name('leaf'), self.leaves)
        if kind == 'int':
            return ('leaf', IonType.INT, h.int(self.name('n'), 1, 99))
        if kind == 'text':
            return ('leaf', IonType.STRING, h.str(self.name('s'), 1, 32, 126))
        if kind == 'symbol':
            return ('leaf', IonType.SYMBOL, h.str(self.name('y'), 1, 32, 126))
        if kind == 'operator':
            return ('leaf', IonType.SYMBOL, u'+')
        if kind == 'empty':
            return ('leaf', IonType.STRING, u'')
        if kind == 'null':
            return ('leaf', IonType.NULL, None)
        return ('leaf', IonType.STRUCT, None)

    def tree(self, depth, width):
        h = self.h
        t = 'leaf'
        if depth > 0 and self.budget > 0:
            t = h.choice(self.name('kind'), ['leaf', IonType.LIST, IonType.SEXP, IonType.STRUCT])
        anns = self.annotations()
        self.budget -= 1
        if t == 'leaf':
            return self.leaf() + (anns,)
        n = h.choice(self.name('size'), range(width + 1))
        kids = []
        for i in range(n):
            f = h.choice(self.name('field'), FIELDS[:self.fields]) if t is IonType.STRUCT else None
            kids.append((f, self.tree(depth - 1, width)))
        return ('container', t, kids, anns)


def build(t):
    """The Python value of a tree."""
    kind, typ, content, anns = t
    if kind == 'leaf':
        if content is None:
            return IonPyNull.from_value(typ, None, anns)
        if typ is IonType.INT:
            return IonPyInt.from_value(typ, content, anns)
        if typ is IonType.SYMBOL:
            return IonPySymbol.from_value(typ, SymbolToken(content, None), anns)
        return IonPyText.from_value(typ, content, anns)
    if typ is IonType.STRUCT:
        d = IonPyDict.from_value(typ, {}, anns)
        for f, x in content:
            d.add_item(f, build(x))
        return d
    return IonPyList.from_value(typ, [build(x) for f, x in content], anns)


def grouped(content):
    """Fields as a multimap gives them: repeated names together, at the place of the first."""
    names = []
    for f, x in content:
        if f not in names:
            names.append(f)
    return [(f, x) for n in names for f, x in content if f == n]


def check_tree(h, y, t):
    kind, typ, content, anns = t
    h.check(y.ion_type is typ, 'type')
    got = [a.text for a in y.ion_annotations]
    h.check(len(got) == len(anns), 'annotations')
    h.check(h.all([got[i] == anns[i] for i in range(len(anns))]), 'annotations')
    if kind == 'leaf':
        if content is None:
            h.check(isinstance(y, IonPyNull), 'null')
        elif typ is IonType.SYMBOL:
            h.check(y.text == content, 'symbol')
        else:
            h.check(not isinstance(y, IonPyNull), 'null')
            h.check(y == content, 'value')
        return
    h.check(not isinstance(y, IonPyNull), 'null')
    if typ is IonType.STRUCT:
        items = list(y.items())
        want = grouped(content)
        h.check(len(items) == len(want), 'fields')
        h.check(h.all([items[i][0] == want[i][0] for i in range(len(want))]), 'field names')
        for i in range(len(want)):
            check_tree(h, items[i][1], want[i][1])
    else:
        items = list(y)
        h.check(len(items) == len(content), 'elements')
        for i in range(len(content)):
            check_tree(h, items[i], content[i][1])


def roundtrip(h, depth, width, leaves, fields=2, anns=2, binary=True, indents=(None,), budget=99):
    t = Gen(h, leaves, fields, anns, budget).tree(depth, width)
    indent = h.choice('indent', indents)
    data = simpleion.dumps(build(t), binary=binary, indent=indent)
    h.observe('data', data)
    check_tree(h, simpleion.loads(data), t)
    h.reached('end')


def stream(h, depth, width, leaves, n, binary=True, indents=(None,), anns=1, budget=99):
    """Several top-level values."""
    g = Gen(h, leaves, 2, anns, budget)
    ts = [g.tree(depth, width) for i in range(n)]
    indent = h.choice('indent', indents)
    omit = h.flag('omit')
    data = simpleion.dumps([build(t) for t in ts], binary=binary, indent=indent, sequence_as_stream=True,
                           omit_version_marker=omit)
    h.observe('data', data)
    ys = simpleion.loads(data, single_value=False)
    h.check(len(ys) == n, 'number of values')
    for i in range(n):
        check_tree(h, ys[i], ts[i])
    h.reached('end')


_SHAPES = [(IonType.LIST, False), (IonType.SEXP, False), (IonType.STRUCT, False), (IonType.LIST, True),
           (IonType.STRUCT, True)]


def sized(h, lo, hi, levels, binary=True, indents=(None,)):
    """Lengths on either side of every change of the length representation."""
    k = h.choice('k', range(lo, hi + 1))
    leaf = IonType.STRING
    t = ('leaf', leaf, u'z' * k, (u'x',) if h.flag('annotated leaf') else ())
    for i in range(levels):
        typ, annotated = h.choice('shape%d' % i, _SHAPES)
        tail = [(u'a', ('leaf', IonType.INT, h.int('n%d' % i, 0, 9), ()))] if h.flag('tail%d' % i) else []
        t = ('container', typ, [(u'a' if typ is IonType.STRUCT else None, t)] +
             [(f if typ is IonType.STRUCT else None, x) for f, x in tail], (u'x', u'y') if annotated else ())
    data = simpleion.dumps(build(t), binary=binary, indent=h.choice('indent', indents))
    check_tree(h, simpleion.loads(data), t)
    h.reached('end')


def deep(h, levels, binary=True, indents=(None,)):
    """Containers within containers, with other values before and behind them."""
    t = ('leaf', IonType.INT, h.int('n', 0, 99), ())
    for i in range(levels):
        typ = h.choice('kind%d' % i, [IonType.LIST, IonType.SEXP, IonType.STRUCT])
        kids = [('leaf', IonType.INT, i, ()), t, ('leaf', IonType.SYMBOL, u'z%d' % i, ())]
        t = ('container', typ, [(u'abc'[k] if typ is IonType.STRUCT else None, x) for k, x in enumerate(kids)], ())
    data = simpleion.dumps(build(t), binary=binary, indent=h.choice('indent', indents))
    h.observe('data', data)
    check_tree(h, simpleion.loads(data), t)
    h.reached('end')


def many_annotations(h, lo, hi, distinct=False):
    """The number of annotations, on either side of every change of the representation of their length."""
    k = h.choice('k', range(lo, hi + 1))
    anns = tuple(u'a%d' % i if distinct else u'x' for i in range(k))
    kind = h.choice('kind', ['int', 'string', 'list', 'struct'])
    n = h.int('n', 0, 300)
    t = {'int': lambda: ('leaf', IonType.INT, n, anns),
         'string': lambda: ('leaf', IonType.STRING, u's' * 13, anns),
         'list': lambda: ('container', IonType.LIST, [(None, ('leaf', IonType.INT, n, ()))], anns),
         'struct': lambda: ('container', IonType.STRUCT, [(u'a', ('leaf', IonType.INT, n, ()))], anns)}[kind]()
    if h.flag('inside'):
        t = ('container', IonType.LIST, [(None, t)], ())
    check_tree(h, simpleion.loads(simpleion.dumps(build(t))), t)
    h.reached('end')
