"""Binary encoding: strings, symbols, lobs and containers survive dumps/loads."""
from amazon.ion import simpleion
from amazon.ion.core import IonType
from amazon.ion.simple_types import IonPyBytes, IonPyText, IonPySymbol, IonPyDict, IonPyList
from amazon.ion.symbols import SymbolToken


def string_roundtrip(h, n, filler=0):
    s = h.str('s', n)
    v = u'a' * filler + s
    data = simpleion.dumps(v, binary=True)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.STRING, 'type')
    h.check(y == v, 'value')
    h.reached('end')


def lob_roundtrip(h, n, filler=0):
    b = h.bytes('b', n)
    kind = h.choice('kind', [IonType.BLOB, IonType.CLOB])
    v = b'\x80' * filler + b
    data = simpleion.dumps(IonPyBytes.from_value(kind, v), binary=True)
    y = simpleion.loads(data)
    h.check(y.ion_type is kind, 'type')
    h.check(y == v, 'value')
    h.reached('end')


def symbol_roundtrip(h, n, filler=0):
    s = u'a' * filler + h.str('s', n)
    data = simpleion.dumps(IonPySymbol.from_value(IonType.SYMBOL, SymbolToken(s, None)), binary=True)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.SYMBOL, 'type')
    h.check(y.text == s, 'value')
    h.reached('end')


def field_and_annotation(h, n):
    f = h.str('f', n)
    a = h.str('a', n)
    x = h.int('x', -300, 300)
    v = {f: x}
    v = IonPyDict.from_value(IonType.STRUCT, v, (a,))
    data = simpleion.dumps(v, binary=True)
    y = simpleion.loads(data)
    h.check(y.ion_type is IonType.STRUCT, 'type')
    h.check(len(y.ion_annotations) == 1, 'annotations')
    h.check(y.ion_annotations[0].text == a, 'annotation')
    h.check(len(y) == 1, 'size')
    h.check(y[f] == x, 'value')
    h.reached('end')
