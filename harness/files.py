"""Where the input comes from: octets, str, files read in pieces."""
from io import BytesIO, StringIO
from amazon.ion import simpleion
from amazon.ion.core import IonType
from amazon.ion.symbols import SymbolToken
from harness.binary_decode import Bad, Ref as Octets
from harness.wrappers import same_time


class Pieces(object):
    """A file whose read() gives no more than the octets up to the next cut, except that it gives four when asked."""

    def __init__(self, data, cuts, pos=0):
        self.data, self.cuts, self.pos = data, cuts, pos

    def read(self, n=-1):
        end = len(self.data)
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        if n != 4:
            for c in self.cuts:
                if c > self.pos:
                    end = min(end, c)
                    break
        start, self.pos = self.pos, end
        return self.data[start:end]

    def tell(self):
        return self.pos

    def seek(self, n, whence=0):
        self.pos = n + (self.pos if whence == 1 else len(self.data) if whence == 2 else 0)
        return self.pos

    def seekable(self):
        return True

    def readable(self):
        return True


def attempt(h, source, how='loads', catalog=None):
    """The values, or None when they cannot be read."""
    try:
        if how == 'loads':
            return simpleion.loads(source, catalog=catalog, single_value=False)
        return simpleion.load(source, catalog=catalog, single_value=False)
    except Exception as e:
        return None


def same(h, a, b, label):
    h.check(type(a) is type(b), label + ': class')
    h.check(a.ion_type is b.ion_type, label + ': type')
    h.check(len(a.ion_annotations) == len(b.ion_annotations), label + ': annotations')
    for i in range(len(a.ion_annotations)):
        token(h, a.ion_annotations[i], b.ion_annotations[i], label + ': annotation')
    t = a.ion_type
    if t is IonType.LIST or t is IonType.SEXP:
        if hasattr(a, 'append'):
            h.check(len(a) == len(b), label + ': size')
            for i in range(len(a)):
                same(h, a[i], b[i], label)
    elif t is IonType.STRUCT:
        if hasattr(a, 'items'):
            x, y = list(a.items()), list(b.items())
            h.check(len(x) == len(y), label + ': size')
            for i in range(len(x)):
                h.check(x[i][0] == y[i][0], label + ': field')
                same(h, x[i][1], y[i][1], label)
    elif type(a).__name__ == 'IonPyNull':
        return
    elif t is IonType.SYMBOL:
        token(h, a, b, label + ': symbol')
    elif t is IonType.FLOAT:
        h.check(h.same_float(a, b), label + ': float')
    elif t is IonType.DECIMAL:
        h.check(h.eq(h.dec_parts(a), h.dec_parts(b)), label + ': decimal')
    elif t is IonType.TIMESTAMP:
        h.check(same_time(h, a, b), label + ': timestamp')
    else:
        h.check(a == b, label + ': value')


def token(h, a, b, label):
    h.check((a.text is None) == (b.text is None), label)
    if a.text is not None:
        h.check(a.text == b.text, label)
    else:
        h.check(a.sid == b.sid, label)


def agree(h, a, b, label):
    h.check((a is None) == (b is None), label + ': read or not')
    if a is None:
        h.reached('bad')
        return
    h.check(len(a) == len(b), label + ': number of values')
    for i in range(len(a)):
        same(h, a[i], b[i], label)
    h.reached('ok')


def utf8(h, n, before=u'"', after=u'"', lo=0, hi=255, lo2=0, hi2=255, pieces=0):
    """n octets in a text: the characters they encode, or refused. pieces: read from a file in that many reads."""
    els = [h.int('b%d' % i, lo if i == 0 else lo2 if i == 1 else 0, hi if i == 0 else hi2 if i == 1 else 255)
           for i in range(n)]
    a, b = before.encode('utf-8'), after.encode('utf-8')
    data = a + bytes(els) + b
    h.observe('octets', data)
    if pieces:
        got = attempt(h, Pieces(data, cut(h, data, pieces, len(a))), 'load')
    else:
        got = attempt(h, data)
    try:
        chars = Octets(h, []).text(els)[1]
    except Bad:
        h.check(got is None, 'malformed octets accepted')
        h.reached('bad')
        return
    want = attempt(h, before + u''.join([chr(c) for c in chars]) + after)
    agree(h, want, got, 'octets')


def cut(h, data, parts, lo):
    """The places of parts - 1 cuts, anywhere from lo on."""
    at = []
    for i in range(parts - 1):
        at.append(h.choice('cut%d' % i, range(max(lo, (at or [0])[-1] + 1), len(data) - parts + i + 2)))
    return at


def text(h, n, before=u'', after=u'', kind='octets', hi=0x10ffff, pieces=2):
    """A str, its UTF-8 octets, a text file and a binary file say the same."""
    s = before + h.str('s', n, 0, hi) + after
    h.observe('text', s)
    want = attempt(h, s)
    if kind == 'octets':
        got = attempt(h, s.encode('utf-8'))
    elif kind == 'file':
        got = attempt(h, BytesIO(s.encode('utf-8')), 'load')
    elif kind == 'text file':
        got = attempt(h, StringIO(s), 'load')
    else:
        data = s.encode('utf-8')
        h.assume(len(data) >= pieces)
        got = attempt(h, Pieces(data, cut(h, data, pieces, 1)), 'load')
    agree(h, want, got, kind)


def binary(h, doc, n=1, pieces=2, lo=1):
    """Binary octets from a file read in pieces and at once say the same."""
    a, b = BINARY[doc]
    data = a + bytes([h.int('b%d' % i, 0, 255) for i in range(n)]) + b
    want = attempt(h, data)
    got = attempt(h, Pieces(data, cut(h, data, pieces, lo)), 'load')
    agree(h, want, got, 'pieces')


def position(h, doc, kind, n=1, m=1):
    """What is before the position of a file is not read, and what is after it is."""
    a, b = BINARY[doc] if doc in BINARY else TEXT[doc]
    skipped = h.bytes('skipped', m)
    data = skipped + a + bytes([h.int('b%d' % i, 0, 255 if doc in BINARY else 127) for i in range(n)]) + b
    want = attempt(h, data[m:])
    if kind == 'file':
        f = BytesIO(data)
        f.seek(m)
    elif kind == 'text file':
        f = StringIO(data[m:].decode('ascii'))
        f = StringIO(skipped.decode('latin-1') + data[m:].decode('ascii'))
        f.seek(m)
    else:
        f = Pieces(data, [h.choice('cut', range(1, len(data)))], m)
    agree(h, want, attempt(h, f, 'load'), kind)


IVM = b'\xe0\x01\x00\xea'
BINARY = {
    'any': (IVM, b''),
    'list': (IVM + b'\xb7\x21', b'\x84abcd\x20'),
    'nested': (IVM + b'\xb5\xb1', b'\xb2\x20\x20\xb0'),
    'table': (IVM + b'\xea\x81\x83\xd7\x87\xb5\x82a', b'\x81c\x71\x0a\x71\x0b'),
}
TEXT = {'number': (b'12', b''), 'string': (b'"a', b'"'), 'marker': (b'$ion_1_0 ', b' a')}
