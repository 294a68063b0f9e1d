"""The binary reader against an independent reading of the Ion 1.0 binary format."""
from amazon.ion.core import IonEventType, IonType, TimestampPrecision
from amazon.ion.exceptions import IonException
from amazon.ion.reader import BufferQueue, NEXT_EVENT, SKIP_EVENT, read_data_event
from amazon.ion.reader_binary import raw_reader
from harness.events import read_all

IVM = b'\xe0\x01\x00\xea'


class Bad(Exception):
    pass


class Short(Exception):
    pass


class Unclear(Exception):
    """The format does not say (5E 80: a decimal whose length 0 is spelt out)."""


_TYPES = [IonType.NULL, IonType.BOOL, IonType.INT, IonType.INT, IonType.FLOAT, IonType.DECIMAL, IonType.TIMESTAMP,
          IonType.SYMBOL, IonType.STRING, IonType.CLOB, IonType.BLOB, IonType.LIST, IonType.SEXP, IonType.STRUCT]


class Ref(object):
    """Reads values off octets; the result is a list of (kind, ion_type, payload, field sid, annotation sids, depth)."""

    def __init__(self, h, octets):
        self.h = h
        self.d = octets
        self.i = 0
        self.out = []

    def octet(self, limit):
        if limit is not None and self.i >= limit:
            raise Bad('overrun')
        if self.i >= len(self.d):
            raise Short()
        self.i += 1
        return self.d[self.i - 1]

    def take(self, n, limit):
        if limit is not None and self.i + n > limit:
            raise Bad('overrun')
        if self.i + n > len(self.d):
            raise Short()
        self.i += n
        return self.d[self.i - n:self.i]

    def varuint(self, limit):
        v = 0
        while True:
            b = self.octet(limit)
            v = (v << 7) | (b & 0x7f)
            if b & 0x80:
                return v

    def stream(self):
        while self.i < len(self.d):
            self.value(None, None, (), 0, True)

    def value(self, limit, field, anns, depth, top=False):
        """Returns False for padding."""
        h = self.h
        t = self.octet(limit)
        tid, ln = t >> 4, t & 15
        if t == 0xe0:
            if not top or anns:
                raise Bad('version marker inside a value')
            rest = self.take(3, limit)
            if not (rest[0] == 1 and rest[1] == 0 and rest[2] == 0xea):
                raise Bad('version')
            self.out.append(('ivm', None, None, None, (), 0))
            return False
        if tid == 15:
            raise Bad('reserved')
        if tid == 14:
            if ln == 15 or ln < 3:
                raise Bad('reserved')
            if anns:
                raise Bad('nested wrapper')
            n = self.varuint(limit) if ln == 14 else ln
            n = int(n)
            end = self.i + n
            if limit is not None and end > limit:
                raise Bad('overrun')
            al = int(self.varuint(end))
            if al == 0:
                raise Bad('no annotations')
            aend = self.i + al
            if aend > end:
                raise Bad('overrun')
            sids = []
            while self.i < aend:
                sids.append(self.varuint(aend))
            if self.i >= end:
                raise Bad('nothing annotated')
            if not self.value(end, field, tuple(sids), depth):
                raise Bad('padding annotated')
            if self.i != end:
                raise Bad('wrapper length')
            return True
        typ = _TYPES[int(tid)]
        if ln == 15:
            self.scalar(typ, None, field, anns, depth)
            return True
        if tid == 1:
            if ln > 1:
                raise Bad('bool')
            self.scalar(typ, ln == 1, field, anns, depth)
            return True
        if tid == 4:
            if not (ln == 0 or ln == 4 or ln == 8):
                raise Bad('float')
        if tid == 13 and ln == 1:
            n = int(self.varuint(limit))
            if n == 0:
                raise Bad('empty ordered struct')
        elif ln == 14:
            n = int(self.varuint(limit))
        else:
            n = int(ln)
        long = bool(ln == 14)
        end = self.i + n
        if limit is not None and end > limit:
            raise Bad('overrun')
        if tid == 0:
            self.take(n, limit)
            return False
        if tid >= 11:
            self.out.append(('start', typ, None, field, anns, depth))
            while self.i < end:
                f = self.varuint(end) if tid == 13 else None
                self.value(end, f, (), depth + 1)
            if self.i != end:
                raise Bad('overrun')
            self.out.append(('end', typ, None, None, (), depth))
            return True
        body = self.take(n, limit)
        v = self.body(int(tid), body, long)
        self.scalar(typ, v, field, anns, depth)
        return True

    def scalar(self, typ, v, field, anns, depth):
        self.out.append(('scalar', typ, v, field, anns, depth))

    def magnitude(self, body):
        v = 0
        for b in body:
            v = (v << 8) | b
        return v

    def varint(self, body, i):
        """(negative, magnitude, next index)"""
        if i >= len(body):
            raise Bad('varint')
        b = body[i]
        i += 1
        neg = (b & 0x40) != 0
        v = b & 0x3f
        while not (b & 0x80):
            if i >= len(body):
                raise Bad('varint')
            b = body[i]
            i += 1
            v = (v << 7) | (b & 0x7f)
        return neg, v, i

    def uvar(self, body, i):
        v = 0
        while True:
            if i >= len(body):
                raise Bad('varuint')
            b = body[i]
            i += 1
            v = (v << 7) | (b & 0x7f)
            if b & 0x80:
                return v, i

    def dec(self, body, i):
        """(sign, coefficient, exponent)"""
        neg, e, i = self.varint(body, i)
        e = self.h.ite(neg, -e, e)
        if i == len(body):
            return (0, 0, e)
        sign = self.h.ite((body[i] & 0x80) != 0, 1, 0)
        c = body[i] & 0x7f
        for b in body[i + 1:]:
            c = (c << 8) | b
        return (sign, c, e)

    def body(self, tid, body, long):
        h = self.h
        n = len(body)
        if tid == 2 or tid == 3:
            m = self.magnitude(body)
            if tid == 3 and m == 0:
                raise Bad('negative zero')
            return -m if tid == 3 else m
        if tid == 4:
            return ('float', body)
        if tid == 5:
            if n == 0:
                if long:
                    raise Unclear()
                return (0, 0, 0)
            return self.dec(body, 0)
        if tid == 6:
            return self.timestamp(body)
        if tid == 7:
            return self.magnitude(body)
        if tid == 8:
            return self.text(body)
        return body

    def timestamp(self, body):
        neg, off, i = self.varint(body, 0)
        unknown = False
        if neg:
            if off == 0:
                unknown = True
            off = -off
        if off <= -1440 or off >= 1440:
            raise Bad('offset')
        n = len(body)
        f = []
        y, i = self.uvar(body, i)
        if y < 1 or y > 9999:
            raise Bad('year')
        f.append(y)
        lim = ((1, 12), (1, 31), (0, 23), (0, 59), (0, 59))
        for k in range(5):
            if i == n:
                if k == 3:
                    raise Bad('hour without minute')
                break
            v, i = self.uvar(body, i)
            if v < lim[k][0] or v > lim[k][1]:
                raise Bad('field')
            f.append(v)
        if len(f) >= 3:
            y, m, d = f[:3]
            if m == 2:
                if d > 29:
                    raise Bad('day')
                if d == 29:
                    if y % 4 != 0:
                        raise Bad('day')
                    if y % 100 == 0:
                        if y % 400 != 0:
                            raise Bad('day')
            elif d == 31:
                if m == 4 or m == 6 or m == 9 or m == 11:
                    raise Bad('day')
        frac = None
        if i < n:
            sign, c, e = self.dec(body, i)
            if e >= 0:
                if c != 0:
                    raise Bad('fraction')
            else:
                if sign == 1:
                    if c != 0:
                        raise Bad('negative fraction')
                if c >= 10 ** int(-e):
                    raise Bad('fraction')
                frac = (c, e)
        return ('ts', f, None if unknown else off, frac)

    def text(self, body):
        """Code points of UTF-8 octets."""
        out = []
        i = 0
        while i < len(body):
            b = body[i]
            if b < 0x80:
                out.append(b)
                i += 1
                continue
            if b < 0xc2 or b > 0xf4:
                raise Bad('utf-8')
            k = 1 if b < 0xe0 else 2 if b < 0xf0 else 3
            if i + k >= len(body):
                raise Bad('utf-8')
            c = b & (0x3f >> k)
            for j in range(1, k + 1):
                x = body[i + j]
                if (x & 0xc0) != 0x80:
                    raise Bad('utf-8')
                c = (c << 6) | (x & 0x3f)
            if k == 2 and (c < 0x800 or (c >= 0xd800 and c <= 0xdfff)):
                raise Bad('utf-8')
            if k == 3 and (c < 0x10000 or c > 0x10ffff):
                raise Bad('utf-8')
            out.append(c)
            i += k + 1
        return ('text', out)


_KIND = {'scalar': IonEventType.SCALAR, 'start': IonEventType.CONTAINER_START, 'end': IonEventType.CONTAINER_END,
         'ivm': IonEventType.VERSION_MARKER}
_PRECISION = {1: TimestampPrecision.YEAR, 2: TimestampPrecision.MONTH, 3: TimestampPrecision.DAY,
              5: TimestampPrecision.MINUTE, 6: TimestampPrecision.SECOND}


def check_value(h, typ, got, want):
    if want is None:
        h.check(got is None, 'null')
    elif typ is IonType.BOOL:
        h.check(isinstance(got, bool), 'bool type')
        h.check(got == want, 'bool')
    elif typ is IonType.INT:
        h.check(got == want, 'int')
    elif typ is IonType.FLOAT:
        body = want[1]
        if len(body) == 0:
            h.check(h.float_bits(got) == 0, 'float zero')
        elif len(body) == 8:
            v = 0
            for b in body:
                v = (v << 8) | b
            h.check(h.same_float(got, h.from_bits(v)), 'float')
        else:
            v = 0
            for b in body:
                v = (v << 8) | b
            h.check(h.same_float(got, h.widen(v)), 'float32')
    elif typ is IonType.DECIMAL:
        s, c, e = h.dec_parts(got)
        h.check_each([e == want[2], c == want[1], s == want[0]], 'decimal')
    elif typ is IonType.TIMESTAMP:
        check_timestamp(h, got, want)
    elif typ is IonType.SYMBOL:
        h.check(got.text is None, 'symbol text')
        h.check(got.sid == want, 'symbol')
    elif typ is IonType.STRING:
        want = want[1]
        h.check(len(got) == len(want), 'string length')
        h.check(h.all([ord(got[i]) == want[i] for i in range(len(want))]), 'string')
    else:
        h.check(len(got) == len(want), 'lob length')
        h.check(h.all([got[i] == want[i] for i in range(len(want))]), 'lob')


def check_timestamp(h, got, want):
    _, f, off, frac = want
    h.check(got.precision == _PRECISION[len(f)], 'timestamp precision')
    if off is None:
        h.check(got.tzinfo is None, 'offset')
        utc = got
    else:
        h.check(got.tzinfo is not None, 'offset')
        o = got.utcoffset()
        h.check(o.days * 1440 + o.seconds // 60 == off, 'offset')
        utc = got - o
    f = f + [1, 1, 0, 0, 0][len(f) - 1:]
    h.check_each([utc.second == f[5], utc.minute == f[4], utc.hour == f[3], utc.day == f[2], utc.month == f[1],
                  utc.year == f[0]], 'timestamp fields')
    s, c, e = h.dec_parts(got.fractional_seconds)
    if frac is None:
        h.check(h.all([c == 0, e == 0]), 'fraction')
    else:
        h.check(h.all([c == frac[0], e == frac[1]]), 'fraction')


def compare(h, octets, got):
    ref = Ref(h, octets)
    try:
        ref.stream()
        how = 'ok'
    except Bad as e:
        how = 'bad'
    except Short:
        how = 'short'
    except Unclear:
        return
    if how != 'ok':
        h.check(got.how != 'end', 'malformed octets accepted')
        h.reached(how)
        return
    if got.how == 'error':
        # the earliest year-end instants have no local datetime
        for x in ref.out:
            if x[1] is IonType.TIMESTAMP and x[2] is not None and isinstance(got.exc, OverflowError):
                h.check(h.any([x[2][1][0] == 1, x[2][1][0] == 9999]), 'overflow')
                h.reached('overflow')
                return
        h.fail('well-formed octets rejected')
    h.check(got.how == 'end', 'well-formed octets incomplete')
    evs = got.events
    h.check(len(evs) == len(ref.out) + 1, 'number of events')
    for k in range(len(ref.out)):
        kind, typ, v, field, anns, depth = ref.out[k]
        e = evs[k + 1]
        h.check(e[0] is _KIND[kind], 'event')
        h.check(e[5] == depth, 'depth')
        if kind == 'ivm':
            continue
        h.check(e[1] is typ, 'type')
        if kind == 'end':
            continue
        if field is None:
            h.check(e[3] is None, 'field')
        else:
            h.check(e[3] is not None, 'field')
            h.check(e[3].sid == field, 'field')
        h.check(len(e[4]) == len(anns), 'annotations')
        h.check(h.all([e[4][i].sid == anns[i] for i in range(len(anns))]), 'annotations')
        if kind == 'scalar':
            check_value(h, typ, e[2], v)
    h.reached('ok')


def octets(h, n, lo=0, hi=255, fixed=(), lo2=0, hi2=255, lo3=0, hi3=255):
    """fixed octets, then one in lo..hi, one in lo2..hi2, one in lo3..hi3, then any."""
    els = list(fixed)
    if n > 0:
        els.append(h.int('b0', lo, hi))
    if n > 1:
        els.append(h.int('b1', lo2, hi2))
    if n > 2:
        els.append(h.int('b2', lo3, hi3))
    for i in range(3, n):
        els.append(h.int('b%d' % i, 0, 255))
    data = IVM + bytes(els)
    got = read_all(raw_reader(), data)
    compare(h, els, got)


def skipped(h, outer, n, lo=0, hi=255, fixed=(), lo2=0, hi2=255):
    """A container of the type and length of the octet outer, holding the fixed octets and any n, of which the rest is
    skipped after some event: if its end is reported, that is just behind its last octet."""
    els = list(fixed)
    if n > 0:
        els.append(h.int('b0', lo, hi))
    if n > 1:
        els.append(h.int('b1', lo2, hi2))
    for i in range(2, n):
        els.append(h.int('b%d' % i, 0, 255))
    data = IVM + bytes([outer] + els)
    at = h.choice('at', range(2, 7))
    queue = BufferQueue()
    reader = raw_reader(queue)
    end = 5 + (outer & 15)
    try:
        e = reader.send(NEXT_EVENT)
        h.check(e.event_type is IonEventType.STREAM_END, 'start')
        e = reader.send(read_data_event(data))
        k = 1
        while not e.event_type.is_stream_signal:
            if e.event_type is IonEventType.CONTAINER_END and e.depth == 0:
                h.check(queue.position == end, 'end of the container')
                h.check(len(queue) == len(data) - end, 'what remains')
                rest = queue.read(len(data) - end)
                h.check(h.all([rest[i] == data[end + i] for i in range(len(data) - end)]), 'what remains')
                h.reached('end')
                return
            e = reader.send(SKIP_EVENT if k == at else NEXT_EVENT)
            k += 1
        h.check(e.event_type is IonEventType.INCOMPLETE, 'the container ends')
        h.reached('incomplete')
    except (IonException, ValueError, TypeError):
        h.reached('error')


EDITED = [
    'd7 84 b2 21 07 85 21 08',                              # struct with a list
    'd1 85 84 21 01 85 0f',                                 # ordered struct
    'de 87 84 b2 20 21 85 86 11',                           # lengths that run over
    'e6 82 84 85 b2 21 01 11',                              # annotated list
    'e5 81 84 d2 84 20 20',                                 # annotated struct
    'b6 e4 81 84 21 05 0f',                                 # wrapper in a list
    'be 87 c2 e3 81 84 11 21 01',                           # wrapper in a sexp
    '01 00 0e 81 00 02 55 55 11',                           # padding
    'b5 01 00 20 00 11',                                    # padding in a list
    'd6 80 01 00 84 01 00',                                 # padding in a struct
    '66 80 0f d0 81 81 80',                                 # timestamps
    '69 80 0f d0 82 83 84 85 86 87',
    '6c 43 a4 0f d0 82 83 84 85 86 c2 01 02',
    '67 c0 0f d0 82 83 97 bb 11',
    '52 c1 05 53 42 81 05 51 c3 50',                        # decimals
    '48 40 00 00 00 00 00 00 00 44 3f 80 00 00 40',         # floats
    '22 01 00 31 05 2e 81 09 3e 82 01 02',                  # ints
    '83 61 c3 a9 8e 81 62 80 71 0a 72 01 00 70',            # strings and symbols
    '92 61 62 a1 ff 9e 81 41 ae 80',                        # lobs
    'e0 01 00 ea 11 e0 01 00 ea 10',                        # version markers
    'b3 b2 b1 0f c1 b0',                                    # nesting
    'd5 84 d3 84 b1 11',
    'd8 84 e4 81 84 21 07 85 10',                           # annotated field
    'bf cf df 8f 0f 1f',                                    # nulls
    'b4 d1 82 80 0f 10',
]


def edited(h, doc, replace=1, n=1):
    """A document with n other octets in place of `replace` ones, at any place."""
    els = [int(x, 16) for x in EDITED[doc].split()]
    at = h.choice('at', range(len(els) + 1 - replace))
    els = els[:at] + [h.int('b%d' % i, 0, 255) for i in range(n)] + els[at + replace:]
    got = read_all(raw_reader(), IVM + bytes(els))
    compare(h, els, got)
