"""Symbolic values: proxies for int, bool, float, str, bytes, bytearray and dict.

Integers are mathematical (never wrap): each carries an interval [lo, hi] and a z3 bit-vector just
wide enough for it.  Strings and byte strings have a concrete length and integer elements, plus
(SBlob chunks) regions of opaque content whose length may be symbolic.
"""
import z3
from .engine import ENGINE as E, PathAbort

BV = z3.BitVecVal


def width_of(lo, hi):
    """Bits of a two's complement representation containing lo..hi."""
    w = hi.bit_length() + 1 if hi >= 0 else 1
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    return w


def _fit(e, w, nonneg=False):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.ZeroExt(w - s, e) if nonneg else z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


def mk_int(e, lo, hi):
    """The int with term e (two's complement, any width holding lo..hi)."""
    if lo == hi:
        return lo
    w = width_of(lo, hi)
    if e.size() != w:
        e = _fit(e, w, lo >= 0)
    return SInt(e, lo, hi)


def to_term(x, w):
    if type(x) is int or not isinstance(x, SInt):
        return BV(int(x), w)
    return _fit(x.e, w, x.lo >= 0)


def is_intlike(x):
    return isinstance(x, (int, SInt, SBool))


def as_int(x):
    """int | SInt view of an int-like value."""
    if type(x) is int:
        return x
    if isinstance(x, SBool):
        return x.as_sint()
    if isinstance(x, SInt):
        return x
    if isinstance(x, int):
        return int(x)
    raise TypeError(x)


def bounds(x):
    if isinstance(x, SInt):
        return x.lo, x.hi
    return x, x


def mk_bool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def b_term(x):
    """z3 Bool of a bool | SBool."""
    if isinstance(x, SBool):
        return x.e
    return z3.BoolVal(bool(x))


def b_and(xs):
    es = []
    for x in xs:
        if isinstance(x, SBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    if len(es) == 1:
        return SBool(es[0])
    return SBool(z3.And(es))


def b_or(xs):
    es = []
    for x in xs:
        if isinstance(x, SBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    if len(es) == 1:
        return SBool(es[0])
    return SBool(z3.Or(es))


def b_not(x):
    if isinstance(x, SBool):
        return mk_bool(z3.Not(x.e))
    return not x


class Sym(object):
    """Base of all proxies."""
    __slots__ = ()
    PYTYPE = object

    def __deepcopy__(self, memo):
        return self


class SBool(Sym):
    __slots__ = ('e',)
    PYTYPE = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.decide(self.e)

    def as_sint(self):
        return SInt(z3.If(self.e, BV(1, 2), BV(0, 2)), 0, 1)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return b_and([self, o])
        return self.as_sint() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return b_or([self, o])
        return self.as_sint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(z3.simplify(z3.Xor(self.e, b_term(o))))
        return self.as_sint() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(z3.simplify(self.e == b_term(o)))
        return self.as_sint() == o

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return 'SBool(%s)' % (self.e,)


def _delegate_bool(name):
    def op(self, *a):
        return getattr(self.as_sint(), name)(*a)
    op.__name__ = name
    return op


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__',
           '__ge__', '__lshift__', '__rlshift__', '__rshift__', '__rrshift__', '__neg__', '__pos__', '__abs__',
           '__floordiv__', '__rfloordiv__', '__mod__', '__rmod__', '__divmod__', '__rdivmod__', '__invert__',
           '__truediv__', '__rtruediv__', '__pow__', '__rpow__', '__float__', 'bit_length'):
    setattr(SBool, _n, _delegate_bool(_n))


class SInt(Sym):
    __slots__ = ('e', 'lo', 'hi')
    PYTYPE = int

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    # ---- arithmetic
    def _bin(self, o, f):
        if type(o) is int or isinstance(o, SInt):
            return f(self, o)
        if isinstance(o, (int, SBool)):
            return f(self, as_int(o))
        return NotImplemented

    def _rbin(self, o, f):
        if type(o) is int or isinstance(o, SInt):
            return f(o, self)
        if isinstance(o, (int, SBool)):
            return f(as_int(o), self)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, i_add)

    def __radd__(self, o):
        return self._rbin(o, i_add)

    def __sub__(self, o):
        return self._bin(o, i_sub)

    def __rsub__(self, o):
        return self._rbin(o, i_sub)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, bytearray, list, tuple)):
            return o * self.__index__()
        return self._bin(o, i_mul)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, bytearray, list, tuple)):
            return o * self.__index__()
        return self._rbin(o, i_mul)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: i_divmod(a, b)[0])

    def __rfloordiv__(self, o):
        return self._rbin(o, lambda a, b: i_divmod(a, b)[0])

    def __mod__(self, o):
        return self._bin(o, lambda a, b: i_divmod(a, b)[1])

    def __rmod__(self, o):
        return self._rbin(o, lambda a, b: i_divmod(a, b)[1])

    def __divmod__(self, o):
        return self._bin(o, i_divmod)

    def __rdivmod__(self, o):
        return self._rbin(o, i_divmod)

    def __truediv__(self, o):
        return self._bin(o, i_truediv)

    def __rtruediv__(self, o):
        return self._rbin(o, i_truediv)

    def __pow__(self, o, m=None):
        if isinstance(o, SInt):
            o = o.__index__()
        if m is not None:
            return pow(self.__index__(), int(o), int(m))
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            return pow(self.__index__(), o)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o, m=None):
        return pow(o, self.__index__())

    def __and__(self, o):
        return self._bin(o, i_and)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, i_or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, i_xor)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self._bin(o, i_shl)

    def __rlshift__(self, o):
        return self._rbin(o, i_shl)

    def __rshift__(self, o):
        return self._bin(o, i_shr)

    def __rrshift__(self, o):
        return self._rbin(o, i_shr)

    def __neg__(self):
        return i_sub(0, self)

    def __pos__(self):
        return self

    def __invert__(self):
        return mk_int(~self.e, ~self.hi, ~self.lo)

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = width_of(-hi, hi)
        e = _fit(self.e, w)
        return mk_int(z3.If(e < 0, -e, e), 0, hi)

    # ---- comparison
    def __eq__(self, o):
        return self._cmp(o, i_eq, False)

    def __ne__(self, o):
        r = self._cmp(o, i_eq, False)
        return r if r is NotImplemented else b_not(r)

    def __lt__(self, o):
        return self._cmp(o, i_lt)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: i_lt(b, a))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: b_not(i_lt(b, a)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: b_not(i_lt(a, b)))

    def _cmp(self, o, f, default=None):
        if type(o) is int or isinstance(o, SInt):
            return f(self, o)
        if isinstance(o, (int, SBool)):
            return f(self, as_int(o))
        if isinstance(o, float):
            if o != o:
                return False
            if o in (float('inf'), float('-inf')):
                return f(0, 1 if o > 0 else -1)
            if o == int(o):
                return f(self, int(o))
            fl = int(o // 1)
            if f is i_eq:
                return False
            return f(self, fl) | b_not(f(fl + 1, self)) if False else f(2 * self, 2 * fl + 1)
        return NotImplemented

    def __bool__(self):
        return bool(b_not(i_eq(self, 0)))

    # ---- conversions
    def __index__(self):
        return E.enumerate_value(self.e, lambda v: v.as_signed_long(), what='int')
    __int__ = __index__

    def __trunc__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SInt):
            return a.bit_length()
        n = a.hi.bit_length()
        w = width_of(0, n)
        e = BV(0, w)
        for i in range(n):
            e = z3.If(z3.Extract(i, i, a.e) == 1, BV(i + 1, w), e)
        return mk_int(e, a.lo.bit_length(), n)

    def to_bytes(self, length=1, byteorder='big', signed=False, **kw):
        length = int(length)
        if signed:
            lo, hi = -(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) - 1 if length else 0
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        if self < lo or self > hi:
            raise OverflowError('int too big to convert')
        els = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == 'big':
            els.reverse()
        return mk_bytes(els)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def __repr__(self):
        return 'SInt(%s..%s)' % (self.lo, self.hi)
    # '%d' % SInt inside C formatting would call __index__; str()/format() go through rt.


def i_add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    lo, hi = al + bl, ah + bh
    w = max(width_of(lo, hi), width_of(min(al, bl), max(ah, bh)))
    r = mk_int(to_term(a, w) + to_term(b, w), lo, hi)
    if type(b) is int and b == 1 and al >= 0:
        els = E.defs.get(('digits', a.e.get_id(), a.e.size(), len(str(ah)), True))
        if els is not None:
            # the successor of a number with known digits
            E.defs[('succ', r.e.get_id(), r.e.size())] = els
            E.keep.append((r, els))
    return r


def i_sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    if type(b) is int and b == 0:
        return a
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    lo, hi = al - bh, ah - bl
    w = max(width_of(lo, hi), width_of(min(al, bl), max(ah, bh)))
    return mk_int(to_term(a, w) - to_term(b, w), lo, hi)


def i_mul(a, b):
    if type(a) is int and type(b) is int:
        return a * b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b > 0 and b & (b - 1) == 0:
            return i_shl(a, b.bit_length() - 1)
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(ps), max(ps)
    w = max(width_of(lo, hi), width_of(min(al, bl), max(ah, bh)))
    r = mk_int(to_term(a, w) * to_term(b, w), lo, hi)
    if type(b) is int and b % 10 == 0 and b in _POW10 and type(r) is SInt:
        E.defs[('pow10', r.e.get_id(), r.e.size())] = (a, _POW10[b])
        E.keep.append((r.e, a))
    return r


_POW10 = dict((10 ** k, k) for k in range(1, 400))


def i_divmod(a, b):
    if type(a) is int and type(b) is int:
        return divmod(a, b)
    if not isinstance(b, int):
        b = b.__index__()       # symbolic divisor: enumerate
        return divmod(a, b)
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        q, r = i_divmod(-a, -b)
        return q, -r
    if b == 1:
        return a, 0
    if a.lo // b == a.hi // b:
        q = a.lo // b
        return q, a - q * b
    if b & (b - 1) == 0:
        k = b.bit_length() - 1
        return i_shr(a, k), i_and(a, b - 1)
    key = ('divmod', a.e.get_id(), b, a.e.size())
    got = E.defs.get(key)
    if got is not None:
        return got
    E.keep.append(a.e)
    got = E.known_equal(('divmod', b), a, lambda x, y: b_term(i_eq(x, y)))
    if got is not None:
        E.defs[key] = got
        return got
    ql, qh = a.lo // b, a.hi // b
    q = mk_int(E.fresh('q', width_of(ql, qh)), ql, qh)
    rw = width_of(0, b - 1)
    r = mk_int(E.fresh('r', rw), 0, b - 1)
    w = width_of(min(a.lo, ql * b), max(a.hi, qh * b + b))
    E.assert_axiom(z3.And(to_term(q, w) * BV(b, w) + to_term(r, w) == to_term(a, w),
                          q.e >= ql, q.e <= qh, r.e >= 0, r.e <= b - 1))
    E.defs[key] = (q, r)
    E.remember(('divmod', b), a, (q, r))
    return q, r


def i_truediv(a, b):
    # exact only when the quotient is integral; otherwise by enumeration
    return int(a) / int(b)


def _pow2_ceil(x):
    return (1 << x.bit_length()) - 1


def i_and(a, b):
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if type(b) is int:
        if b == 0:
            return 0
        if b > 0 and b & (b + 1) == 0 and al >= 0 and ah <= b:
            return a
        if b > 0 and b & (b + 1) == 0:
            # low bits mask
            k = b.bit_length()
            if k < a.e.size():
                e = z3.Extract(k - 1, 0, a.e)
            else:
                e = _fit(a.e, k, al >= 0)
            return mk_int(z3.ZeroExt(1, e), 0, b)
    if al >= 0 and bl >= 0:
        lo, hi = 0, min(ah, bh)
    elif al >= 0:
        lo, hi = 0, ah
    elif bl >= 0:
        lo, hi = 0, bh
    else:
        w = max(width_of(al, ah), width_of(bl, bh))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    w = max(width_of(al, ah), width_of(bl, bh))
    return mk_int(to_term(a, w) & to_term(b, w), lo, hi)


def i_or(a, b):
    if type(a) is int and type(b) is int:
        return a | b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    w = max(width_of(al, ah), width_of(bl, bh))
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    if al >= 0 and bl >= 0:
        lo, hi = max(al, bl), _pow2_ceil(max(ah, bh))
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk_int(to_term(a, w) | to_term(b, w), lo, hi)


def i_xor(a, b):
    if type(a) is int and type(b) is int:
        return a ^ b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    w = max(width_of(al, ah), width_of(bl, bh))
    if al >= 0 and bl >= 0:
        lo, hi = 0, _pow2_ceil(max(ah, bh))
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk_int(to_term(a, w) ^ to_term(b, w), lo, hi)


def i_shl(a, k):
    if isinstance(k, SInt):
        if k < 0:
            raise ValueError('negative shift count')
        k = k.__index__()
    if k < 0:
        raise ValueError('negative shift count')
    if type(a) is int:
        return a << k
    if k == 0:
        return a
    return mk_int(z3.Concat(a.e, BV(0, k)), a.lo << k, a.hi << k)


def i_shr(a, k):
    if isinstance(k, SInt):
        if k < 0:
            raise ValueError('negative shift count')
        if isinstance(a, int) and a == 0:
            return 0
        k = k.__index__()
    if k < 0:
        raise ValueError('negative shift count')
    if type(a) is int:
        return a >> k
    if k == 0:
        return a
    lo, hi = a.lo >> k, a.hi >> k
    if lo == hi:
        return lo
    # Shifted out altogether, the sign is left.
    return mk_int(z3.Extract(a.e.size() - 1, min(k, a.e.size() - 1), a.e), lo, hi)


def i_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if ah < bl or bh < al:
        return False
    w = max(width_of(al, ah), width_of(bl, bh))
    return mk_bool(to_term(a, w) == to_term(b, w))


def i_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if ah < bl:
        return True
    if al >= bh:
        return False
    w = max(width_of(al, ah), width_of(bl, bh))
    return mk_bool(to_term(a, w) < to_term(b, w))


def i_ite(c, a, b):
    """a if c else b without forking."""
    if not isinstance(c, SBool):
        return a if c else b
    if type(a) is int and type(b) is int and a == b:
        return a
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = width_of(lo, hi)
    return mk_int(z3.If(c.e, to_term(a, w), to_term(b, w)), lo, hi)


def sym_int(name, lo, hi):
    """A fresh unconstrained input in lo..hi."""
    if lo == hi:
        return lo
    w = width_of(lo, hi)
    e = z3.BitVec(name, w)
    x = SInt(e, lo, hi)
    if hi != (1 << (w - 1)) - 1:
        E.assert_axiom(e <= BV(hi, w))
    if lo != -(1 << (w - 1)):
        E.assert_axiom(e >= BV(lo, w))
    return x


# ------------------------------------------------------------------------------------------ float

class SFloat(Sym):
    """A binary64 value given by its bit pattern (64-bit vector)."""
    __slots__ = ('b',)
    PYTYPE = float

    def __init__(self, b):
        self.b = b

    def fp(self):
        return z3.fpBVToFP(self.b, z3.Float64())

    def concrete(self):
        import struct
        raw = E.enumerate_value(self.b, lambda v: v.as_long(), limit=8, what='float')
        return struct.unpack('>d', raw.to_bytes(8, 'big'))[0]

    def is_nan(self):
        return mk_bool(z3.And(z3.Extract(62, 52, self.b) == BV(0x7ff, 11), z3.Extract(51, 0, self.b) != BV(0, 52)))

    def is_inf(self):
        return mk_bool(z3.And(z3.Extract(62, 52, self.b) == BV(0x7ff, 11), z3.Extract(51, 0, self.b) == BV(0, 52)))

    def is_zero(self):
        return mk_bool(z3.Extract(62, 0, self.b) == BV(0, 63))

    def is_integer(self):
        # exact: exponent e (unbiased); fraction bits below the unit must be zero
        ex = z3.Extract(62, 52, self.b)
        frac = z3.Extract(51, 0, self.b)
        conds = []
        # 2^0 <= |x| < 2^52: low 52-e bits of frac are zero
        for k in range(52):
            conds.append(z3.And(ex == BV(1023 + k, 11), z3.Extract(51 - k, 0, frac) == 0))
        conds.append(z3.And(z3.UGE(ex, BV(1023 + 52, 11)), z3.ULT(ex, BV(0x7ff, 11))))
        conds.append(z3.Extract(62, 0, self.b) == BV(0, 63))
        return mk_bool(z3.Or(conds))

    def __eq__(self, o):
        o = sfloat(o)
        if o is None:
            return NotImplemented
        return b_and([b_not(self.is_nan()), b_not(o.is_nan()),
                      b_or([mk_bool(self.b == o.b), b_and([self.is_zero(), o.is_zero()])])])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def _key(self):
        # order-preserving map to signed 64-bit integers (zeros equal), meaningless for NaN
        mag = z3.ZeroExt(1, z3.Extract(62, 0, self.b))
        return z3.If(z3.Extract(63, 63, self.b) == 1, -mag, mag)

    def __lt__(self, o):
        o = sfloat(o)
        if o is None:
            return NotImplemented
        return b_and([b_not(self.is_nan()), b_not(o.is_nan()), mk_bool(self._key() < o._key())])

    def __le__(self, o):
        o = sfloat(o)
        if o is None:
            return NotImplemented
        return b_and([b_not(self.is_nan()), b_not(o.is_nan()), mk_bool(self._key() <= o._key())])

    def __gt__(self, o):
        o = sfloat(o)
        return NotImplemented if o is None else o < self

    def __ge__(self, o):
        o = sfloat(o)
        return NotImplemented if o is None else o <= self

    def __neg__(self):
        return SFloat(self.b ^ BV(1 << 63, 64))

    def __abs__(self):
        return SFloat(self.b & BV((1 << 63) - 1, 64))

    def __pos__(self):
        return self

    def __bool__(self):
        return bool(b_not(self.is_zero()))

    def __hash__(self):
        return hash(self.concrete())

    def __float__(self):
        return self.concrete()

    def __repr__(self):
        return 'SFloat'


def _delegate_float(name):
    def op(self, *a):
        a = [x.concrete() if isinstance(x, SFloat) else x for x in a]
        return getattr(self.concrete(), name)(*a)
    op.__name__ = name
    return op


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
           '__floordiv__', '__mod__', '__int__', 'hex', 'as_integer_ratio', '__trunc__', '__round__', '__pow__'):
    setattr(SFloat, _n, _delegate_float(_n))


def sfloat(x):
    import struct
    if isinstance(x, SFloat):
        return x
    if isinstance(x, (int, float)) and not isinstance(x, Sym):
        return SFloat(BV(int.from_bytes(struct.pack('>d', float(x)), 'big'), 64))
    if isinstance(x, (SInt, SBool)):
        return sfloat(int(x))
    return None


def float_from32(b32):
    """SFloat of a binary32 bit pattern (exact widening, NaN payload shifted as the hardware does)."""
    sign = z3.Extract(31, 31, b32)
    ex = z3.Extract(30, 23, b32)
    fr = z3.Extract(22, 0, b32)
    normal = z3.Concat(sign, z3.ZeroExt(3, ex) + BV(1023 - 127, 11), fr, BV(0, 29))
    special = z3.Concat(sign, BV(0x7ff, 11), fr, BV(0, 29))
    nan = z3.Concat(sign, BV(0x7ff, 11), BV(1, 1), z3.Extract(21, 0, fr), BV(0, 29))
    sub = z3.Concat(sign, BV(0, 63))
    for i in range(23):
        # highest set bit i of fr: value = 2^(i-149) * 1.xxx
        if i:
            rest = z3.Concat(z3.Extract(i - 1, 0, fr), BV(0, 52 - i))
        else:
            rest = BV(0, 52)
        sub = z3.If(z3.Extract(i, i, fr) == 1, z3.Concat(sign, BV(1023 + i - 149, 11), rest), sub)
    b = z3.If(ex == 0, sub, z3.If(ex == 0xff, z3.If(fr == 0, special, nan), normal))
    return SFloat(b)


# -------------------------------------------------------------------------------------- sequences

def concrete_els(els):
    for x in els:
        if type(x) is not int:
            return False
    return True


def els_eq(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
        else:
            r = i_eq(x, y)
            if r is False:
                return False
            if r is not True:
                cs.append(r.e)
    if not cs:
        return True
    return SBool(z3.And(cs) if len(cs) > 1 else cs[0])


def els_lt(a, b, or_equal):
    """Lexicographic order as one term."""
    r = len(a) <= len(b) if or_equal else len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        lt = i_lt(x, y)
        eq = i_eq(x, y)
        r = b_or([lt, b_and([eq, r])])
    return r


class SSeq(Sym):
    """Common part of SStr and SBytes: concrete length, int|SInt elements."""
    __slots__ = ()

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __eq__(self, o):
        oe = self._coerce(o)
        if oe is None:
            return False if not isinstance(o, Sym) or isinstance(o, (SSeq, SInt, SBool)) else NotImplemented
        if len(self) != len(oe):
            return False
        return els_eq(self.els, oe)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def _order(self, o, f):
        oe = self._coerce(o)
        if oe is None:
            return NotImplemented
        return f(self.els, oe)

    def __lt__(self, o):
        return self._order(o, lambda a, b: els_lt(a, b, False))

    def __le__(self, o):
        return self._order(o, lambda a, b: els_lt(a, b, True))

    def __gt__(self, o):
        return self._order(o, lambda a, b: els_lt(b, a, False))

    def __ge__(self, o):
        return self._order(o, lambda a, b: els_lt(b, a, True))

    def __hash__(self):
        return hash(self.concrete())

    def __add__(self, o):
        oe = self._coerce(o)
        if oe is None:
            return NotImplemented if isinstance(o, Sym) else self._typeerr(o)
        return self._mk(tuple(self.els) + tuple(oe))

    def _typeerr(self, o):
        raise TypeError("can't concat %s to %s" % (type(o).__name__, self.PYTYPE.__name__))

    def __radd__(self, o):
        oe = self._coerce(o)
        if oe is None:
            return NotImplemented
        r = tuple(oe) + tuple(self.els)
        if isinstance(o, bytearray):
            return SByteArray(list(r))
        if isinstance(o, bytes):
            return mk_bytes(r)
        return self._mk(r)

    def __mul__(self, n):
        return self._mk(tuple(self.els) * int(n))
    __rmul__ = __mul__

    def _index(self, i):
        n = len(self.els)
        if isinstance(i, (SInt, SBool)):
            i = i.__index__()
        elif not isinstance(i, int):
            i = i.__index__()
        if i < -n or i >= n:
            raise IndexError('%s index out of range' % self.PYTYPE.__name__)
        return self.els[i]

    def _find(self, sub, start=None, end=None, last=False):
        se = self._coerce_sub(sub)
        els = self.els
        n = len(els)
        start, end, _ = slice(start, end).indices(n)
        rng = range(start, end - len(se) + 1)
        if last:
            rng = reversed(rng)
        for i in rng:
            if els_eq(tuple(els[i:i + len(se)]), tuple(se)):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        se = self._coerce_sub(sub)
        start, end, _ = slice(start, end).indices(len(self.els))
        c, i = 0, start
        while i + len(se) <= end:
            if els_eq(tuple(self.els[i:i + len(se)]), tuple(se)):
                c += 1
                i += max(1, len(se))
            else:
                i += 1
        return c

    def __contains__(self, sub):
        se = self._coerce_sub(sub)
        n = len(se)
        return bool(b_or([els_eq(tuple(self.els[i:i + n]), tuple(se)) for i in range(len(self.els) - n + 1)]))

    def startswith(self, p, start=None, end=None):
        els = tuple(self.els)[slice(start, end)]
        if isinstance(p, tuple):
            return b_or([self._mk(els).startswith(x) if els else len(x) == 0 for x in p])
        pe = tuple(self._coerce_sub(p))
        return len(els) >= len(pe) and els_eq(els[:len(pe)], pe)

    def endswith(self, p, start=None, end=None):
        els = tuple(self.els)[slice(start, end)]
        if isinstance(p, tuple):
            return b_or([self._mk(els).endswith(x) if els else len(x) == 0 for x in p])
        pe = tuple(self._coerce_sub(p))
        return len(els) >= len(pe) and els_eq(els[len(els) - len(pe):], pe)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._mk(tuple(self.els)[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self._mk(tuple(self.els)[:-len(p)])
        return self

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out.extend(self.els)
            first = False
            pe = self._coerce(p)
            if pe is None:
                raise TypeError('sequence item: expected %s' % self.PYTYPE.__name__)
            out.extend(pe)
        return self._mk(tuple(out))

    def replace(self, old, new, count=-1):
        oe, ne = tuple(self._coerce_sub(old)), tuple(self._coerce_sub(new))
        if not oe:
            return self._mk(tuple(self._coerce(self.concrete().replace(old, new, count))))
        out, i, els = [], 0, tuple(self.els)
        while i < len(els):
            if count != 0 and i + len(oe) <= len(els) and els_eq(els[i:i + len(oe)], oe):
                out.extend(ne)
                i += len(oe)
                count -= 1
            else:
                out.append(els[i])
                i += 1
        return self._mk(tuple(out))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            parts, cur = [], []
            for x in self.els:
                if self._is_space(x):
                    if cur:
                        parts.append(cur)
                        cur = []
                else:
                    cur.append(x)
            if cur:
                parts.append(cur)
            if maxsplit >= 0 and len(parts) > maxsplit + 1:
                return self.concrete().split(sep, maxsplit)
            return [self._mk(tuple(p)) for p in parts]
        se = tuple(self._coerce_sub(sep))
        parts, cur, i, els = [], [], 0, tuple(self.els)
        while i < len(els):
            if maxsplit != 0 and i + len(se) <= len(els) and els_eq(els[i:i + len(se)], se):
                parts.append(cur)
                cur = []
                i += len(se)
                maxsplit -= 1
            else:
                cur.append(els[i])
                i += 1
        parts.append(cur)
        return [self._mk(tuple(p)) for p in parts]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return self.concrete().rsplit(sep, maxsplit)

    def partition(self, sep):
        i = self._find(sep)
        els = tuple(self.els)
        if i < 0:
            return self._mk(els), self._mk(()), self._mk(())
        n = len(sep)
        return self._mk(els[:i]), self._mk(els[i:i + n]), self._mk(els[i + n:])

    def rpartition(self, sep):
        i = self._find(sep, last=True)
        els = tuple(self.els)
        if i < 0:
            return self._mk(()), self._mk(()), self._mk(els)
        n = len(sep)
        return self._mk(els[:i]), self._mk(els[i:i + n]), self._mk(els[i + n:])

    def _strip(self, chars, left, right):
        els = list(self.els)
        if chars is None:
            test = self._is_space
        else:
            ce = tuple(self._coerce_sub(chars))

            def test(x):
                return bool(b_or([i_eq(x, c) for c in ce]))
        if left:
            while els and test(els[0]):
                els.pop(0)
        if right:
            while els and test(els[-1]):
                els.pop()
        return self._mk(tuple(els))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _is_space(self, x):
        return bool(x == 32) if type(x) is int and False else bool(
            b_or([b_and([i_lt(8, x), i_lt(x, 14)]), i_eq(x, 32)] + (
                [b_and([i_lt(27, x), i_lt(x, 32)])] if self.PYTYPE is str else []) + (
                [i_eq(x, c) for c in (0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)] +
                [b_and([i_lt(0x1fff, x), i_lt(x, 0x200b)])] if self.PYTYPE is str else [])))

    def _ascii_case(self, lo, hi, delta):
        out = []
        for x in self.els:
            if type(x) is not int and self.PYTYPE is str and x.hi > 127:
                if i_lt(127, x):
                    return getattr(self.concrete(), 'lower' if delta > 0 else 'upper')()
            if type(x) is int and x > 127 and self.PYTYPE is str:
                s = getattr(chr(x), 'lower' if delta > 0 else 'upper')()
                out.extend(map(ord, s))
                continue
            out.append(i_ite(b_and([i_lt(lo - 1, x), i_lt(x, hi + 1)]), x + delta, x))
        return self._mk(tuple(out))

    def lower(self):
        return self._ascii_case(0x41, 0x5a, 32)

    def upper(self):
        return self._ascii_case(0x61, 0x7a, -32)

    def isdigit(self):
        if not self.els:
            return False
        for x in self.els:
            if type(x) is not int and self.PYTYPE is str and x.hi > 127 and i_lt(127, x):
                return self.concrete().isdigit()
        return bool(b_and([b_and([i_lt(47, x), i_lt(x, 58)]) for x in self.els]))

    def _generic_pred(name):
        def pred(self):
            return getattr(self.concrete(), name)()
        pred.__name__ = name
        return pred

    isalpha = _generic_pred('isalpha')
    isalnum = _generic_pred('isalnum')
    islower = _generic_pred('islower')
    isupper = _generic_pred('isupper')

    def isspace(self):
        return len(self.els) > 0 and all(self._is_space(x) for x in self.els)

    def isascii(self):
        return bool(b_and([i_lt(x, 128) for x in self.els]))

    def zfill(self, w):
        if len(self.els) >= w:
            return self
        pad = (48,) * (w - len(self.els))
        if self.els and bool(b_or([i_eq(self.els[0], 43), i_eq(self.els[0], 45)])):
            return self._mk((self.els[0],) + pad + tuple(self.els[1:]))
        return self._mk(pad + tuple(self.els))

    def rjust(self, w, fill=None):
        f = 32 if fill is None else ord(fill)
        return self._mk((f,) * max(0, w - len(self.els)) + tuple(self.els))

    def ljust(self, w, fill=None):
        f = 32 if fill is None else ord(fill)
        return self._mk(tuple(self.els) + (f,) * max(0, w - len(self.els)))

    def translate(self, table, *a):
        return self.concrete().translate(table, *a)

    def __getattr__(self, name):
        # any other method of the real type: by enumeration of the value
        if name.startswith('__') or not hasattr(self.PYTYPE, name):
            raise AttributeError("'%s' object has no attribute '%s'" % (self.PYTYPE.__name__, name))
        return getattr(self.concrete(), name)


class SStr(SSeq):
    __slots__ = ('els', 'intval')
    PYTYPE = str

    def __init__(self, els, intval=None):
        self.els = els
        self.intval = intval

    @staticmethod
    def _mk(els):
        return mk_str(els)

    @staticmethod
    def _coerce(o):
        if isinstance(o, SStr):
            return o.els
        if isinstance(o, str):
            return tuple(map(ord, o))
        return None

    def _coerce_sub(self, o):
        r = self._coerce(o)
        if r is None:
            raise TypeError('expected str')
        return r

    def concrete(self):
        return ''.join(chr(x if type(x) is int else x.__index__()) for x in self.els)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.els[i])
        return mk_str((self._index(i),))

    def __iter__(self):
        for x in self.els:
            yield mk_str((x,))

    def __str__(self):
        return self.concrete()

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __repr__(self):
        return 'SStr(%s)' % ''.join(chr(x) if type(x) is int and 32 <= x < 127 else '?' for x in self.els)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if enc in ('utf-8', 'utf8', 'u8'):
            return _utf8_encode(self, errors)
        if enc in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1', 'iso8859-1') and errors == 'strict':
            lim = 128 if 'ascii' in enc else 256
            for i, x in enumerate(self.els):
                if not i_lt(x, lim):
                    raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range(%d)' % lim)
            return mk_bytes(self.els)
        if enc in ('unicode-escape', 'unicodeescape'):
            return _unicode_escape(self)
        return self.concrete().encode(encoding, errors)


def mk_str(els, intval=None):
    els = tuple(els)
    for x in els:
        if type(x) is not int:
            return SStr(els, intval)
    return ''.join(map(chr, els))


def _utf8_encode(s, errors):
    out = []
    for x in s.els:
        if i_lt(x, 0x80):
            out.append(x)
        elif i_lt(x, 0x800):
            out += [0xC0 | (x >> 6), 0x80 | (x & 0x3f)]
        elif i_lt(x, 0x10000):
            if b_and([i_lt(0xD7FF, x), i_lt(x, 0xE000)]):
                if errors != 'strict':
                    if errors == 'surrogatepass':
                        out += [0xE0 | (x >> 12), 0x80 | ((x >> 6) & 0x3f), 0x80 | (x & 0x3f)]
                        continue
                    return s.concrete().encode('utf-8', errors)
                raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
            out += [0xE0 | (x >> 12), 0x80 | ((x >> 6) & 0x3f), 0x80 | (x & 0x3f)]
        else:
            out += [0xF0 | (x >> 18), 0x80 | ((x >> 12) & 0x3f), 0x80 | ((x >> 6) & 0x3f), 0x80 | (x & 0x3f)]
    out = [clip(x, 0, 255) for x in out]
    return mk_bytes(out)


def clip(x, lo, hi):
    """x, known (by the path condition) to lie in lo..hi: tighter interval only."""
    if type(x) is int:
        return x
    l, h = max(x.lo, lo), min(x.hi, hi)
    if (l, h) == (x.lo, x.hi):
        return x
    return mk_int(x.e, l, h)


def _hexdigits(x, n):
    out = []
    for k in range(n - 1, -1, -1):
        d = (x >> (4 * k)) & 0xF
        out.append(i_ite(i_lt(d, 10), d + 48, d + 87))
    return out


def _unicode_escape(s):
    out = []
    for x in s.els:
        if type(x) is int:
            out.extend(chr(x).encode('unicode_escape'))
        elif b_and([i_lt(31, x), i_lt(x, 127), b_not(i_eq(x, 92))]):
            out.append(clip(x, 32, 126))
        elif i_lt(x, 256):
            if i_eq(x, 92):
                out += [92, 92]
            elif i_eq(x, 9):
                out += [92, 116]
            elif i_eq(x, 10):
                out += [92, 110]
            elif i_eq(x, 13):
                out += [92, 114]
            else:
                out += [92, 120] + _hexdigits(x, 2)
        elif i_lt(x, 0x10000):
            out += [92, 117] + _hexdigits(x, 4)
        else:
            out += [92, 85] + _hexdigits(x, 8)
    return mk_bytes(out)


class SBytes(SSeq):
    __slots__ = ('els',)
    PYTYPE = bytes

    def __init__(self, els):
        self.els = els

    @staticmethod
    def _mk(els):
        return mk_bytes(els)

    @staticmethod
    def _coerce(o):
        if isinstance(o, (SBytes, SByteArray)):
            return o.els
        if isinstance(o, (bytes, bytearray)):
            return tuple(o)
        if isinstance(o, memoryview):
            return tuple(o.tobytes())
        return None

    def _coerce_sub(self, o):
        if is_intlike(o):
            o = as_int(o)
            if not b_and([b_not(i_lt(o, 0)), i_lt(o, 256)]):
                raise ValueError('byte must be in range(0, 256)')
            return (o,)
        r = self._coerce(o)
        if r is None:
            raise TypeError('a bytes-like object is required')
        return r

    def concrete(self):
        return bytes(x if type(x) is int else x.__index__() for x in self.els)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.els[i])
        return self._index(i)

    def __iter__(self):
        return iter(self.els)

    def __bytes__(self):
        return self.concrete()

    def __repr__(self):
        return 'SBytes(%d)' % len(self.els)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if enc in ('utf-8', 'utf8', 'u8') and errors == 'strict':
            return _utf8_decode(tuple(self.els))
        if enc in ('ascii', 'us-ascii') and errors == 'strict':
            for x in self.els:
                if not i_lt(x, 128):
                    raise UnicodeDecodeError('ascii', b'\x80', 0, 1, 'ordinal not in range(128)')
            return mk_str(self.els)
        if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
            return mk_str(self.els)
        if enc in ('unicode-escape', 'unicodeescape') and errors == 'strict':
            return _unicode_escape_decode(tuple(self.els))
        return self.concrete().decode(encoding, errors)

    def hex(self, *a):
        if a:
            return self.concrete().hex(*a)
        out = []
        for x in self.els:
            out += _hexdigits(x, 2)
        return mk_str(out)

    def tobytes(self):
        return mk_bytes(self.els)


def mk_bytes(els):
    els = tuple(els)
    for x in els:
        if type(x) is not int:
            return SBytes(els)
    return bytes(els)


_SIMPLE_ESCAPES = {ord('\\'): 92, ord("'"): 39, ord('"'): 34, ord('a'): 7, ord('b'): 8, ord('f'): 12, ord('n'): 10,
                   ord('r'): 13, ord('t'): 9, ord('v'): 11}


def _unicode_escape_decode(els):
    from .rt import _digit_value
    out = []
    i, n = 0, len(els)

    def bad(what):
        raise UnicodeDecodeError('unicodeescape', b'\\', 0, 1, what)
    while i < n:
        x = els[i]
        i += 1
        if not i_eq(x, 92):
            out.append(x)
            continue
        if i >= n:
            bad('\\ at end of string')
        c = els[i]
        c = c if type(c) is int else c.__index__()
        i += 1
        if c == 10:
            continue
        if c in _SIMPLE_ESCAPES:
            out.append(_SIMPLE_ESCAPES[c])
        elif 48 <= c <= 55:
            v = c - 48
            for _ in range(2):
                if i < n and b_and([i_lt(47, els[i]), i_lt(els[i], 56)]):
                    v = v * 8 + (els[i] - 48)
                    i += 1
            out.append(v)
        elif c in (120, 117, 85):
            k = {120: 2, 117: 4, 85: 8}[c]
            v = 0
            for _ in range(k):
                if i >= n:
                    bad('truncated escape')
                try:
                    v = (v << 4) | _digit_value(els[i], 16)
                except ValueError:
                    bad('truncated escape')
                i += 1
            if k == 8:
                if not i_lt(v, 0x110000):
                    bad('illegal Unicode character')
                v = clip(v, 0, 0x10ffff)
            out.append(v)
        elif c == ord('N'):
            raise NotImplementedError('\\N escapes')
        else:
            out += [92, c]
    return mk_str(out)


class _Truncated(Exception):
    pass


def utf8_decode_partial(els):
    """(text, undecoded tail) of octets that may end inside a character."""
    els = tuple(els)
    out, pos = [], [0]
    try:
        return _utf8_decode(els, out, pos), ()
    except _Truncated:
        return mk_str(out), els[pos[0]:]


def _utf8_decode(els, out=None, pos=None):
    out = [] if out is None else out
    i, n = 0, len(els)

    def bad():
        raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid utf-8')

    def cont(j, lo=0x80, hi=0xBF):
        if j >= n:
            if pos is not None:
                raise _Truncated()
            bad()
        x = els[j]
        if not b_and([i_lt(lo - 1, x), i_lt(x, hi + 1)]):
            bad()
        return x & 0x3f
    while i < n:
        x = els[i]
        if pos is not None:
            pos[0] = i
        if i_lt(x, 0x80):
            out.append(clip(x, 0, 0x7f))
            i += 1
        elif b_and([i_lt(0xC1, x), i_lt(x, 0xE0)]):
            c1 = cont(i + 1)
            out.append(((x & 0x1f) << 6) | c1)
            i += 2
        elif b_and([i_lt(0xDF, x), i_lt(x, 0xF0)]):
            if i_eq(x, 0xE0):
                c1 = cont(i + 1, 0xA0)
            elif i_eq(x, 0xED):
                c1 = cont(i + 1, 0x80, 0x9F)
            else:
                c1 = cont(i + 1)
            c2 = cont(i + 2)
            out.append(((x & 0x0f) << 12) | (c1 << 6) | c2)
            i += 3
        elif b_and([i_lt(0xEF, x), i_lt(x, 0xF5)]):
            if i_eq(x, 0xF0):
                c1 = cont(i + 1, 0x90)
            elif i_eq(x, 0xF4):
                c1 = cont(i + 1, 0x80, 0x8F)
            else:
                c1 = cont(i + 1)
            c2 = cont(i + 2)
            c3 = cont(i + 3)
            out.append(clip(((x & 0x07) << 18) | (c1 << 12) | (c2 << 6) | c3, 0, 0x10FFFF))
            i += 4
        else:
            bad()
    return mk_str(out)


class SByteArray(SBytes):
    """bytearray created by the code under test (mutable; elements may be symbolic)."""
    __slots__ = ()
    PYTYPE = bytearray

    def __init__(self, els):
        self.els = list(els)

    @staticmethod
    def _mk(els):
        return SByteArray(els)

    __hash__ = None

    def _byte(self, x):
        x = as_int(x) if is_intlike(x) else x.__index__()
        lo, hi = bounds(x)
        if lo < 0 or hi > 255:
            if not b_and([b_not(i_lt(x, 0)), i_lt(x, 256)]):
                raise ValueError('byte must be in range(0, 256)')
            x = clip(x, 0, 255)
        return x

    def append(self, x):
        self.els.append(self._byte(x))

    def insert(self, i, x):
        self.els.insert(int(i), self._byte(x))

    def extend(self, it):
        ce = self._coerce(it)
        if ce is None:
            if isinstance(it, (str, SStr)):
                raise TypeError('expected iterable of integers; got: str')
            ce = [self._byte(x) for x in it]
        self.els.extend(ce)

    def __iadd__(self, o):
        ce = self._coerce(o)
        if ce is None:
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self.els.extend(ce)
        return self

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            ce = self._coerce(v)
            self.els[i] = list(ce) if ce is not None else [self._byte(x) for x in v]
        else:
            self.els[int(i)] = self._byte(v)

    def __delitem__(self, i):
        del self.els[i]

    def pop(self, i=-1):
        return self.els.pop(int(i))

    def clear(self):
        del self.els[:]

    def __copy__(self):
        return SByteArray(self.els)

    def __deepcopy__(self, memo):
        return SByteArray(self.els)

    def reverse(self):
        self.els.reverse()

    def copy(self):
        return SByteArray(self.els)

    def concrete(self):
        return bytearray(x if type(x) is int else x.__index__() for x in self.els)

    def __bytes__(self):
        return bytes(self.concrete())

    def __repr__(self):
        return 'SByteArray(%d)' % len(self.els)


# ------------------------------------------------------------------------------------------- dict

def is_symbolic(x):
    """Contains a symbolic part at the top level."""
    if isinstance(x, Sym):
        return not isinstance(x, (SByteArray, SDict, SSet)) or (
            isinstance(x, SByteArray) and not concrete_els(x.els))
    if isinstance(x, tuple):
        for y in x:
            if is_symbolic(y):
                return True
        return False
    return False


def deep_eq(a, b):
    """a == b as bool | SBool, without forking where possible."""
    if type(a) in (tuple, list) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return b_and([deep_eq(x, y) for x, y in zip(a, b)])
    r = (a == b)
    if isinstance(r, SBool):
        return r
    return bool(r)


class SDict(Sym):
    """dict whose keys may be symbolic (compared by equality, in insertion order)."""
    __slots__ = ('idx', 'ents', 'nsym', 'default_factory', 'pytype', 'live')
    PYTYPE = dict

    def __init__(self, items=(), default_factory=None, pytype=dict):
        self.idx = {}       # concrete key -> entry number
        self.ents = []      # [key, value] or None when deleted
        self.nsym = 0
        self.live = 0
        self.default_factory = default_factory
        self.pytype = pytype
        self.update(items)

    def _find(self, k):
        if not is_symbolic(k):
            i = self.idx.get(k)
            if i is not None:
                return i
            if not self.nsym:
                return None
            for i, en in enumerate(self.ents):
                if en is not None and is_symbolic(en[0]) and deep_eq(en[0], k):
                    return i
            return None
        cands = []
        for i, en in enumerate(self.ents):
            if en is not None:
                c = deep_eq(en[0], k)
                if c is True:
                    return i
                if c is not False:
                    cands.append((i, c))
        for i, c in cands:
            if c:
                return i
        return None

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            if self.default_factory is not None:
                v = self.default_factory()
                self[k] = v
                return v
            raise KeyError(k)
        return self.ents[i][1]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i is not None:
            self.ents[i][1] = v
            return
        if is_symbolic(k):
            self.nsym += 1
        else:
            self.idx[k] = len(self.ents)
        self.ents.append([k, v])
        self.live += 1

    def __delitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        k0 = self.ents[i][0]
        if is_symbolic(k0):
            self.nsym -= 1
        else:
            del self.idx[k0]
        self.ents[i] = None
        self.live -= 1

    def __contains__(self, k):
        return self._find(k) is not None

    def has(self, k):
        """Membership as one (unforked) condition."""
        if not is_symbolic(k) and not self.nsym:
            return k in self.idx
        return b_or([deep_eq(en[0], k) for en in self.ents if en is not None])

    def __len__(self):
        return self.live

    def __bool__(self):
        return self.live > 0

    def __iter__(self):
        for en in list(self.ents):
            if en is not None:
                yield en[0]

    def __reversed__(self):
        return reversed(list(self))

    def keys(self):
        return list(self)

    iterkeys = keys

    def values(self):
        return [en[1] for en in self.ents if en is not None]

    itervalues = values

    def items(self):
        return [(en[0], en[1]) for en in self.ents if en is not None]

    iteritems = items

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.ents[i][1]

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i is None:
            self[k] = d
            return d
        return self.ents[i][1]

    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self.ents[i][1]
        del self[k]
        return v

    def popitem(self, last=True):
        if not self.live:
            raise KeyError('dictionary is empty')
        ents = [en for en in self.ents if en is not None]
        k, v = ents[-1 if last else 0]
        del self[k]
        return k, v

    def clear(self):
        self.idx.clear()
        del self.ents[:]
        self.nsym = self.live = 0

    def update(self, *a, **kw):
        for items in a:
            if hasattr(items, 'keys'):
                for k in items.keys():
                    self[k] = items[k]
            else:
                for k, v in items:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return SDict(self.items(), self.default_factory, self.pytype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        from copy import deepcopy
        r = SDict((), self.default_factory, self.pytype)
        memo[id(self)] = r
        for k, v in self.items():
            r[deepcopy(k, memo)] = deepcopy(v, memo)
        return r

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            its = self.items()
            self.clear()
            self.update([(k, v)] + its)

    def __eq__(self, o):
        if isinstance(o, (dict, SDict)):
            if len(self) != len(o):
                return False
            if isinstance(o, SDict) and self.pytype is o.pytype and self.pytype.__name__ == 'OrderedDict':
                return self.items() == o.items()
            for k, v in self.items():
                if isinstance(o, SDict):
                    if k not in o:
                        return False
                    w = o[k]
                else:
                    m = [x for x in o if x == k]
                    if not m:
                        return False
                    w = o[m[0]]
                if not (v is w or v == w):
                    return False
            return True
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return 'SDict(%d)' % len(self)


class SSet(Sym):
    """set whose members may be symbolic."""
    __slots__ = ('d',)
    PYTYPE = set

    def __init__(self, items=()):
        self.d = SDict()
        for x in items:
            self.d[x] = None

    def add(self, x):
        self.d[x] = None

    def discard(self, x):
        if x in self.d:
            del self.d[x]

    def remove(self, x):
        del self.d[x]

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def pop(self):
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()

    def copy(self):
        return SSet(self)

    def has(self, k):
        return self.d.has(k)

    def __contains__(self, x):
        return x in self.d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __eq__(self, o):
        if isinstance(o, (set, frozenset, SSet)):
            return len(self) == len(o) and all(x in SSet(o) for x in self)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def union(self, *os):
        r = SSet(self)
        r.update(*os)
        return r

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def intersection(self, o):
        o = SSet(o)
        return SSet([x for x in self if x in o])

    def __and__(self, o):
        return self.intersection(o)

    def difference(self, o):
        o = SSet(o)
        return SSet([x for x in self if x not in o])

    def __sub__(self, o):
        return self.difference(o)

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self)
    __le__ = issubset

    def issuperset(self, o):
        return all(x in self for x in o)
    __ge__ = issuperset

    def __repr__(self):
        return 'SSet(%d)' % len(self)
