"""Runtime of transformed code: built-in operations over proxies."""
import builtins
import collections
import functools
import string
import struct as _struct
import types
import z3
from .engine import ENGINE as E, EngineSignal
from .values import *
from .values import _fit, _hexdigits

_FUNC = types.FunctionType
_METHOD = types.MethodType
_BUILTIN = types.BuiltinFunctionType
_GEN_METHODS = frozenset(('send', 'throw', 'close', '__next__'))


# ------------------------------------------------------------------------------- types and shadows

def pytype(x):
    if isinstance(x, Sym):
        t = type(x)
        o = getattr(t, 'SHADOW_OF', None)
        if o is not None:
            return o
        if isinstance(x, SDict):
            return x.pytype
        return t.PYTYPE
    return type(x)


def r_isinstance(x, t):
    if isinstance(x, Sym):
        if isinstance(t, tuple):
            return any(r_isinstance(x, u) for u in t)
        if isinstance(t, types.UnionType):
            return any(r_isinstance(x, u) for u in t.__args__)
        if isinstance(t, type) and issubclass(t, Sym):
            return isinstance(x, t)
        return issubclass(pytype(x), t)
    return isinstance(x, t)


def _noinit(self, *a, **kw):
    pass


_SHADOW_BASE = dict((t, type('Shadow_' + t.__name__, (p,), {'__init__': _noinit, '__slots__': (), 'PYTYPE': t}))
                    for t, p in ((int, SInt), (str, SStr), (bytes, SBytes), (float, SFloat)))
_SHADOW_VALUES = set(_SHADOW_BASE.values())
_shadows = {}


def _builtin_root(cls):
    for b in (int, str, bytes, float):
        if issubclass(cls, b):
            return b
    return None


def shadow(cls):
    """The class cls with its built-in base replaced by the proxy class."""
    if isinstance(cls, type) and issubclass(cls, Sym):
        return cls
    s = _shadows.get(cls)
    if s is not None:
        return s
    if cls in _SHADOW_BASE:
        return _SHADOW_BASE[cls]
    if _builtin_root(cls) is None:
        return cls
    bases = tuple(shadow(b) for b in cls.__bases__)
    ns = dict((k, v) for k, v in cls.__dict__.items() if k not in ('__dict__', '__weakref__'))
    ns['SHADOW_OF'] = cls
    s = type(cls)(cls.__name__, bases, ns) if type(cls) is not type else type(cls.__name__, bases, ns)
    _shadows[cls] = s
    return s


def unshadow(cls):
    return getattr(cls, 'SHADOW_OF', cls) if isinstance(cls, type) and issubclass(cls, Sym) else cls


def _fill(obj, root, v):
    if root is int:
        if isinstance(v, SInt):
            obj.e, obj.lo, obj.hi = v.e, v.lo, v.hi
        else:
            w = width_of(v, v)
            obj.e, obj.lo, obj.hi = z3.BitVecVal(v, w), v, v
    elif root is str:
        obj.els, obj.intval = SStr._coerce(v), None
    elif root is bytes:
        obj.els = tuple(SBytes._coerce(v))
    else:
        obj.b = sfloat(v).b
    return obj


def new_builtin(root, cls, args, kw):
    """root.__new__(cls, *args) where cls is a (shadow of a) subclass of root or args are symbolic."""
    v = call(root, *args, **kw)
    real = unshadow(cls)
    if real in (int, str, bytes, float):
        return v
    sh = isinstance(cls, type) and issubclass(cls, Sym)
    if not sh and not isinstance(v, Sym):
        return root.__new__(cls, v)
    s = shadow(real)
    return _fill(object.__new__(s), root, v)


def construct(cls, args, kw):
    """cls(*args) for a subclass cls of a built-in value type with symbolic arguments."""
    s = shadow(cls)
    new = None
    for k in cls.__mro__:
        if k in _SHADOW_BASE:
            break
        if '__new__' in k.__dict__:
            new = getattr(cls, '__new__')
            break
    if new is not None:
        obj = new(s, *args, **kw)
    else:
        root = _builtin_root(cls)
        obj = new_builtin(root, s, args, kw)
    if isinstance(obj, s):
        init = getattr(s, '__init__', None)
        for k in cls.__mro__:
            if '__init__' in k.__dict__:
                if k not in _SHADOW_BASE and k is not object:
                    k.__dict__['__init__'](obj, *args, **kw)
                break
    return obj


def _plain_value(x):
    """The built-in value in an instance of a shadow class."""
    root = _builtin_root(type(x).SHADOW_OF)
    if root is int:
        return mk_int(x.e, x.lo, x.hi)
    if root is str:
        return mk_str(x.els, x.intval)
    if root is bytes:
        return mk_bytes(x.els)
    return SFloat(x.b)


def _copy_shadow(x, memo):
    """What the copy module does with an instance of a subclass of a built-in value type."""
    import copy
    cls = type(x)
    if getattr(cls, 'SHADOW_OF', None) is None:
        return x
    for name in ('__reduce_ex__', '__reduce__'):
        if getattr(cls, name) is not getattr(object, name):
            rv = x.__reduce_ex__(4) if name == '__reduce_ex__' else x.__reduce__()
            if isinstance(rv, str):
                return x
            return copy._reconstruct(x, memo, *rv)
    kw = {}
    if hasattr(cls, '__getnewargs_ex__'):
        args, kw = x.__getnewargs_ex__()
    elif hasattr(cls, '__getnewargs__'):
        args = x.__getnewargs__()
    else:
        args = (_plain_value(x),)
    if memo is not None:
        args = tuple(copy.deepcopy(a, memo) for a in args)
    new = None
    for k in cls.SHADOW_OF.__mro__:
        if k in _SHADOW_BASE:
            break
        if '__new__' in k.__dict__:
            new = cls.__new__
            break
    y = new(cls, *args, **kw) if new is not None else new_builtin(_builtin_root(cls.SHADOW_OF), cls, args, kw)
    user = [k.__dict__['__getstate__'] for k in cls.__mro__ if '__getstate__' in k.__dict__ and k is not object]
    state = user[0](x) if user else getattr(x, '__dict__', None)
    if state:
        if memo is not None:
            memo[id(x)] = y
            state = copy.deepcopy(state, memo)
        if hasattr(y, '__setstate__'):
            y.__setstate__(state)
        else:
            y.__dict__.update(state)
    return y


Sym.__copy__ = lambda self: _copy_shadow(self, None)
Sym.__deepcopy__ = lambda self, memo: _copy_shadow(self, memo)


class _Super(object):
    """super(C, x) where x is (a shadow of) an instance of a subclass of a built-in type."""
    def __init__(self, s, x, root):
        self.s, self.x, self.root = s, x, root


def r_super(c, *a):
    if not a:
        return super(c)
    x = a[0]
    if isinstance(x, Sym) and getattr(type(x), 'SHADOW_OF', None):
        return super(shadow(c), x)
    if isinstance(x, type) and issubclass(x, Sym):
        return super(shadow(c), x)
    return super(c, x)


# ------------------------------------------------------------------------------------ conversions

class SDigits(SStr):
    """Decimal digits of a non-negative integer of known digit count, made on demand."""
    __slots__ = ('_els', 'n')

    def __init__(self, x, n):
        self.intval = x
        self.n = n
        self._els = None

    def __len__(self):
        return self.n

    def __bool__(self):
        return self.n > 0

    @property
    def els(self):
        if self._els is None:
            self._els = _digit_els(self.intval, self.n)
        return self._els


def int_from_digits(ds):
    """The number with these decimal digits (terms of 5 bits, the first not zero unless alone)."""
    n = len(ds)
    w = width_of(0, 10 ** n)
    total = BV(0, w)
    for d in ds:
        total = total * BV(10, w) + z3.ZeroExt(w - d.size(), d)
    x = mk_int(total, 0 if n == 1 else 10 ** (n - 1), 10 ** n - 1)
    els = tuple(mk_int(z3.ZeroExt(3, d) + BV(48, 8), 48, 57) for d in ds)
    E.defs[('digits', x.e.get_id(), x.e.size(), n, True)] = els
    E.defs[('horner',) + tuple(e.e.get_id() for e in els)] = x
    E.remember(('digits', n, True), x, els)
    E.keep.append((x, els))
    return x


def zero_padded(x, n):
    return mk_str(_digit_els(x, n, False))


def _digit_els(x, n, lead=True):
    key = ('digits', x.e.get_id(), x.e.size(), n, lead)
    got = E.defs.get(key)
    if got is not None:
        return got
    E.keep.append(x.e)
    if n == 1:
        els = (clip(clip(x, 0, 9) + 48, 48, 57),)
        if type(els[0]) is not int:
            E.defs[('horner', els[0].e.get_id())] = x
            E.keep.append(els)
        E.defs[key] = els
        return els
    got = E.known_equal(('digits', n, lead), x, lambda a, b: b_term(i_eq(a, b)))
    if got is not None:
        E.defs[key] = got
        return got
    lo, hi = max(x.lo, 10 ** (n - 1) if lead else 0), min(x.hi, 10 ** n - 1)
    k = n
    while lo <= hi and k > 0 and lo // 10 ** (k - 1) == hi // 10 ** (k - 1):
        k -= 1
    if k < n and lo <= hi:
        # the leading digits are known
        p = lo // 10 ** k
        els = tuple(ord(c) for c in str(p).rjust(n - k, '0'))
        if k:
            els += _digit_els(clip(x - p * 10 ** k, lo - p * 10 ** k, hi - p * 10 ** k), k, False)
        E.defs[key] = els
        E.remember(('digits', n, lead), x, els)
        E.defs[('horner',) + tuple(e.e.get_id() if isinstance(e, SInt) else e for e in els)] = x
        E.keep.append((x, els))
        return els
    w = width_of(0, max(x.hi, 10 ** n)) + 1
    ds = []
    total = BV(0, w)
    cs = []
    for i in range(n):
        d = E.fresh('d', 5)
        cs.append(z3.ULE(d, 9))
        ds.append(d)
        total = total * BV(10, w) + z3.ZeroExt(w - 5, d)
    if n > 1 and lead:
        cs.append(ds[0] != 0)
    term = to_term(x, w)
    cs.append(total == term)
    E.define(z3.And(cs), term, lambda v: list(zip(ds, map(int, str(v).rjust(n, '0')[-n:]))))
    els = tuple(mk_int(z3.ZeroExt(3, d) + BV(48, 8), 48, 57) for d in ds)
    E.defs[key] = els
    E.remember(('digits', n, lead), x, els)
    # the digits read back as the number they came from
    E.defs[('horner',) + tuple(e.e.get_id() for e in els)] = x
    E.keep.append(els)
    return els


def digit_count(x):
    """Number of decimal digits of the non-negative int x (forks)."""
    if type(x) is int:
        return len(str(x))
    n = len(str(max(0, x.lo)))
    while True:
        if 10 ** n > x.hi or x < 10 ** n:
            return n
        n += 1


def successor(els, x):
    """Digits of one more than the number with digits els."""
    if b_and([i_eq(e, 57) for e in els]):
        return '1' + '0' * len(els)
    out = []
    carry = True
    for e in reversed(els):
        nine = i_eq(e, 57)
        up = i_ite(nine, 48, clip(e, 48, 56) + 1)
        out.append(clip(i_ite(carry, up, e) if carry is not True else up, 48, 57))
        carry = b_and([carry, nine])
    out = tuple(reversed(out))
    return mk_str(out, x)


def int_to_str(x):
    if not isinstance(x, SInt):
        return str(int(x))
    neg = False
    if x < 0:
        neg = True
        x = -x
    if not isinstance(x, SInt):
        s = str(x)
        return '-' + s if neg else s
    p10 = E.defs.get(('pow10', x.e.get_id(), x.e.size()))
    if p10 is not None:
        # digits of y * 10**k
        y, k = p10
        if y == 0:
            return '0'
        s = int_to_str(y)
        s = s + '0' * k
    elif ('succ', x.e.get_id(), x.e.size()) in E.defs:
        s = successor(E.defs[('succ', x.e.get_id(), x.e.size())], x)
    else:
        x = clip(x, 0, x.hi)
        n = digit_count(x)
        x = clip(x, 0 if n == 1 else 10 ** (n - 1), 10 ** n - 1)
        s = str(x) if not isinstance(x, SInt) else SDigits(x, n)
    return '-' + s if neg else s


def r_str(x=None, *a, **kw):
    if a or kw:
        if isinstance(x, (SBytes,)):
            return x.decode(*a, **kw)
        return str(x, *a, **kw)
    if x is None:
        return 'None'
    if isinstance(x, Sym):
        f = getattr(type(x), '__str__', None)
        if getattr(type(x), 'SHADOW_OF', None) and isinstance(f, _FUNC) and f.__module__ != 'symion.values':
            return f(x)
        if isinstance(x, SBool):
            return 'True' if x else 'False'
        if isinstance(x, SInt):
            return int_to_str(x)
        if isinstance(x, SStr):
            return mk_str(x.els, x.intval) if type(x) is not SStr and type(x) is not SDigits else x
        if isinstance(x, SFloat):
            return str(x.concrete())
        if isinstance(x, SBytes):
            return r_repr(x) if isinstance(x, SFloat) else str(x.concrete())
        return repr(x)
    f = getattr(type(x), '__str__', None)
    if isinstance(f, _FUNC):
        return f(x)
    return str(x)


def r_repr(x):
    if isinstance(x, Sym):
        if isinstance(x, SBool) or (isinstance(x, SInt) and type(x) is SInt):
            return r_str(x)
        if isinstance(x, SFloat):
            k = E.defs.get(('repr', x.b.get_id()))
            if k is not None:
                return k
        if isinstance(x, (SStr, SBytes, SFloat)):
            return repr(x.concrete())
        return repr(x)
    f = getattr(type(x), '__repr__', None)
    if isinstance(f, _FUNC):
        return f(x)
    return repr(x)


def _digit_value(c, base):
    """Value of the ASCII digit c in base; raises ValueError when it is none (forks)."""
    if type(c) is int:
        return int(chr(c), base)
    if c.hi > 127 and i_lt(127, c):
        # a digit outside ASCII is possible: settle by value
        return int(chr(c.__index__()), base)
    dec = b_and([b_not(i_lt(c, 48)), i_lt(c, 48 + min(base, 10))])
    if base <= 10:
        if dec:
            return clip(c, 48, 57) - 48
        raise ValueError('invalid literal for int()')
    up = b_and([i_lt(64, c), i_lt(c, 55 + base)])
    lo = b_and([i_lt(96, c), i_lt(c, 87 + base)])
    if b_or([dec, up, lo]):
        v = i_ite(dec, c - 48, i_ite(up, c - 55, c - 87))
        return clip(v, 0, base - 1)
    raise ValueError('invalid literal for int()')


def r_int(x=0, base=None):
    if isinstance(x, Sym):
        if isinstance(x, (SStr, SBytes)):
            if base is None and getattr(x, 'intval', None) is not None:
                return x.intval
            return parse_int(x, 10 if base is None else int(base))
        if isinstance(x, SBool):
            return x.as_sint()
        if isinstance(x, SInt):
            return x if type(x) is SInt else mk_int(x.e, x.lo, x.hi)
        if isinstance(x, SFloat):
            return int(x.concrete())
    if base is not None:
        return int(x, base if type(base) is int else int(base))
    f = getattr(type(x), '__int__', None)
    if isinstance(f, _FUNC):
        return f(x)
    f = getattr(type(x), '__index__', None)
    if isinstance(f, _FUNC):
        return f(x)
    f = getattr(type(x), '__trunc__', None)
    if isinstance(f, _FUNC):
        return f(x)
    return int(x)


def parse_int(s, base):
    if base == 0:
        return int(s.concrete() if not isinstance(s, SByteArray) else bytes(s.concrete()), 0)
    els = list(s.els)
    k = E.defs.get(('horner',) + tuple(e.e.get_id() if isinstance(e, SInt) else e for e in els))
    if k is not None and base == 10:
        return k
    while els and s._is_space(els[0]):
        els.pop(0)
    while els and s._is_space(els[-1]):
        els.pop()
    neg = False
    if els and b_or([i_eq(els[0], 43), i_eq(els[0], 45)]):
        neg = bool(i_eq(els[0], 45))
        els.pop(0)
    if base in (2, 8, 16) and len(els) > 1 and i_eq(els[0], 48):
        ch = {2: 'bB', 8: 'oO', 16: 'xX'}[base]
        if b_or([i_eq(els[1], ord(ch[0])), i_eq(els[1], ord(ch[1]))]):
            els = els[2:]
            if els and i_eq(els[0], 95):
                els.pop(0)
    if not els:
        raise ValueError('invalid literal for int()')
    v = 0
    prev_us = True
    if base == 10:
        while len(els) > 1 and type(els[0]) is int and els[0] == 48 and not (
                type(els[1]) is int and els[1] == 95):
            els.pop(0)
        k = E.defs.get(('horner',) + tuple(e.e.get_id() if isinstance(e, SInt) else e for e in els))
        if k is not None:
            return -k if neg else k
    for i, c in enumerate(els):
        if i_eq(c, 95):
            if prev_us or i == len(els) - 1:
                raise ValueError('invalid literal for int()')
            prev_us = True
            continue
        prev_us = False
        v = v * base + _digit_value(c, base)
    if len(els) == 1 and isinstance(v, SInt) and isinstance(els[0], SInt) and base == 10:
        E.defs[('digits', v.e.get_id(), v.e.size(), 1, True)] = (clip(els[0], 48, 57),)
        E.keep.append((v.e, els[0]))
    elif base == 10 and isinstance(v, SInt) and 1 < len(els) and all(
            48 <= e <= 57 if type(e) is int else e.hi <= 127 for e in els):
        # a number of as many digits, if the first one is not zero
        n = len(els)
        first = b_not(i_eq(els[0], 48))
        if first is True or first is not False and E.lemma(first.e):
            v = mk_int(v.e, max(v.lo, 10 ** (n - 1)), min(v.hi, 10 ** n - 1))
            if isinstance(v, SInt):
                chars = tuple(clip(e, 48, 57) for e in els)
                E.defs[('digits', v.e.get_id(), v.e.size(), n, True)] = chars
                E.keep.append((v, chars))
    return -v if neg else v


def r_ord(c):
    if isinstance(c, (SStr, SBytes)):
        if len(c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c))
        return c.els[0]
    return ord(c)


def r_chr(x):
    if isinstance(x, (SInt, SBool)):
        x = as_int(x)
        if type(x) is not int:
            if x.lo < 0 or x.hi > 0x10FFFF:
                if not b_and([b_not(i_lt(x, 0)), i_lt(x, 0x110000)]):
                    raise ValueError('chr() arg not in range(0x110000)')
                x = clip(x, 0, 0x10FFFF)
            return mk_str((x,))
    return chr(x)


def _byte_els(it, what):
    out = []
    for x in it:
        if not is_intlike(x):
            if not hasattr(x, '__index__'):
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
            x = x.__index__()
        x = as_int(x)
        lo, hi = bounds(x)
        if lo < 0 or hi > 255:
            if not b_and([b_not(i_lt(x, 0)), i_lt(x, 256)]):
                raise ValueError('%s must be in range(0, 256)' % what)
            x = clip(x, 0, 255)
        out.append(x)
    return out


def r_bytes(x=None, *a, **kw):
    if a or kw:
        if isinstance(x, SStr):
            return x.encode(*a, **kw)
        return bytes(x, *a, **kw)
    if x is None:
        return b''
    if isinstance(x, (SBytes, SByteArray)):
        return mk_bytes(x.els)
    if isinstance(x, (SInt, SBool)):
        return bytes(x.__index__())
    if isinstance(x, (bytes, bytearray, memoryview, int)):
        return bytes(x)
    if isinstance(x, (str, SStr)):
        raise TypeError('string argument without an encoding')
    return mk_bytes(_byte_els(x, 'bytes'))


def r_bytearray(x=None, *a, **kw):
    if x is None:
        return SByteArray([])
    if a or kw:
        return SByteArray(list(SBytes._coerce(r_bytes(x, *a, **kw))))
    return SByteArray(list(SBytes._coerce(r_bytes(x))))


def parse_float_text(els):
    """(negative, digits, exponent) of a decimal literal as float() takes it; None if it is none of digits."""
    els = list(els)
    n = len(els)
    i = 0
    neg = False
    if n and b_or([i_eq(els[0], 43), i_eq(els[0], 45)]):
        neg = bool(i_eq(els[0], 45))
        i = 1

    def digits(i):
        ds, us = [], False
        while i < n:
            c = els[i]
            if b_and([i_lt(47, c), i_lt(c, 58)]):
                ds.append(clip(c, 48, 57) - 48)
                us = False
            elif i_eq(c, 95):
                if us or not ds:
                    raise ValueError('could not convert string to float')
                us = True
            else:
                break
            i += 1
        if us:
            raise ValueError('could not convert string to float')
        return ds, i
    whole, i = digits(i)
    if i == (1 if neg else 0) and not whole and not (i < n and i_eq(els[i], 46)):
        return None
    frac = []
    if i < n and i_eq(els[i], 46):
        frac, i = digits(i + 1)
    if not whole and not frac:
        raise ValueError('could not convert string to float')
    e = 0
    if i < n:
        if not b_or([i_eq(els[i], 101), i_eq(els[i], 69)]):
            raise ValueError('could not convert string to float')
        e = int(parse_int(mk_str(els[i + 1:]) if not all(type(c) is int for c in els[i + 1:])
                          else SStr(tuple(els[i + 1:])), 10))
    return neg, whole + frac, e - len(frac)


def float_of_text(x):
    """float(x): equal numbers give one float, different ones (of up to 15 digits) different floats."""
    p = parse_float_text(x.els)
    if p is None:
        return float(x.concrete())
    neg, ds, e = p
    num = 0
    for d in ds:
        num = num * 10 + d
    if type(num) is int:
        return float('%s%de%d' % ('-' if neg else '', num, e))
    known = E.defs.setdefault('float texts', [])
    for neg2, num2, e2, f in known:
        if neg != neg2:
            continue
        k = e - e2
        if abs(k) > 40:
            if i_eq(num, 0) and i_eq(num2, 0):
                return f
            continue
        if i_eq(num * 10 ** k if k > 0 else num, num2 * 10 ** -k if k < 0 else num2):
            return f
    return new_text_float(neg, num, e, known, len(ds))


def new_text_float(neg, num, e, known, n):
    b = E.fresh('float', 64)
    cs = [z3.Extract(63, 63, b) == (1 if neg else 0)]
    if n + e < 300:
        cs.append(z3.Extract(62, 52, b) != 0x7ff)
        if e > -300:
            cs.append((z3.Extract(62, 0, b) == 0) == b_term(i_eq(num, 0)))
            if n <= 15:
                cs += [b != f.b for neg2, _, _, f in known if neg2 == neg]
    E.assert_axiom(z3.And(cs))
    f = SFloat(b)
    known.append((neg, num, e, f))
    return f


def r_float(x=0.0):
    if isinstance(x, SFloat):
        return x if type(x) is SFloat else SFloat(x.b)
    if isinstance(x, (SInt, SBool)):
        return float(int(x))
    if isinstance(x, (SStr, SBytes)):
        return float_of_text(x)
    f = getattr(type(x), '__float__', None)
    if isinstance(f, _FUNC):
        return f(x)
    return float(x)


def r_len(x):
    if isinstance(x, Sym):
        return x.__len__()
    f = getattr(type(x), '__len__', None)
    if isinstance(f, _FUNC):
        return f(x)
    return len(x)


def r_type(*a, **kw):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a, **kw)


def r_bool(x=False):
    if isinstance(x, Sym):
        if isinstance(x, SBool):
            return x
        if isinstance(x, SInt):
            return b_not(i_eq(x, 0))
        if isinstance(x, SFloat):
            return b_not(x.is_zero())
    return bool(x)


class SRange(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def has(self, x):
        if self.step == 1:
            return b_and([b_not(i_lt(x, self.start)), i_lt(x, self.stop)])
        return any(x == y for y in self)

    def __contains__(self, x):
        return bool(self.has(x))

    def __len__(self):
        return int((self.stop - self.start + self.step - (1 if self.step > 0 else -1)) // self.step)

    def __getitem__(self, i):
        return self.start + self.step * i

    def __reversed__(self):
        return reversed(list(self))


def r_range(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [as_int(x) for x in a]
        if len(a) == 1:
            a = [0, a[0]]
        step = int(a[2]) if len(a) > 2 else 1
        return SRange(a[0], a[1], step)
    return range(*a)


def _minmax(is_min):
    real = min if is_min else max

    def f(*a, **kw):
        xs = a[0] if len(a) == 1 else a
        if kw:
            return real(*a, **kw)
        xs = list(xs)
        if xs and all(isinstance(x, (int, SInt)) for x in xs) and any(isinstance(x, SInt) for x in xs):
            r = as_int(xs[0])
            for x in xs[1:]:
                x = as_int(x)
                r = i_ite(i_lt(x, r) if is_min else i_lt(r, x), x, r)
            return r
        return real(xs)
    return f


def r_map(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield call(f, x)
    else:
        for xs in zip(*its):
            yield call(f, *xs)


def r_filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def r_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def r_any(it):
    for x in it:
        if x:
            return True
    return False


def r_all(it):
    for x in it:
        if not x:
            return False
    return True


def r_dict(*a, **kw):
    if not E.active:
        return dict(*a, **kw)
    d = SDict()
    d.update(*a, **kw)
    return d


def r_ordereddict(*a, **kw):
    if not E.active:
        return collections.OrderedDict(*a, **kw)
    d = SDict(pytype=collections.OrderedDict)
    d.update(*a, **kw)
    return d


def r_defaultdict(factory=None, *a, **kw):
    if not E.active:
        return collections.defaultdict(factory, *a, **kw)
    d = SDict(default_factory=factory, pytype=collections.defaultdict)
    d.update(*a, **kw)
    return d


def r_set(it=()):
    if not E.active:
        return set(it)
    return SSet(it)


def r_hash(x):
    return hash(x)


def r_round(x, *a):
    if isinstance(x, SInt) and not a:
        return x
    f = getattr(type(x), '__round__', None)
    return f(x, *a) if isinstance(f, _FUNC) else round(x, *a)


def r_format(x, spec=''):
    if isinstance(x, SInt):
        return _fmt_int(x, spec)
    if isinstance(x, SStr):
        if spec in ('', 's'):
            return x
        return format(x.concrete(), spec)
    if isinstance(x, Sym):
        return format(x.concrete() if hasattr(x, 'concrete') else r_str(x), spec)
    f = getattr(type(x), '__format__', None)
    if spec == '' and isinstance(getattr(type(x), '__str__', None), _FUNC) and \
            (not isinstance(f, _FUNC) or hasattr(type(x), 'as_tuple')):
        return r_str(x)  # That is also what decimals do.
    if isinstance(f, _FUNC):
        return f(x, spec)
    return format(x, spec)


def _fmt_int(x, spec):
    import re
    m = re.match(r'^(0?)(\d*)([dxXob]?)$', spec)
    if not m:
        return format(x.__index__(), spec)
    zero, width, kind = m.groups()
    width = int(width or 0)
    if kind in ('', 'd'):
        if zero and x.lo >= 0 and x.hi < 10 ** width:
            return zero_padded(x, width)
        s = int_to_str(x)
        if zero:
            return s.zfill(width)
        return s.rjust(width)
    if kind in 'xX':
        if x < 0:
            return format(x.__index__(), spec)
        n = 1
        while x.hi >= 16 ** n and not (x < 16 ** n):
            n += 1
        s = mk_str(_hexdigits(x, n))
        if kind == 'X':
            s = s.upper()
        return s.rjust(width, '0' if zero else ' ')
    return format(x.__index__(), spec)


def r_hex(x):
    if isinstance(x, SInt) and not (x < 0):
        return '0x' + _fmt_int(x, 'x')
    return hex(x)


def r_sorted(it, **kw):
    return sorted(it, **kw)


def r_iter(x, *a):
    return iter(x, *a)


def r_isinstance_call(x, t):
    return r_isinstance(x, t)


def r_reversed(x):
    if isinstance(x, SSeq):
        return iter(list(x)[::-1])
    return reversed(x)


def r_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            return i_divmod(as_int(a), as_int(b))
    return divmod(a, b)


def r_print(*a, **kw):
    return None


def r_struct_pack(fmt, *args):
    args = [a for a in args]
    if not any(isinstance(a, Sym) for a in args):
        return _struct.pack(fmt, *args)
    if not isinstance(fmt, str):
        fmt = fmt.decode() if isinstance(fmt, bytes) else fmt.concrete()
    order, kinds = _fmt_kinds(fmt)
    if order is None:
        return _struct.pack(fmt, *[concretize(a) for a in args])
    if len(kinds) != len(args):
        raise _struct.error('pack expected %d items' % len(kinds))
    out = []
    for k, a in zip(kinds, args):
        if k == 'd':
            f = sfloat(a)
            els = [mk_int(z3.ZeroExt(1, z3.Extract(8 * i + 7, 8 * i, f.b)), 0, 255) for i in range(7, -1, -1)]
        elif k == 'f':
            els = list(_struct.pack('>f', concretize(a)))
        else:
            if not is_intlike(a):
                raise _struct.error('required argument is not an integer')
            a = as_int(a)
            n = _struct.calcsize('>' + k)
            lo, hi = (0, 256 ** n - 1) if k.isupper() else (-(256 ** n) // 2, 256 ** n // 2 - 1)
            if not b_and([b_not(i_lt(a, lo)), b_not(i_lt(hi, a))]):
                raise _struct.error('argument out of range')
            els = [(a >> (8 * i)) & 0xFF for i in range(n - 1, -1, -1)]
        if order == '<':
            els.reverse()
        out += els
    return mk_bytes(out)


def _fmt_kinds(fmt):
    order = '>'
    if fmt[:1] in '<>!=@':
        order = {'<': '<', '>': '>', '!': '>', '=': '<'}.get(fmt[0])
        fmt = fmt[1:]
    elif len(fmt) > 1 or fmt not in 'bB':
        order = None
    if order is None or not all(c in 'bBhHiIlLqQdf' for c in fmt):
        return None, None
    return order, list(fmt)


def r_struct_unpack(fmt, data):
    if not isinstance(data, (SBytes, SByteArray)):
        return _struct.unpack(fmt, data)
    if not isinstance(fmt, str):
        fmt = fmt.decode() if isinstance(fmt, bytes) else fmt.concrete()
    order, kinds = _fmt_kinds(fmt)
    if order is None:
        return _struct.unpack(fmt, concretize(data))
    els = list(data.els)
    if _struct.calcsize('>' + ''.join(kinds)) != len(els):
        raise _struct.error('unpack requires a buffer of %d bytes' % _struct.calcsize('>' + ''.join(kinds)))
    out = []
    for k in kinds:
        n = _struct.calcsize('>' + k)
        part, els = els[:n], els[n:]
        if order == '<':
            part.reverse()
        if k in 'df':
            t = [to_term(p, 9) for p in part]
            b = z3.Concat([z3.Extract(7, 0, x) for x in t])
            out.append(SFloat(b) if k == 'd' else float_from32(b))
        else:
            v = 0
            for p in part:
                v = (v << 8) | p
            if k.islower():
                v = i_ite(i_lt((1 << (8 * n - 1)) - 1, v), v - (1 << (8 * n)), v)
            out.append(v)
    return tuple(out)


class SStruct(object):
    """struct.Struct"""
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *a):
        return r_struct_pack(self.format, *a)

    def unpack(self, data):
        return r_struct_unpack(self.format, data)


def r_isnan(x):
    if isinstance(x, SFloat):
        return x.is_nan()
    if isinstance(x, (SInt, SBool)):
        return False
    f = getattr(type(x), '__float__', None)
    if isinstance(f, _FUNC) and hasattr(x, 'is_nan'):
        return x.is_nan()
    import math
    return math.isnan(x)


def r_isinf(x):
    if isinstance(x, SFloat):
        return x.is_inf()
    if isinstance(x, (SInt, SBool)):
        return False
    if isinstance(getattr(type(x), '__float__', None), _FUNC) and hasattr(x, 'is_infinite'):
        return x.is_infinite()
    import math
    return math.isinf(x)


def r_copysign(a, b):
    import math
    if isinstance(b, SFloat):
        neg = mk_bool(z3.simplify(z3.Extract(63, 63, b.b) == 1))
        a = sfloat(a)
        return -abs(a) if neg else abs(a)
    return math.copysign(concretize(a), concretize(b))


def r_int2byte(x):
    if isinstance(x, (SInt, SBool)):
        if not b_and([b_not(i_lt(as_int(x), 0)), i_lt(as_int(x), 256)]):
            raise _struct.error('ubyte format requires 0 <= number <= 255')
        return mk_bytes((clip(as_int(x), 0, 255),))
    return bytes((x,)) if 0 <= x < 256 else _struct.pack('>B', x)


# --------------------------------------------------------------------------------------- base64

_B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def _b64_char(d):
    if type(d) is int:
        return _B64[d]
    return i_ite(i_lt(d, 26), d + 65, i_ite(i_lt(d, 52), d + 71, i_ite(i_lt(d, 62), d - 4, i_ite(i_eq(d, 62), 43, 47))))


def r_b64encode(s, altchars=None):
    import base64
    if altchars is not None or not isinstance(s, SBytes):
        if isinstance(s, SStr) or isinstance(s, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        return base64.b64encode(concretize(s), altchars)
    els, out = list(s.els), []
    for i in range(0, len(els), 3):
        c = els[i:i + 3]
        n = len(c)
        c = c + [0] * (3 - n)
        v = (c[0] << 16) | (c[1] << 8) | c[2]
        ds = [(v >> 18) & 63, (v >> 12) & 63, (v >> 6) & 63, v & 63]
        out += [clip(_b64_char(d), 43, 122) for d in ds[:n + 1]] + [61] * (3 - n)
    return mk_bytes(out)


def r_b64decode(s, altchars=None, validate=False):
    import base64
    import binascii
    if altchars is not None or validate or not isinstance(s, (SBytes, SStr)):
        return base64.b64decode(concretize(s), altchars, validate)
    if isinstance(s, SStr):
        s = s.encode('ascii')
    # binascii.a2b_base64, lenient: characters outside the alphabet are skipped
    vals, pads, out = [], 0, []
    quad = 0
    left = 0
    for x in SBytes._coerce(s):
        if i_eq(x, 61):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return mk_bytes(out)
            continue
        up = b_and([i_lt(64, x), i_lt(x, 91)])
        lo = b_and([i_lt(96, x), i_lt(x, 123)])
        dg = b_and([i_lt(47, x), i_lt(x, 58)])
        pl, sl = i_eq(x, 43), i_eq(x, 47)
        if not b_or([up, lo, dg, pl, sl]):
            continue
        pads = 0
        v = i_ite(up, x - 65, i_ite(lo, x - 71, i_ite(dg, x + 4, i_ite(pl, 62, 63))))
        v = clip(v, 0, 63)
        if quad == 0:
            left, quad = v, 1
        elif quad == 1:
            out.append(((left << 2) | (v >> 4)) & 0xff)
            left, quad = v & 0xf, 2
        elif quad == 2:
            out.append(((left << 4) | (v >> 2)) & 0xff)
            left, quad = v & 3, 3
        else:
            out.append(((left << 6) | v) & 0xff)
            left, quad = 0, 0
    if quad != 0:
        raise binascii.Error('Incorrect padding')
    return mk_bytes(out)


# ------------------------------------------------------------------------------ generic dispatch

def concretize(x):
    """The built-in value of x on this path (enumerates the feasible values)."""
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, SInt):
        return x.__index__()
    if isinstance(x, (SStr, SBytes, SFloat)):
        return x.concrete()
    if isinstance(x, SDict):
        return dict((concretize(k), concretize(v)) for k, v in x.items())
    if isinstance(x, SSet):
        return set(concretize(k) for k in x)
    if type(x) is tuple:
        return tuple(concretize(y) for y in x)
    if type(x) is list:
        return [concretize(y) for y in x]
    return x


def deep_symbolic(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, list):
        return any(deep_symbolic(y) for y in x)
    return False


import six as _six
import math as _math
import base64 as _base64
import operator as _operator

TYPE_MODELS = {
    int: r_int, str: r_str, bytes: r_bytes, bytearray: r_bytearray, float: r_float, bool: r_bool,
    type: r_type, range: r_range, map: r_map, filter: r_filter, dict: r_dict, set: r_set,
    collections.OrderedDict: r_ordereddict, collections.defaultdict: r_defaultdict, reversed: r_reversed,
    _struct.Struct: SStruct,
}
FUNC_MODELS = {
    isinstance: r_isinstance, len: r_len, ord: r_ord, chr: r_chr, repr: r_repr, min: _minmax(True),
    max: _minmax(False), sum: r_sum, any: r_any, all: r_all, hash: r_hash, round: r_round, format: r_format,
    hex: r_hex, divmod: r_divmod, print: r_print, _struct.pack: r_struct_pack, _struct.unpack: r_struct_unpack,
    _math.isnan: r_isnan, _math.isinf: r_isinf, _math.copysign: r_copysign, _base64.b64encode: r_b64encode,
    _base64.b64decode: r_b64decode, _base64.standard_b64encode: r_b64encode,
    _base64.standard_b64decode: r_b64decode,
}
for _f in (getattr(_six, 'int2byte', None),):
    FUNC_MODELS[_f] = r_int2byte

TRANSPARENT = set([
    list, tuple, enumerate, zip, iter, next, sorted, getattr, setattr, hasattr, delattr, callable, id, issubclass,
    super, property, staticmethod, classmethod, object, collections.deque, functools.partial, abs, pow, slice,
    vars, frozenset, object.__new__, object.__setattr__,
] + [v for v in vars(_operator).values() if isinstance(v, types.BuiltinFunctionType)])
import itertools as _it
TRANSPARENT.update(v for v in vars(_it).values() if callable(v) and getattr(v, '__hash__', None))

TRANSPARENT_SELF = (list, tuple, dict, set, frozenset, collections.deque, types.GeneratorType,
                    collections.OrderedDict, type(iter([])), type(iter(())))


def call(f, *args, **kw):
    t = type(f)
    if t is _FUNC or t is _METHOD:
        try:
            m = FUNC_MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        return f(*args, **kw)
    if isinstance(f, type):
        m = TYPE_MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        if f.__flags__ & 512 or isinstance(f, type) and f.__module__ != 'builtins':     # heap type
            if issubclass(f, Sym) and getattr(f, 'SHADOW_OF', None) is not None:
                return construct(f.SHADOW_OF, args, kw)
            if issubclass(f, (int, str, bytes, float)) and not issubclass(f, Sym):
                if any(deep_symbolic(a) for a in args) or any(deep_symbolic(a) for a in kw.values()):
                    return construct(f, args, kw)
            return f(*args, **kw)
        if f in TRANSPARENT or issubclass(f, BaseException):
            return f(*args, **kw)
    elif t is _BUILTIN:
        s = getattr(f, '__self__', None)
        try:
            m = FUNC_MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if s is not None and not isinstance(s, types.ModuleType):
            return callm(s, f.__name__, *args, **kw)
        if m is not None:
            return m(*args, **kw)
        if f in TRANSPARENT:
            return f(*args, **kw)
    elif t is functools.partial:
        k2 = dict(f.keywords)
        k2.update(kw)
        return call(f.func, *(f.args + args), **k2)
    elif isinstance(getattr(t, '__call__', None), _FUNC):
        return f(*args, **kw)
    elif getattr(f, '__objclass__', None) in (list, object, collections.deque) and f.__name__ in _LIST_METHODS:
        return f(*args, **kw)
    # a built-in without a model: settle symbolic arguments by value
    if any(deep_symbolic(a) for a in args) or (kw and any(deep_symbolic(a) for a in kw.values())):
        E.stats.note('builtin ' + getattr(f, '__qualname__', repr(t)))
        args = [concretize(a) for a in args]
        kw = dict((k, concretize(v)) for k, v in kw.items())
    return f(*args, **kw)


_LIST_METHODS = frozenset(['__init__', 'append', 'extend', 'insert', 'pop', 'clear', 'reverse', 'copy', 'appendleft',
                           'popleft', '__iter__', '__len__', '__reversed__', '__setattr__', '__getattribute__',
                           '__delattr__'])
_LIFT = {str: lambda s: SStr(tuple(map(ord, s))), bytes: lambda s: SBytes(tuple(s)),
         bytearray: lambda s: SByteArray(list(s))}


def callm(obj, name, *args, **kw):
    t = type(obj)
    if t is str or t is bytes or t is bytearray:
        if name == 'format' and t is str:
            if any(deep_symbolic(a) or isinstance(getattr(type(a), '__str__', None), _FUNC)
                   for a in tuple(args) + tuple(kw.values())):
                return str_format(obj, args, kw)
            return obj.format(*args, **kw)
        if name == 'join':
            parts = list(args[0])
            if any(isinstance(p, Sym) for p in parts):
                return _LIFT[t](obj).join(parts)
            return obj.join(parts)
        if any(deep_symbolic(a) for a in args):
            return getattr(_LIFT[t](obj), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)
    if t is super:
        f = getattr(obj, name)
        if name == '__new__':
            cls = args[0] if args else None
            return _new_call(f, args, kw)
        return call(f, *args, **kw)
    if t is type or isinstance(obj, type):
        if name == '__new__':
            return _new_call(getattr(obj, name), args, kw, obj)
        if obj is int and name == 'from_bytes' and args and isinstance(args[0], (SBytes, list, tuple, SByteArray)):
            return int_from_bytes(*args, **kw)
        if obj in _SHADOW_BASE and args and isinstance(args[0], Sym) and obj is not bytes:
            return getattr(_SHADOW_BASE[obj], name)(*args, **kw)
        if obj is dict and name == 'fromkeys':
            d = SDict()
            for k in args[0]:
                d[k] = args[1] if len(args) > 1 else None
            return d
        f = getattr(obj, name)
        return call(f, *args, **kw) if type(f) is not _BUILTIN else _call_builtin_method(f, obj, args, kw)
    if isinstance(obj, Sym):
        f = getattr(obj, name)
        return call(f, *args, **kw) if isinstance(f, type) else f(*args, **kw)
    f = getattr(obj, name)
    tf = type(f)
    if tf is _METHOD or tf is _FUNC:
        return call(f, *args, **kw) if tf is _FUNC else f(*args, **kw)
    if tf is _BUILTIN and getattr(f, '__self__', None) is obj and not isinstance(obj, types.ModuleType):
        if t is dict and name in ('get', '__getitem__', '__contains__', 'pop', 'setdefault') and args \
                and is_symbolic(args[0]):
            return _dict_method(obj, name, args)
        if t is collections.defaultdict and name == 'get' and args and is_symbolic(args[0]):
            return _dict_method(obj, name, args)
        return _call_builtin_method(f, obj, args, kw)
    return call(f, *args, **kw)


def _call_builtin_method(f, obj, args, kw):
    if isinstance(obj, TRANSPARENT_SELF) or f.__name__ in _GEN_METHODS:
        return f(*args, **kw)
    if any(deep_symbolic(a) for a in args):
        if isinstance(obj, (str, bytes)) and _builtin_root(type(obj)):
            return getattr(_LIFT[_builtin_root(type(obj))](obj), f.__name__)(*args, **kw)
        E.stats.note('builtin ' + f.__qualname__)
        args = [concretize(a) for a in args]
    return f(*args, **kw)


def _new_call(f, args, kw, owner=None):
    cls = args[0] if args else None
    rest = args[1:]
    if isinstance(cls, type) and (issubclass(cls, Sym) or any(deep_symbolic(a) for a in rest)):
        root = _builtin_root(unshadow(cls))
        if root is not None and not isinstance(f, (_FUNC, _METHOD)):
            return new_builtin(root, cls, rest, kw)
    return f(*args, **kw)


def int_from_bytes(data, byteorder='big', *, signed=False):
    els = list(SBytes._coerce(data) if not isinstance(data, (list, tuple)) else data)
    if byteorder == 'little':
        els.reverse()
    v = 0
    for x in els:
        v = (v << 8) | x
    if signed and els:
        n = 8 * len(els)
        v = i_ite(i_lt((1 << (n - 1)) - 1, v), v - (1 << n), v)
    return v


def _dict_method(d, name, args):
    k = args[0]
    if name == '__contains__':
        return contains(d, k)
    hit = _dict_lookup(d, k)
    if hit is not _MISSING:
        return hit
    if name == 'get':
        return args[1] if len(args) > 1 else None
    if name == 'pop' and len(args) > 1:
        return args[1]
    if name == 'setdefault':
        return d.setdefault(concretize(k), *args[1:])
    raise KeyError(k)


_MISSING = object()


def _dict_lookup(d, k):
    """Value of symbolic key k in the real dict d: one fork per distinct value."""
    groups = []
    for key, v in d.items():
        c = deep_eq(key, k)
        if c is True:
            return v
        if c is False:
            continue
        for g in groups:
            if g[0] is v or (type(g[0]) is type(v) and type(v) in (int, str, bytes, bool) and g[0] == v):
                g[1].append(c)
                break
        else:
            groups.append((v, [c]))
    if groups and all(type(g[0]) is int for g in groups) and len(groups) > 2:
        if b_or([c for g in groups for c in g[1]]):
            r = groups[-1][0]
            for v, cs in reversed(groups[:-1]):
                r = i_ite(b_or(cs), v, r)
            return r
        return _MISSING
    for v, cs in groups:
        if b_or(cs):
            return v
    return _MISSING


def getitem(o, i):
    ti = type(i)
    if ti is int or ti is str or ti is slice or ti is bytes:
        if ti is slice:
            return _getslice(o, i)
        if isinstance(o, dict) or type(o) in (list, tuple):
            return o[i]
        return o[i]
    if isinstance(i, Sym) or (ti is tuple and is_symbolic(i)):
        to = type(o)
        if isinstance(o, (list, tuple, str, bytes, SSeq, range)) and isinstance(i, (SInt, SBool)) \
                and not isinstance(getattr(to, '__getitem__', None), _FUNC) or to in (SStr, SBytes, SByteArray, SDigits):
            if isinstance(i, (SInt, SBool)):
                return _seq_index(o, as_int(i))
        if isinstance(o, dict) and not isinstance(getattr(to, '__getitem__', None), _FUNC):
            r = _dict_lookup(o, i)
            if r is not _MISSING:
                return r
            f = getattr(o, 'default_factory', None)
            if f is not None:
                return f()
            miss = getattr(to, '__missing__', None)
            if isinstance(miss, _FUNC):
                return miss(o, i)
            raise KeyError(i)
    return o[i]


def _seq_index(o, i):
    if type(i) is int:
        return o[i]
    n = len(o)
    if not b_and([i_lt(-n - 1, i), i_lt(i, n)]):
        raise IndexError('index out of range')
    lo, hi = max(i.lo, -n), min(i.hi, n - 1)
    vals = [(k, o[k]) for k in range(lo, hi + 1)]
    if len(vals) > 1024:
        return o[i.__index__()]
    kind = str if isinstance(o, (str, SStr)) else None
    if kind is str:
        r = None
        for k, v in reversed(vals):
            v = r_ord(v)
            r = v if r is None else i_ite(i_eq(i, k), v, r)
        return mk_str((r,))
    if all(type(v) is int for _, v in vals):
        # runs of slope 0, 1 or -1 are read off the index
        runs = []
        for k, v in vals:
            if runs:
                a, va, b, slope = runs[-1]
                if b == a and v - va in (0, 1, -1):
                    runs[-1] = (a, va, k, v - va)
                    continue
                if b > a and v == va + slope * (k - a):
                    runs[-1] = (a, va, k, slope)
                    continue
            runs.append((k, v, k, 0))
        if len(runs) <= max(1, len(vals) // 3):
            r = None
            for a, va, b, slope in reversed(runs):
                x = va if slope == 0 or a == b else clip((i - a) * slope + va, min(va, va + slope * (b - a)),
                                                         max(va, va + slope * (b - a)))
                r = x if r is None else i_ite(i_lt(i, b + 1), x, r)
            return r
    if all(type(v) is int or type(v) is SInt for _, v in vals):
        r = None
        for k, v in reversed(vals):
            r = v if r is None else i_ite(i_eq(i, k), v, r)
        return r
    groups = []
    for k, v in vals:
        for g in groups:
            if g[0] is v or (type(g[0]) is type(v) and type(v) in (int, str, bytes, bool) and g[0] == v):
                g[1].append(k)
                break
        else:
            groups.append((v, [k]))
    while len(groups) > 1:
        m = len(groups) // 2
        ks = sorted(k for _, g in groups[:m] for k in g)
        conds = []
        a = b = ks[0]
        for k in ks[1:] + [None]:
            if k is not None and k == b + 1:
                b = k
            else:
                conds.append(i_eq(i, a) if a == b else b_and([i_lt(a - 1, i), i_lt(i, b + 1)]))
                a = b = k
        groups = groups[:m] if b_or(conds) else groups[m:]
    return groups[0][0]


def _getslice(o, s):
    if type(o) in (str, bytes, list, tuple) and (isinstance(s.start, Sym) or isinstance(s.stop, Sym)):
        return o[slice(concretize(s.start), concretize(s.stop), concretize(s.step))]
    return o[s]


def r_slice(a, b, c):
    return slice(a, b, c)


def contains(c, x):
    tc = type(c)
    if tc is SDict or tc is SSet or tc is SRange:
        return c.has(x)
    sx = is_symbolic(x)
    if tc in (tuple, list, set, frozenset, dict, collections.OrderedDict, collections.defaultdict, collections.deque):
        if sx:
            return b_or([True if k is x else deep_eq(k, x) for k in c])
        if tc in (tuple, list) and any(is_symbolic(k) for k in c):
            return b_or([True if k is x else deep_eq(k, x) for k in c])
        return x in c
    if tc is range:
        if isinstance(x, SInt):
            if c.step == 1:
                return b_and([b_not(i_lt(x, c.start)), i_lt(x, c.stop)])
            return b_or([i_eq(x, k) for k in c])
        return x in c
    if tc in (str, bytes, bytearray, SStr, SBytes, SByteArray, SDigits):
        if not sx and not isinstance(c, Sym):
            return x in c
        if isinstance(c, Sym):
            s = c
        else:
            s = _LIFT[tc](c)
        sub = s._coerce_sub(x)
        els, n = s.els, len(sub)
        return b_or([els_eq(tuple(els[i:i + n]), tuple(sub)) for i in range(len(els) - n + 1)])
    return x in c


def notin(c, x):
    return b_not(contains(c, x))


def r_is(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is None or b is None:
            return False
        # PyPy: identity of ints, floats, bools and short strings is equality of value and type
        ta, tb = pytype(a), pytype(b)
        if ta is not tb or getattr(type(a), 'SHADOW_OF', None) or getattr(type(b), 'SHADOW_OF', None):
            return False
        if ta in (int, bool):
            return a == b
        if ta is str or ta is bytes:
            if len(a) == len(b) and len(a) <= 1:
                return a == b
            return False
        return False
    if type(a) is int and type(b) is int:
        return a == b
    return False


def r_isnot(a, b):
    return b_not(r_is(a, b))


def r_and(first, *lams):
    acc = []
    v = first
    for lam in lams:
        if isinstance(v, SBool):
            acc.append(v)
            try:
                v = lam()
            except Exception:
                if b_and(acc):
                    raise
                return False
        else:
            if not v:
                return False if acc else v
            v = lam()
    if not acc:
        return v
    if isinstance(v, SBool) or isinstance(v, bool):
        return b_and(acc + [v])
    return v if b_and(acc) else False


def r_or(first, *lams):
    acc = []
    v = first
    for lam in lams:
        if isinstance(v, SBool):
            acc.append(v)
            try:
                v = lam()
            except Exception:
                if b_or(acc):
                    return True
                raise
        else:
            if v:
                return True if acc else v
            v = lam()
    if not acc:
        return v
    if isinstance(v, SBool) or isinstance(v, bool):
        return b_or(acc + [v])
    return True if b_or(acc) else v


def r_not(x):
    if isinstance(x, SBool):
        return b_not(x)
    return not x


# ------------------------------------------------------------------------------------ formatting

def str_format(tmpl, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        head, rest = field, ''
        for j, ch in enumerate(field):
            if ch in '.[':
                head, rest = field[:j], field[j:]
                break
        if head == '':
            head = str(auto)
            auto += 1
        v = args[int(head)] if head.isdigit() else kw[head]
        while rest:
            if rest[0] == '.':
                k = rest[1:].split('.')[0].split('[')[0]
                v = getattr(v, k)
                rest = rest[1 + len(k):]
            else:
                k = rest[1:rest.index(']')]
                v = v[int(k) if k.isdigit() else k]
                rest = rest[len(k) + 2:]
        if spec and '{' in spec:
            spec = str_format(spec, args, kw)
        out.append(_fstr_part(v, {'r': 114, 's': 115, 'a': 97, None: -1}[conv], spec or ''))
    return SStr(()).join(out)


def _fstr_part(v, conv, spec):
    if conv == 114:
        v = r_repr(v)
    elif conv == 115:
        v = r_str(v)
    elif conv == 97:
        v = ascii(concretize(v))
    return r_format(v, spec)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            out.append(_fstr_part(*p))
        else:
            out.append(p)
    return SStr(()).join(out)


def fstr_msg(*parts):
    return ''.join(p if type(p) is str else '<?>' for p in parts)


def callm_msg(obj, name, *a, **kw):
    if isinstance(obj, str):
        return obj
    return callm(obj, name, *a, **kw)


def msg(tmpl, args):
    return tmpl


import re as _re
_DIRECTIVE = _re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])')


def mod(a, b):
    if isinstance(a, (str, bytes, SStr, SBytes)):
        args = b if type(b) is tuple else (b,)
        if isinstance(a, Sym):
            if isinstance(a, SStr):
                a = a.concrete()
            else:
                return a.concrete() % concretize(b)
        isb = isinstance(a, bytes)
        if not any(isinstance(x, Sym) or isinstance(getattr(type(x), '__str__', None), _FUNC) for x in args):
            return a % b
        tmpl = a.decode('latin-1') if isb else a
        out, pos, k = [], 0, 0
        for m in _DIRECTIVE.finditer(tmpl):
            out.append(tmpl[pos:m.start()])
            pos = m.end()
            key, flags, width, prec, kind = m.groups()
            if kind == '%':
                out.append('%')
                continue
            if key is not None:
                v = b[key]
            else:
                if width == '*' or prec == '*':
                    return a % concretize(b)
                if k >= len(args):
                    raise TypeError('not enough arguments for format string')
                v = args[k]
                k += 1
            if kind == 's' and isb:
                s = SBytes._coerce(v)
                if s is None:
                    raise TypeError('%b requires a bytes-like object')
                s = mk_str(s)
            elif kind == 's':
                s = r_str(v)
            elif kind == 'r':
                s = r_repr(v)
            elif kind == 'c' and isinstance(v, (SInt, SStr)):
                s = r_chr(v) if isinstance(v, SInt) else v
            elif kind in 'diuxX' and isinstance(v, (SInt, SBool)) and '#' not in flags and '+' not in flags:
                v = as_int(v)
                s = _fmt_int(v, 'd' if kind in 'diu' else kind) if isinstance(v, SInt) else ('%' + kind) % v
                if prec:
                    s = s.zfill(int(prec))
            elif isinstance(v, (SInt, SBool)) or isinstance(v, Sym):
                s = ('%' + flags + (width or '') + ('.' + prec if prec else '') + kind) % concretize(v)
                width = None
            else:
                s = ('%' + flags + (width or '') + ('.' + prec if prec else '') + kind) % v
                width = None
            if kind == 's' and prec:
                s = s[:int(prec)]
            if width:
                w = int(width)
                if '0' in flags and kind in 'diu' and isinstance(v, SInt) and v.lo >= 0 and v.hi < 10 ** w:
                    s = zero_padded(v, w)
                elif '0' in flags and kind in 'diuxX':
                    s = s.zfill(w)
                elif '-' in flags:
                    s = s.ljust(w)
                else:
                    s = s.rjust(w)
            out.append(s)
        if k < len(args) and type(b) is tuple:
            raise TypeError('not all arguments converted during string formatting')
        out.append(tmpl[pos:])
        r = SStr(()).join(out)
        return r.encode('latin-1') if isb else r
    return a % b


SPREAD = object()


def dict_display(items):
    if not E.active:
        d = {}
        for k, v in items:
            if k is SPREAD:
                d.update(v)
            else:
                d[k] = v
        return d
    d = SDict()
    for k, v in items:
        if k is SPREAD:
            d.update(v)
        else:
            d[k] = v
    return d


def set_display(items):
    if not E.active:
        return set(items)
    return SSet(items)


def reraise():
    import sys
    ex = sys.exc_info()[1]
    if isinstance(ex, EngineSignal):
        raise ex


def truth(x):
    return bool(x) if isinstance(x, Sym) else x


NAMES = {
    '__rt_truth__': truth,
    '__rt_call__': call, '__rt_callm__': callm, '__rt_callm_msg__': callm_msg, '__rt_getitem__': getitem,
    '__rt_slice__': r_slice, '__rt_mod__': mod, '__rt_msg__': msg, '__rt_fstr__': fstr, '__rt_fstr_msg__': fstr_msg,
    '__rt_contains__': contains, '__rt_notin__': notin, '__rt_is__': r_is, '__rt_isnot__': r_isnot,
    '__rt_and__': r_and, '__rt_or__': r_or, '__rt_not__': r_not, '__rt_dict__': dict_display,
    '__rt_set__': set_display, '__rt_spread__': SPREAD, '__rt_reraise__': reraise, '__rt_super__': r_super,
}
