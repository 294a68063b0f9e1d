"""Models of library classes over proxies: BytesIO/StringIO, re, and fast exact paths for datetime
and decimal."""
import io as _io
import operator
import math
import re as _re
try:
    import re._parser as sre_parse
    import re._constants as sre
except ImportError:
    import sre_parse
    import sre_constants as sre
from .engine import ENGINE as E
from . import rt
from .values import *


class STextIOBase(object):
    pass


class _Buf(object):
    def __init__(self, initial=None, newline=None):
        self.els = []
        self.pos = 0
        self.closed = False
        if initial is not None:
            self.els = list(self._coerce(initial))

    def write(self, data):
        els = self._coerce(data)
        if self.pos > len(self.els):
            self.els.extend([0] * (self.pos - len(self.els)))
        self.els[self.pos:self.pos + len(els)] = list(els)
        self.pos += len(els)
        return len(els)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, n=-1):
        n = -1 if n is None else int(n)
        if n < 0:
            n = max(0, len(self.els) - self.pos)
        r = self.els[self.pos:self.pos + n]
        self.pos += len(r)
        return self._mk(r)

    read1 = read

    def peek(self, n=0):
        return self._mk(self.els[self.pos:])

    def readline(self, size=-1):
        r = []
        while self.pos < len(self.els):
            x = self.els[self.pos]
            r.append(x)
            self.pos += 1
            if i_eq(x, 10):
                break
        return self._mk(r)

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(l):
                return
            yield l

    def getvalue(self):
        return self._mk(self.els)

    def getbuffer(self):
        return self._mk(self.els)

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        pos = int(pos)
        self.pos = max(0, pos if whence == 0 else self.pos + pos if whence == 1 else len(self.els) + pos)
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.els[n:]
        return n

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True
    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SBytesIO(_Buf):
    @staticmethod
    def _coerce(x):
        r = SBytes._coerce(x)
        if r is None:
            raise TypeError("a bytes-like object is required, not '%s'" % rt.pytype(x).__name__)
        return r

    _mk = staticmethod(mk_bytes)


class SStringIO(_Buf, STextIOBase):
    @staticmethod
    def _coerce(x):
        r = SStr._coerce(x)
        if r is None:
            raise TypeError("string argument expected, got '%s'" % rt.pytype(x).__name__)
        return r

    _mk = staticmethod(mk_str)


# ------------------------------------------------------------------------------------------- re

class SMatch(object):
    def __init__(self, pat, s, groups, names):
        self.re, self.string, self._g, self._names = pat, s, groups, names
        self.pos = 0
        self.lastindex = max([k for k in groups if k] or [0]) or None

    def _get(self, g, default=None):
        if isinstance(g, str):
            g = self._names[g]
        if g not in self._g:
            return default
        a, b = self._g[g]
        return self.string._mk(self.string.els[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._get(n, default)) for n in self._names)

    def start(self, g=0):
        return self._g[g][0] if g in self._g else -1

    def end(self, g=0):
        return self._g[g][1] if g in self._g else -1

    def span(self, g=0):
        return self._g.get(g, (-1, -1))


class SPattern(object):
    """A compiled pattern; symbolic subjects are matched by a backtracking matcher that forks on
    character tests, concrete ones by the real engine."""

    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern, self.flags, self.groups = pattern, self.real.flags, self.real.groups
        self.groupindex = self.real.groupindex
        self.tree = None

    def _tree(self):
        if self.tree is None:
            self.tree = list(sre_parse.parse(self.pattern, self.flags & ~_re.UNICODE if isinstance(
                self.pattern, bytes) else self.flags))
        return self.tree

    def _run(self, s, start, full=False):
        M = _Matcher(s.els, self.flags, isinstance(self.pattern, str))
        for end, g in M.seq(self._tree(), 0, start, {}):
            if full and end != len(s.els):
                continue
            g = dict(g)
            g[0] = (start, end)
            return SMatch(self, s, g, dict(self.groupindex))
        return None

    def _lift(self, s):
        if isinstance(s, Sym):
            return s
        return None

    def match(self, s, pos=0, endpos=None):
        if not isinstance(s, SSeq):
            return self.real.match(s, pos, *([] if endpos is None else [endpos]))
        return self._run(s, pos)

    def fullmatch(self, s, pos=0):
        if not isinstance(s, SSeq):
            return self.real.fullmatch(s, pos)
        return self._run(s, pos, True)

    def search(self, s, pos=0):
        if not isinstance(s, SSeq):
            return self.real.search(s, pos)
        for i in range(pos, len(s.els) + 1):
            m = self._run(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        if not isinstance(s, SSeq):
            for m in self.real.finditer(s):
                yield m
            return
        pos = 0
        while pos <= len(s.els):
            m = self.search(s, pos)
            if m is None:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s):
        if not isinstance(s, SSeq):
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            out.append(m.group() if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups())
        return out

    def sub(self, repl, s, count=0):
        if not isinstance(s, SSeq):
            return self.real.sub(repl, s, count)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s._mk(s.els[pos:m.start()]))
            if callable(repl):
                out.append(repl(m))
            else:
                if '\\' in repl if isinstance(repl, str) else b'\\' in repl:
                    return self.real.sub(repl, s.concrete(), count)
                out.append(repl)
            pos = m.end()
            n += 1
        out.append(s._mk(s.els[pos:]))
        empty = SStr(()) if s.PYTYPE is str else SBytes(())
        return empty.join(out)

    def split(self, s, maxsplit=0):
        if not isinstance(s, SSeq):
            return self.real.split(s, maxsplit)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s._mk(s.els[pos:m.start()]))
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(s._mk(s.els[pos:]))
        return out


class _Matcher(object):
    def __init__(self, els, flags, is_str):
        self.els, self.flags, self.is_str = els, flags, is_str

    def category(self, cat, c):
        name = str(cat)
        neg = '_NOT_' in name
        uni = self.is_str and not self.flags & _re.ASCII
        if uni and (type(c) is int and c > 127 or type(c) is not int and c.hi > 127 and i_lt(127, c)):
            ch = chr(c if type(c) is int else c.__index__())
            r = bool(_re.match({'DIGIT': r'\d', 'SPACE': r'\s', 'WORD': r'\w'}[name.split('_')[-1]], ch))
            return r != neg
        if 'DIGIT' in name:
            r = b_and([i_lt(47, c), i_lt(c, 58)])
        elif 'SPACE' in name:
            r = b_or([b_and([i_lt(8, c), i_lt(c, 14)]), i_eq(c, 32)] +
                     ([b_and([i_lt(27, c), i_lt(c, 32)])] if uni else []))
        else:
            r = b_or([b_and([i_lt(47, c), i_lt(c, 58)]), b_and([i_lt(64, c), i_lt(c, 91)]),
                      b_and([i_lt(96, c), i_lt(c, 123)]), i_eq(c, 95)])
        return b_not(r) if neg else r

    def lit(self, v, c):
        if self.flags & _re.IGNORECASE:
            alts = set([v])
            ch = chr(v)
            for x in (ch.lower(), ch.upper(), ch.swapcase()):
                if len(x) == 1:
                    alts.add(ord(x))
            if self.is_str and v in (0x6b, 0x4b):
                alts.add(0x212a)
            if self.is_str and v in (0x73, 0x53):
                alts.add(0x17f)
            if self.is_str and v in (0x69, 0x49):
                alts.update((0x130, 0x131) if False else ())
            return b_or([i_eq(c, a) for a in sorted(alts)])
        return i_eq(c, v)

    def charset(self, av, c):
        neg = False
        conds = []
        for op, a in av:
            if op is sre.NEGATE:
                neg = True
            elif op is sre.LITERAL:
                conds.append(self.lit(a, c))
            elif op is sre.RANGE:
                lo, hi = a
                r = b_and([i_lt(lo - 1, c), i_lt(c, hi + 1)])
                if self.flags & _re.IGNORECASE:
                    r = b_or([r] + [self.lit(v, c) for v in range(lo, min(hi, lo + 200) + 1)])
                conds.append(r)
            elif op is sre.CATEGORY:
                r = self.category(a, c)
                conds.append(r)
            else:
                raise NotImplementedError('regex %s' % op)
        r = b_or(conds)
        return b_not(r) if neg else r

    def seq(self, items, k, pos, g):
        """Yields (end, groups) for items[k:] at pos, in the engine's priority order."""
        if k == len(items):
            yield pos, g
            return
        op, av = items[k]
        els, n = self.els, len(self.els)
        if op in (sre.LITERAL, sre.NOT_LITERAL, sre.IN, sre.ANY):
            if pos >= n:
                return
            c = els[pos]
            if op is sre.LITERAL:
                t = self.lit(av, c)
            elif op is sre.NOT_LITERAL:
                t = b_not(self.lit(av, c))
            elif op is sre.IN:
                t = self.charset(av, c)
            else:
                t = True if self.flags & _re.DOTALL else b_not(i_eq(c, 10))
            if t:
                for r in self.seq(items, k + 1, pos + 1, g):
                    yield r
            return
        if op is sre.AT:
            name = str(av)
            if name in ('AT_BEGINNING_STRING',) or (name == 'AT_BEGINNING' and not self.flags & _re.MULTILINE):
                ok = pos == 0
            elif name == 'AT_BEGINNING':
                ok = pos == 0 or bool(i_eq(els[pos - 1], 10))
            elif name == 'AT_END_STRING':
                ok = pos == n
            elif name == 'AT_END':
                ok = pos == n or (pos == n - 1 and bool(i_eq(els[pos], 10))) or (
                    bool(self.flags & _re.MULTILINE) and pos < n and bool(i_eq(els[pos], 10)))
            else:
                raise NotImplementedError('regex %s' % name)
            if ok:
                for r in self.seq(items, k + 1, pos, g):
                    yield r
            return
        if op is sre.SUBPATTERN:
            gid, sub = av[0], list(av[-1])
            for e, g2 in self.seq(sub, 0, pos, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (pos, e)
                for r in self.seq(items, k + 1, e, g2):
                    yield r
            return
        if op is sre.BRANCH:
            for alt in av[1]:
                for e, g2 in self.seq(list(alt), 0, pos, g):
                    for r in self.seq(items, k + 1, e, g2):
                        yield r
            return
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            for r in self.repeat(items, k, sub, lo, hi, op is sre.MAX_REPEAT, pos, g, 0):
                yield r
            return
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                raise NotImplementedError('regex lookbehind')
            hit = None
            for r in self.seq(list(sub), 0, pos, g):
                hit = r
                break
            if (hit is not None) == (op is sre.ASSERT):
                for r in self.seq(items, k + 1, pos, hit[1] if hit and op is sre.ASSERT else g):
                    yield r
            return
        raise NotImplementedError('regex %s' % op)

    def repeat(self, items, k, sub, lo, hi, greedy, pos, g, count):
        def more():
            if hi is sre.MAXREPEAT or count < hi:
                for e, g2 in self.seq(sub, 0, pos, g):
                    if e == pos and count >= lo:
                        continue
                    for r in self.repeat(items, k, sub, lo, hi, greedy, e, g2, count + 1):
                        yield r
        if greedy:
            for r in more():
                yield r
            if count >= lo:
                for r in self.seq(items, k + 1, pos, g):
                    yield r
        else:
            if count >= lo:
                for r in self.seq(items, k + 1, pos, g):
                    yield r
            for r in more():
                yield r


def make_re(m):
    cache = {}

    def compile_(p, flags=0):
        if isinstance(p, SPattern):
            return p
        key = (p, int(flags))
        if key not in cache:
            cache[key] = SPattern(p, flags)
        return cache[key]
    m.compile = compile_
    m.match = lambda p, s, flags=0: compile_(p, flags).match(s)
    m.fullmatch = lambda p, s, flags=0: compile_(p, flags).fullmatch(s)
    m.search = lambda p, s, flags=0: compile_(p, flags).search(s)
    m.sub = lambda p, r, s, count=0, flags=0: compile_(p, flags).sub(r, s, count)
    m.split = lambda p, s, maxsplit=0, flags=0: compile_(p, flags).split(s, maxsplit)
    m.findall = lambda p, s, flags=0: compile_(p, flags).findall(s)
    m.finditer = lambda p, s, flags=0: compile_(p, flags).finditer(s)
    return m


# ----------------------------------------------------------------------- operator / math models

def _index(x):
    if isinstance(x, SInt):
        return x if type(x) is SInt else mk_int(x.e, x.lo, x.hi)
    if isinstance(x, SBool):
        return x.as_sint()
    return operator.index(x)


def _int_identity(real):
    def f(x, *a):
        if isinstance(x, SInt):
            return x
        fn = getattr(type(x), '__%s__' % real.__name__, None)
        if isinstance(fn, rt._FUNC):
            return fn(x)
        return real(x, *a)
    return f


rt.FUNC_MODELS[operator.index] = _index
for _f in (math.trunc, math.floor, math.ceil):
    rt.FUNC_MODELS[_f] = _int_identity(_f)


def patch(name, m):
    if name == 'decimal':
        _patch_decimal(m)
    elif name == 'datetime':
        _patch_datetime(m)


def _patch_decimal(m):
    D = m.Decimal
    old_cmp = D._cmp

    def _cmp(self, other):
        # an infinite operand decides without looking at digits
        if self._is_special or other._is_special:
            si, oi = self._isinfinity(), other._isinfinity()
            return 0 if si == oi else -1 if si < oi else 1
        return old_cmp(self, other)
    D._cmp = _cmp
    inf_ops = {'__lt__': lambda s: s < 0, '__le__': lambda s: s < 0, '__gt__': lambda s: s > 0,
               '__ge__': lambda s: s > 0}
    for op, f in inf_ops.items():
        def wrap(old, f):
            def g(self, other, *a):
                if self._exp == 'F' and isinstance(other, (int, SInt)):
                    return f(-1 if self._sign else 1)
                return old(self, other, *a)
            return g
        setattr(D, op, wrap(getattr(D, op), f))


def _known_multiple(x, k):
    """(factor) y with x == k * y when that is apparent, else None."""
    if type(x) is int:
        return x // k if x % k == 0 else None
    return E.defs.get(('mulof', x.e.get_id(), x.e.size(), k))


def _times(x, k):
    r = x * k
    if isinstance(r, SInt):
        E.keep.append(r.e)
        E.defs[('mulof', r.e.get_id(), r.e.size(), k)] = x
    return r


def _carry(x, period):
    """(q, x - q * period) with 0 <= remainder < period, by comparisons when q has a small range."""
    if type(x) is int:
        return divmod(x, period)
    ql, qh = x.lo // period, x.hi // period
    if qh - ql > 4:
        return divmod(x, period)
    q = ql
    for k in range(ql + 1, qh + 1):
        q = i_ite(mk_not_lt(x, k * period), k, q)
    r = x - q * period
    return q, clip(r, 0, period - 1)


def mk_not_lt(x, y):
    return b_not(i_lt(x, y))


def is_leap_term(year):
    if type(year) is int:
        return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    return b_and([i_eq(i_and(year, 3), 0),
                  b_or([b_not(i_eq(i_divmod(year, 25)[1], 0)), i_eq(i_and(year, 15), 0)])])


def _patch_datetime(m):
    """Exact replacements, for integer arguments, of the arithmetic in datetime.py (which goes through
    floating point and generic calendar conversions).  Fields keep their meaning."""
    TD, DT = m.timedelta, m.datetime
    td_new = TD.__new__
    obj_new = object.__new__

    def mk_td(cls, secs, us):
        if type(us) is not int or not 0 <= us < 1000000:
            c, us = _carry(us, 1000000)
            secs = secs + c
        t = obj_new(cls)
        d, s = _carry(secs, 86400)
        lo, hi = bounds(d)
        if lo < -999999999 or hi > 999999999:
            if type(d) is int or b_or([i_lt(d, -999999999), i_lt(999999999, d)]):
                raise OverflowError('timedelta # of days is too large')
            d = clip(d, -999999999, 999999999)
        t._days, t._seconds, t._microseconds, t._hashcode = d, s, us, -1
        t._secs = secs
        return t

    def _new(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not all(isinstance(x, (int, SInt)) for x in args):
            args = tuple(x.concrete() if isinstance(x, SFloat) else int(x) if isinstance(x, SBool) else x
                         for x in args)
            t = td_new(cls, *args)
            t._secs = t._days * 86400 + t._seconds
            return t
        days = days + weeks * 7
        mins = minutes + hours * 60 + days * 1440
        if type(seconds) is int and seconds % 60 == 0:
            secs = _times(mins + seconds // 60, 60)
        elif type(mins) is int and mins == 0:
            secs = seconds
        else:
            secs = mins * 60 + seconds
        return mk_td(cls, secs, microseconds + milliseconds * 1000)
    TD.__new__ = _new

    def td_cmp(f):
        def op(self, other):
            if not isinstance(other, TD):
                return NotImplemented
            if type(self._microseconds) is int and type(other._microseconds) is int \
                    and self._microseconds == other._microseconds:
                a, b = self._secs, other._secs
                if f == 'eq':
                    return i_eq(a, b)
                return {'lt': lambda: i_lt(a, b), 'le': lambda: b_not(i_lt(b, a)), 'gt': lambda: i_lt(b, a),
                        'ge': lambda: b_not(i_lt(a, b))}[f]()
            e = b_and([i_eq(self._secs, other._secs), i_eq(self._microseconds, other._microseconds)])
            if f == 'eq':
                return e
            lt = b_or([i_lt(self._secs, other._secs),
                       b_and([i_eq(self._secs, other._secs), i_lt(self._microseconds, other._microseconds)])])
            return {'lt': lambda: lt, 'le': lambda: b_or([lt, e]), 'gt': lambda: b_not(b_or([lt, e])),
                    'ge': lambda: b_not(lt)}[f]()
        return op
    for f in ('eq', 'lt', 'le', 'gt', 'ge'):
        setattr(TD, '__%s__' % f, td_cmp(f))

    def td_ne(self, other):
        r = TD.__eq__(self, other)
        return r if r is NotImplemented else b_not(r)
    TD.__ne__ = td_ne

    def td_hash(self):
        return hash((self._secs, self._microseconds))
    TD.__hash__ = td_hash

    def td_add(self, other):
        if not isinstance(other, TD):
            return NotImplemented
        a, b = _known_multiple(self._secs, 60), _known_multiple(other._secs, 60)
        secs = _times(a + b, 60) if a is not None and b is not None else self._secs + other._secs
        return mk_td(TD, secs, self._microseconds + other._microseconds)

    def td_neg(self):
        a = _known_multiple(self._secs, 60)
        return mk_td(TD, _times(-a, 60) if a is not None else -self._secs, -self._microseconds)

    def td_sub(self, other):
        return NotImplemented if not isinstance(other, TD) else td_add(self, td_neg(other))
    TD.__add__ = TD.__radd__ = td_add
    TD.__neg__ = td_neg
    TD.__sub__ = td_sub
    TD.__bool__ = lambda self: bool(b_not(b_and([i_eq(self._secs, 0), i_eq(self._microseconds, 0)])))
    td_total = TD.total_seconds

    def total_seconds(self):
        # a whole number of seconds stays exact (an int stands for the equal float)
        if type(self._microseconds) is int and self._microseconds == 0 and type(self._secs) is not int:
            return self._secs
        if type(self._secs) is not int or type(self._microseconds) is not int:
            return (int(self._secs) * 10 ** 6 + int(self._microseconds)) / 10 ** 6
        return td_total(self)
    TD.total_seconds = total_seconds
    for nm in ('min', 'max', 'resolution'):
        setattr(TD, nm, TD(days=-999999999) if nm == 'min' else
                TD(days=999999999, hours=23, minutes=59, seconds=59, microseconds=999999) if nm == 'max' else
                TD(microseconds=1))
    for obj in [v for c in (m.timezone, m.datetime, m.time) for v in list(vars(c).values())] + list(vars(m).values()):
        for td in (obj, getattr(obj, '_offset', None) if type(obj) is m.timezone else None):
            if type(td) is TD and not hasattr(td, '_secs'):
                td._secs = td._days * 86400 + td._seconds

    # ---- calendar
    m._is_leap = is_leap_term

    def _days_in_month(year, month):
        if type(month) is int and month != 2:
            return m._DAYS_IN_MONTH[month]
        feb = i_ite(is_leap_term(year), 29, 28)
        if type(month) is int:
            return feb
        short = b_or([i_eq(month, k) for k in (4, 6, 9, 11)])
        return i_ite(i_eq(month, 2), feb, i_ite(short, 30, 31))
    m._days_in_month = _days_in_month

    def shift(dt, td):
        """Fields of dt + td, without a range check on the year.  Adding back what was subtracted
        gives the original fields (a fact of the calendar, used as a lemma)."""
        if not isinstance(td._secs, SInt):
            return shift_generic(dt, td)
        src = fields(dt)
        done = E.defs.setdefault('shifts', [])
        mins = _known_multiple(td._secs, 60)
        for f, fm, g in done:
            if mins is None or fm is None:
                continue
            same = b_and([i_eq(x, y) for x, y in zip(src, g)] + [i_eq(mins, -fm)])
            if same is True or (isinstance(same, SBool) and E.lemma(same.e)):
                return f
        r = shift_generic(dt, td)
        done.append((src, mins, r))
        return r

    def shift_generic(dt, td):
        us = dt._microsecond + td._microseconds
        c, us = (0, us) if type(us) is int and 0 <= us < 1000000 else _carry(us, 1000000)
        mins = _known_multiple(td._secs, 60)
        if mins is None or not (type(c) is int and c == 0):
            s = dt._second + dt._minute * 60 + dt._hour * 3600 + td._secs + c
            days, s = _carry(s, 86400)
            mi, s = divmod(s, 60)
            h, mi = divmod(mi, 60)
        else:
            s = dt._second
            t = dt._minute + dt._hour * 60 + mins
            days, t = _carry(t, 1440)
            h, mi = divmod(t, 60)
        y, mo, d = dt._year, dt._month, dt._day
        if not (type(days) is int and days == 0) and days != 0:
            if days == 1:
                if d < _days_in_month(y, mo):
                    d = d + 1
                else:
                    d = 1
                    if mo == 12:
                        y, mo = y + 1, 1
                    else:
                        mo = mo + 1
            elif days == -1:
                if d > 1:
                    d = d - 1
                elif mo == 1:
                    y, mo, d = y - 1, 12, 31
                else:
                    mo = mo - 1
                    d = _days_in_month(y, mo)
            else:
                y, mo, d = m._normalize_date(int(y), int(mo), int(d) + int(days))
        return y, mo, d, h, mi, s, us

    def dt_add(self, other):
        if not isinstance(other, TD):
            return NotImplemented
        f = shift(self, other)
        if not b_and([b_not(i_lt(f[0], m.MINYEAR)), b_not(i_lt(m.MAXYEAR, f[0]))]):
            raise OverflowError('date value out of range')
        f = (clip(f[0], 1, 9999), clip(f[1], 1, 12), clip(f[2], 1, 31), clip(f[3], 0, 23)) + f[4:]
        return type(self)(f, tzinfo=self._tzinfo)
    dt_sub_old = DT.__sub__

    def dt_sub(self, other):
        if isinstance(other, TD):
            return self + -other
        return dt_sub_old(self, other)
    DT.__add__ = DT.__radd__ = dt_add
    DT.__sub__ = dt_sub
    dt_eq_old = DT.__eq__

    def fields(d):
        return (d._year, d._month, d._day, d._hour, d._minute, d._second, d._microsecond)

    def dt_eq(self, other):
        if not isinstance(other, DT):
            return dt_eq_old(self, other)
        mytz, ottz = self._tzinfo, other._tzinfo
        a, b = fields(self), fields(other)
        if mytz is not ottz:
            if not all(x is None or type(x).__name__ in ('OffsetTZInfo', 'timezone') for x in (mytz, ottz)):
                return dt_eq_old(self, other)
            ma, mb = self.utcoffset(), other.utcoffset()
            if ma is None or mb is None:
                if ma is not mb:
                    return False
            elif not (ma == mb):
                a, b = shift(self, -ma), shift(other, -mb)
        return b_and([i_eq(x, y) for x, y in zip(a, b)])
    DT.__eq__ = dt_eq

    def dt_ne(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else b_not(r)
    DT.__ne__ = dt_ne
    DT.__hash__ = lambda self: 0

    dt_strftime_old = DT.strftime

    def strftime(self, fmt):
        if not any(isinstance(x, Sym) for x in fields(self)) and self._tzinfo is None:
            return dt_strftime_old(self, fmt)
        out = ''
        i = 0
        simple = {'m': '_month', 'd': '_day', 'H': '_hour', 'M': '_minute', 'S': '_second'}
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c != '%':
                out = out + c
                continue
            c = fmt[i]
            i += 1
            if c in simple:
                out = out + zpad(getattr(self, simple[c]), 2)
            elif c == 'Y':
                out = out + rt.r_str(self._year)
            elif c == 'f':
                out = out + zpad(self._microsecond, 6)
            elif c == 'z':
                off = self.utcoffset()
                if off is None:
                    continue
                sg = '+'
                if off._secs < 0:
                    sg, off = '-', -off
                mins = _known_multiple(off._secs, 60)
                if mins is None or off._microseconds != 0:
                    mins, s = divmod(off._secs, 60)
                else:
                    s = 0
                h, mi = divmod(clip(mins, 0, 1439), 60)
                out = out + sg + zpad(h, 2) + zpad(mi, 2)
                if off._microseconds != 0:
                    out = out + zpad(s, 2) + '.' + zpad(off._microseconds, 6)
                elif s != 0:
                    out = out + zpad(s, 2)
            elif c == '%':
                out = out + '%'
            else:
                raise NotImplementedError('strftime %' + c)
        return out
    DT.strftime = strftime


def zpad(x, n):
    """n decimal digits of 0 <= x < 10**n."""
    if type(x) is int:
        return '%0*d' % (n, x)
    return rt.zero_padded(x, n)


# --------------------------------------------------------------------------------------- codecs

class SUtf8Decoder(object):
    """codecs.getincrementaldecoder('utf-8')()"""

    def __init__(self, errors='strict'):
        if errors != 'strict':
            raise NotImplementedError('utf-8 errors=' + errors)
        self.errors = errors
        self.tail = ()

    def decode(self, data, final=False):
        els = self.tail + tuple(SBytes._coerce(data))
        if final:
            self.tail = ()
            return mk_bytes(els).decode('utf-8')
        s, self.tail = utf8_decode_partial(els)
        return s

    def reset(self):
        self.tail = ()

    def getstate(self):
        return (mk_bytes(self.tail), 0)


class SUtf8StreamReader(object):
    """codecs.getreader('utf-8')"""

    def __init__(self, stream, errors='strict'):
        self.stream, self.d, self.chars = stream, SUtf8Decoder(errors), mk_str(())

    def read(self, size=-1, chars=-1):
        if chars < 0:
            chars = size
        while chars < 0 or len(self.chars) < chars:
            new = self.stream.read() if size < 0 else self.stream.read(size)
            if not len(new):
                break
            self.chars = self.chars + self.d.decode(new)
        r = self.chars if chars < 0 else self.chars[:chars]
        self.chars = mk_str(()) if chars < 0 else self.chars[chars:]
        return r

    def __getattr__(self, name):
        return getattr(self.stream, name)


def make_codecs(m):
    utf8 = ('utf-8', 'utf8', 'utf_8', 'u8')

    def getter(cls, name):
        real = getattr(m, name)

        def get(encoding):
            return cls if encoding.lower() in utf8 else real(encoding)
        setattr(m, name, get)
    getter(SUtf8Decoder, 'getincrementaldecoder')
    getter(SUtf8StreamReader, 'getreader')
    return m
