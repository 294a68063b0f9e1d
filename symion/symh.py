"""Harness interface in symbolic mode (the concrete twin is replay.py)."""
import z3
from .engine import ENGINE as E, PathStop, PathAbort
from . import rt, loader
from .values import *


class SymHarness(object):
    symbolic = True

    def __init__(self, tier):
        self.tier = tier

    # ---- inputs
    def int(self, name, lo, hi):
        x = sym_int(name, lo, hi)
        E.inputs.append((name, 'int', x))
        return x

    def digits(self, name, n):
        """An integer of exactly n decimal digits (0 allowed for n = 1)."""
        ds = []
        for i in range(n):
            d = z3.BitVec('%s#%d' % (name, i), 5)
            E.assert_axiom(z3.And(z3.ULE(d, 9), d != 0) if i == 0 and n > 1 else z3.ULE(d, 9))
            ds.append(d)
        E.inputs.append((name, 'digits', ds))
        return rt.int_from_digits(ds)

    def bool(self, name):
        x = sym_int(name, 0, 1)
        E.inputs.append((name, 'int', x))
        return x == 1

    def flag(self, name):
        """A boolean input settled by forking."""
        return bool(self.bool(name))

    def choice(self, name, options):
        """One of the options, by forking on an index input."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        lo, hi = 0, len(options)
        while hi - lo > 1:
            m = (lo + hi) // 2
            if i < m:
                hi = m
            else:
                lo = m
        return options[lo]

    def bytes(self, name, n, lo=0, hi=255):
        els = [sym_int('%s[%d]' % (name, i), lo, hi) for i in range(n)]
        E.inputs.append((name, 'bytes', els))
        return mk_bytes(els)

    def str(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        els = [sym_int('%s[%d]' % (name, i), lo, hi) for i in range(n)]
        E.inputs.append((name, 'str', els))
        if not surrogates and hi >= 0xD800 and lo <= 0xDFFF:
            for x in els:
                E.assume(b_term(b_or([i_lt(x, 0xD800), i_lt(0xDFFF, x)])))
        return mk_str(els)

    def float(self, name):
        b = z3.BitVec(name, 64)
        E.inputs.append((name, 'float', b))
        return SFloat(b)

    def float_text(self, text):
        """The finite float whose repr() is the given text."""
        neg, ds, e = rt.parse_float_text(SStr._coerce(text))
        num = 0
        for d in ds:
            num = num * 10 + d
        f = rt.new_text_float(neg, num, e, E.defs.setdefault('float texts', []), len(ds))
        E.defs[('repr', f.b.get_id())] = text
        E.keep.append((f, text))
        return f

    def decimal(self, sign, coefficient, exponent):
        """Decimal((sign, digits of coefficient, exponent))"""
        m = loader.get_shim('decimal')
        sign = int(sign)
        return m._dec_from_triple(sign, rt.r_str(coefficient), exponent)

    def dec_parts(self, d):
        """(sign, coefficient, exponent) of a Decimal; coefficient None for specials."""
        if d._is_special:
            return (d._sign, None, str(d._exp))
        return (d._sign, rt.r_int(d._int), d._exp)

    # ---- claims
    def assume(self, cond):
        if isinstance(cond, SBool):
            E.assume(cond.e)
        elif not cond:
            raise PathAbort('assumption')

    def check(self, cond, label):
        if not isinstance(cond, SBool):
            if not cond:
                self._fail(label, None)
            E.stats.checks += 1
            E.stats.checks_concrete += 1
            return
        r, m = E.valid(cond.e)
        if r == 'refuted':
            self._fail(label, m)
        elif r == 'unknown':
            E.stats.note('undecided check: ' + label)

    def check_each(self, conds, label):
        """Every cond holds; each one proved helps with the next."""
        for i, c in enumerate(conds):
            self.check(c, label)
            if isinstance(c, SBool):
                E.assert_axiom(c.e)

    def _fail(self, label, model):
        E.failures.append((label, model))
        raise PathStop()

    def fail(self, label):
        self._fail(label, None)

    def all(self, conds):
        return b_and(list(conds))

    def any(self, conds):
        return b_or(list(conds))

    def implies(self, a, b):
        return b_or([b_not(a), b])

    def eq(self, a, b):
        """Structural equality without forking where possible."""
        return struct_eq(a, b)

    def ite(self, c, a, b):
        return i_ite(c, a, b) if isinstance(c, SBool) else (a if c else b)

    def same_float(self, a, b):
        """Equal bit patterns, all NaNs being one."""
        a, b = sfloat(a), sfloat(b)
        return b_or([mk_bool(z3.simplify(a.b == b.b)), b_and([a.is_nan(), b.is_nan()])])

    def float_bits(self, f):
        return mk_int(z3.ZeroExt(1, sfloat(f).b), 0, (1 << 64) - 1)

    def from_bits(self, n):
        return SFloat(z3.Extract(63, 0, to_term(n, 65)))

    def widen(self, n):
        """The float whose binary32 pattern is n."""
        return float_from32(z3.Extract(31, 0, to_term(n, 40)))

    def observe(self, name, value):
        E.observations.append((name, value))

    def reached(self, label):
        E.reached.add(label)

    def stop(self):
        raise PathStop()


def struct_eq(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (type(a) is type(b) or type(a) in (
            tuple, list) and type(b) in (tuple, list)):
        if len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = struct_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return b_and(rs)
    r = (a == b)
    return r if isinstance(r, SBool) else bool(r)


def eval_model(m, x):
    """JSON-able value of x under model m."""
    if isinstance(x, SBool):
        return z3.is_true(m.eval(x.e, model_completion=True))
    if isinstance(x, SInt):
        return m.eval(x.e, model_completion=True).as_signed_long()
    if isinstance(x, SStr):
        return {'str': [eval_model(m, e) for e in x.els]}
    if isinstance(x, SBytes):
        return {'bytes': [eval_model(m, e) for e in x.els]}
    if isinstance(x, SFloat):
        return {'float': m.eval(x.b, model_completion=True).as_long()}
    if isinstance(x, z3.BitVecRef):
        return m.eval(x, model_completion=True).as_long()
    return plain(x, lambda y: eval_model(m, y))


def plain(x, rec):
    import struct
    if x is None or x is True or x is False:
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, str):
        return {'str': [ord(c) for c in x]}
    if isinstance(x, (bytes, bytearray)):
        return {'bytes': list(x)}
    if isinstance(x, float):
        return {'float': int.from_bytes(struct.pack('>d', x), 'big') if x == x else 0x7ff8 << 48}
    if isinstance(x, (tuple, list)):
        return [rec(y) for y in x]
    return {'repr': type(x).__name__}


def eval_inputs(m):
    out = {}
    for name, kind, t in E.inputs:
        if kind == 'int':
            out[name] = eval_model(m, t)
        elif kind == 'digits':
            out[name] = ''.join(str(m.eval(e, model_completion=True).as_long()) for e in t)
        elif kind in ('bytes', 'str'):
            out[name] = [eval_model(m, e) for e in t]
        else:
            out[name] = m.eval(t, model_completion=True).as_long()
    return out
