"""Runs harnesses concretely against the real package (PyPy 3.9, the interpreter of the build).

usage: replay.py BATCH.json OUT.json      (or: replay.py --one REPLAY.json)
"""
from __future__ import print_function
import decimal
import importlib
import json
import os
import signal
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SYMION_REPO', '/repo'))
sys.dont_write_bytecode = True


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


class Stop(BaseException):
    pass


class TimeUp(BaseException):
    pass


ITEM_SECONDS = 20.0
CONTEXT = dict(prec=28, rounding=decimal.ROUND_HALF_EVEN, Emin=-999999, Emax=999999, capitals=1, clamp=0, flags=[],
               traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])


def _alarm(*a):
    raise TimeUp()


def plain(x):
    if x is None or x is True or x is False:
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, str):
        return {'str': [ord(c) for c in x]}
    if isinstance(x, (bytes, bytearray)):
        return {'bytes': list(x)}
    if isinstance(x, float):
        return {'float': int.from_bytes(struct.pack('>d', x), 'big') if x == x else 0x7ff8 << 48}
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    return {'repr': type(x).__name__}


class ConcHarness(object):
    symbolic = False

    def __init__(self, values, tier):
        self.values = values
        self.tier = tier
        self.observations = []

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.values.get(name, max(lo, min(hi, 0)))
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def digits(self, name, n):
        v = self.values.get(name, '1' + '0' * (n - 1))
        if len(v) != n or (n > 1 and v[0] == '0'):
            raise AssumeFailed(name)
        return int(v)

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    flag = bool

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def bytes(self, name, n, lo=0, hi=255):
        v = self.values.get(name, [lo] * n)
        if len(v) != n or not all(lo <= x <= hi for x in v):
            raise AssumeFailed(name)
        return bytes(bytearray(v))

    def str(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        v = self.values.get(name, [lo] * n)
        if len(v) != n or not all(lo <= x <= hi for x in v):
            raise AssumeFailed(name)
        if not surrogates and any(0xD800 <= x <= 0xDFFF for x in v):
            raise AssumeFailed(name)
        return u''.join(chr(x) for x in v)

    def float(self, name):
        return struct.unpack('>d', struct.pack('>Q', self.values.get(name, 0)))[0]

    def float_text(self, text):
        f = float(text)
        if repr(f) != text:
            raise AssumeFailed('repr')
        return f

    def decimal(self, sign, coefficient, exponent):
        from decimal import Decimal
        return Decimal((int(sign), tuple(int(c) for c in str(coefficient)), int(exponent)))

    def dec_parts(self, d):
        sign, digits, exp = d.as_tuple()
        if not isinstance(exp, int):
            return (sign, None, exp)
        return (sign, int(''.join(map(str, digits)) or '0'), exp)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed('assume')

    def check(self, cond, label):
        if not cond:
            raise CheckFailed(label)

    def check_each(self, conds, label):
        for c in conds:
            self.check(c, label)

    def fail(self, label):
        raise CheckFailed(label)

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def implies(self, a, b):
        return (not a) or b

    def eq(self, a, b):
        return bool(struct_eq(a, b))

    def ite(self, c, a, b):
        return a if c else b

    def same_float(self, a, b):
        return (a != a and b != b) or struct.pack('>d', a) == struct.pack('>d', b)

    def float_bits(self, f):
        return struct.unpack('>Q', struct.pack('>d', f))[0]

    def from_bits(self, n):
        return struct.unpack('>d', struct.pack('>Q', n))[0]

    def widen(self, n):
        return struct.unpack('>f', struct.pack('>I', n))[0]

    def observe(self, name, value):
        self.observations.append((name, plain(value)))

    def reached(self, label):
        pass

    def stop(self):
        raise Stop()


def struct_eq(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (type(a) is type(b) or type(a) in (
            tuple, list) and type(b) in (tuple, list)):
        return len(a) == len(b) and all(struct_eq(x, y) for x, y in zip(a, b))
    return a == b


def run_one(module, func, params, values, tier):
    """-> dict(outcome=ok|fail|assume|error, label, detail, obs)"""
    mod = importlib.import_module('harness.' + module)
    h = ConcHarness(values, tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, ITEM_SECONDS)
    try:
        getattr(mod, func)(h, **params)
        return {'outcome': 'ok', 'obs': h.observations}
    except TimeUp:
        return {'outcome': 'fail', 'label': 'no end within %d s' % ITEM_SECONDS}
    except Stop:
        return {'outcome': 'ok', 'obs': h.observations}
    except AssumeFailed as e:
        return {'outcome': 'assume', 'label': str(e)}
    except CheckFailed as e:
        return {'outcome': 'fail', 'label': str(e)}
    except Exception as e:
        return {'outcome': 'fail', 'label': 'exception ' + type(e).__name__,
                'detail': traceback.format_exc().strip().splitlines()[-6:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        decimal.setcontext(decimal.Context(**CONTEXT))


def main():
    sys.setrecursionlimit(10000)
    if sys.argv[1] == '--one':
        with open(sys.argv[2]) as f:
            r = json.load(f)
        res = run_one(r['module'], r['harness'], r['params'], r['inputs'], r.get('tier', 'quick'))
        print(json.dumps(res, indent=1))
        return 1 if res['outcome'] == 'fail' else 0
    with open(sys.argv[1]) as f:
        batch = json.load(f)
    out = []
    for r in batch:
        out.append(run_one(r['module'], r['harness'], r['params'], r['inputs'], r.get('tier', 'quick')))
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    return 0


if __name__ == '__main__':
    sys.exit(main())
