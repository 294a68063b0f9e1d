"""unicode_iter against the definition of UTF-16."""
from amazon.ion.util import unicode_iter


def expected(units):
    """The code points of the units, or None if a surrogate is unpaired; how many come before that."""
    out = []
    i = 0
    while i < len(units):
        u = units[i]
        if 0xD800 <= u <= 0xDBFF and i + 1 < len(units) and 0xDC00 <= units[i + 1] <= 0xDFFF:
            out.append(0x10000 + (u - 0xD800) * 0x400 + (units[i + 1] - 0xDC00))
            i += 2
        elif 0xD800 <= u <= 0xDFFF:
            return out, False
        else:
            out.append(u)
            i += 1
    return out, True


def iterate(h, n, lo=0, hi=0x10FFFF):
    s = h.str('s', n, lo, hi, surrogates=True)
    want, good = expected([ord(c) for c in s])
    got = []
    try:
        for p in unicode_iter(s):
            got.append(p)
            h.check(0 <= p <= 0x10FFFF, 'range')
        h.check(good, 'unpaired surrogate accepted')
    except ValueError:
        h.check(not good, 'refused')
        h.reached('refused')
        h.check(len(got) <= len(want), 'number before the error')
        for i in range(len(got)):
            h.check(got[i] == want[i], 'code point before the error')
        return
    h.observe('points', got)
    h.check(len(got) == len(want), 'number of code points')
    for i in range(len(want)):
        h.check(got[i] == want[i], 'code point')
    h.reached('end')
