"""What the engine must decide right, whatever the package does."""


def holds(h):
    n = h.int('n', -1000, 1000)
    s = h.str('s', 2)
    h.check((n * 2) // 2 == n, 'arithmetic')
    h.check(s.encode('utf-8').decode('utf-8') == s, 'utf-8')
    h.check((b'%d' % n) == str(n).encode('ascii'), 'digits')
    h.reached('end')


def fails(h):
    n = h.int('n', 0, 10 ** 12)
    h.check(n * 3 != 123456789, 'only one integer fails')
