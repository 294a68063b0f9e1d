"""BufferQueue against one flat sequence."""
from amazon.ion.reader import BufferQueue


def queue(h, is_unicode, steps, ops, most=3, wide=False, start=()):
    q = BufferQueue(is_unicode)
    back, ahead = [], []            # what was consumed, what is to come
    k = 0
    ended = False
    lo, hi = (0, 0x10ffff) if wide else (0, 255)
    for n in start:
        data = h.str('data%d' % k, n, lo, hi) if is_unicode else h.bytes('data%d' % k, n)
        k += 1
        q.extend(data)
        ahead = ahead + [ord(c) if is_unicode else c for c in data]
    for i in range(steps):
        op = h.choice('op%d' % i, ops)
        if op == 'extend':
            n = h.choice('n%d' % i, range(1, most))
            if is_unicode:
                data = h.str('data%d' % k, n, lo, hi)
                units = [ord(data[j]) for j in range(n)]
            else:
                data = h.bytes('data%d' % k, n)
                units = [data[j] for j in range(n)]
            k += 1
            if ended:
                h.stop()
            q.extend(data)
            ahead = ahead + units
        elif op == 'read':
            n = h.choice('n%d' % i, range(most + 1))
            if n > len(ahead):
                try:
                    q.read(n)
                except IndexError:
                    pass
                else:
                    h.fail('read beyond the end')
            elif ended and n == len(ahead):
                h.stop()
            else:
                got = q.read(n)
                units = [ord(c) for c in got] if is_unicode else list(got)
                h.check(len(units) == n, 'length read')
                h.check(h.all([units[j] == ahead[j] for j in range(n)]), 'data read')
                back, ahead = back + ahead[:n], ahead[n:]
        elif op == 'byte':
            if not ahead:
                try:
                    q.read_byte()
                except IndexError:
                    pass
                else:
                    h.fail('read beyond the end')
            else:
                c = q.read_byte()
                if ahead[0] is None:
                    h.check(BufferQueue.is_eof(c), 'end of file')
                else:
                    h.check(not BufferQueue.is_eof(c), 'no end of file')
                    h.check(c == ahead[0], 'unit read')
                back, ahead = back + ahead[:1], ahead[1:]
        elif op == 'unread':
            if not back:
                try:
                    q.unread(65)
                except IndexError:
                    pass
                else:
                    h.fail('unread of nothing')
            elif back[-1] is None:
                h.stop()
            else:
                c = back[-1]
                q.unread(chr(c) if is_unicode and h.flag('char%d' % i) else c)
                back, ahead = back[:-1], [c] + ahead
        elif op == 'skip':
            n = h.choice('n%d' % i, range(most + 1))
            if ended and n >= len(ahead):
                h.stop()
            rem = q.skip(n)
            m = min(n, len(ahead))
            h.check(rem == n - m, 'left to skip')
            back, ahead = back + ahead[:m], ahead[m:]
        elif op == 'eof':
            if ended:
                h.stop()
            q.mark_eof()
            ended = True
            ahead = ahead + [None]
        else:
            seen = list(q)
            h.check(len(seen) == len(ahead), 'iteration')
            h.check(h.all([BufferQueue.is_eof(seen[j]) if ahead[j] is None else seen[j] == ahead[j]
                           for j in range(len(ahead))]), 'iterated data')
            back, ahead = back + ahead, []
        h.check(len(q) == len(ahead), 'length')
        h.check(q.position == len(back), 'position')
        if not back:
            h.check(q.position == 0, 'position')
    h.reached('end')
    rest = [q.read_byte() for j in range(len(ahead))]
    h.check(h.all([BufferQueue.is_eof(rest[j]) if ahead[j] is None else rest[j] == ahead[j]
                   for j in range(len(ahead))]), 'remaining data')
    h.check(len(q) == 0, 'length')


def wrong_type(h):
    """Data of the other kind is refused, without a trace."""
    u = h.flag('unicode')
    q = BufferQueue(u)
    q.extend(u'a' if u else b'a')
    try:
        q.extend(h.bytes('b', 2) if u else h.str('s', 2, 32, 300))
    except ValueError:
        pass
    else:
        h.fail('accepted')
    h.check(len(q) == 1, 'length')
    h.check(q.read_byte() == 97, 'data')
    h.check(len(q) == 0, 'length')
    h.reached('end')


def unread_other(h, is_unicode):
    """Unreading something else than what was read is refused when the buffer still has it."""
    q = BufferQueue(is_unicode)
    data = h.str('s', 2, 0, 0x10ffff) if is_unicode else h.bytes('s', 2)
    q.extend(data)
    c = q.read_byte()
    other = h.int('other', 0, 255)
    try:
        q.unread(other)
    except ValueError:
        h.check(other != c, 'refused')
        h.reached('refused')
        return
    h.check(other == c, 'accepted')
    h.check(len(q) == 2, 'length')
    h.reached('accepted')
