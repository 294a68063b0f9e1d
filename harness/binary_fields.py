"""Primitive fields of the binary format and the tree of buffers that orders them."""
from amazon.ion.writer_binary_raw_fields import _write_varuint, _write_varint, _write_uint, _write_int
from amazon.ion.writer_buffer import BufferTree

_WRITE = {'varuint': _write_varuint, 'varint': _write_varint, 'uint': _write_uint, 'int': _write_int}


def field(h, kind, bits, before=1):
    """The octets of a field decode to the value, are as few as possible, and their number is returned."""
    signed = kind in ('varint', 'int')
    variable = kind in ('varuint', 'varint')
    x = h.int('x', -(1 << bits) + 1 if signed else 0, (1 << bits) - 1)
    buf = bytearray(b'\x55' * before)
    n = _WRITE[kind](buf, x)
    h.observe('buf', bytes(buf))
    h.check(n == len(buf) - before, 'reported length')
    h.check(h.all([buf[i] == 0x55 for i in range(before)]), 'octets before the field')
    body = buf[before:]
    size = len(body)
    h.check(size >= 1, 'empty field')
    per = 7 if variable else 8
    neg = False
    m = 0
    for i in range(size):
        b = body[i]
        mask = 0x7f if variable else 0xff
        if variable:
            if i == size - 1:
                h.check((b & 0x80) != 0, 'end bit')
            else:
                h.check((b & 0x80) == 0, 'end bit')
        if i == 0 and signed:
            sign_bit = 0x40 if variable else 0x80
            neg = (b & sign_bit) != 0
            mask = mask & ~sign_bit
        m = (m << per) | (b & mask)
    if signed:
        h.check(h.eq(neg, x < 0), 'sign')
        h.check(m == h.ite(x < 0, -x, x), 'magnitude')
    else:
        h.check(m == x, 'magnitude')
    # one octet fewer would not hold the magnitude
    room = per * (size - 1) - (1 if signed else 0)
    if size > 1:
        h.check(m >= (1 << room), 'more octets than needed')
    h.reached('end')


def buffer_tree(h, steps, nested=0):
    """Any sequence of operations: drained buffers are in stream order, headers before their content.

    The operations are within so many containers each of which is the first of the one around it, or in none of them.
    """
    tree = BufferTree()
    for part in range(2):
        stack = [[]]                       # one list of buffers per open container
        sizes = [0]
        n = 0
        ops = ['start'] * nested + [None] * steps + ['end'] * nested
        for k, op in enumerate(ops):
            if op is None:
                op = h.choice('op%d.%d' % (part, k), ['value', 'start', 'end', 'none'])
            elif op == 'end' and len(stack) == 1:
                continue
            if op == 'value':
                buf = bytearray([n]) * (n % 3)
                n += 1
                tree.add_scalar_value(buf)
                stack[-1].append(buf)
                sizes[-1] += len(buf)
            elif op == 'start':
                tree.start_container()
                stack.append([])
                sizes.append(0)
            elif op == 'end':
                header = bytearray([100 + n]) * (1 + n % 2)
                n += 1
                if len(stack) == 1:
                    try:
                        tree.end_container(header)
                    except ValueError:
                        h.reached('refused')
                        continue
                    h.fail('end without start')
                tree.end_container(header)
                content = stack.pop()
                size = sizes.pop()
                stack[-1].append(header)
                stack[-1].extend(content)
                sizes[-1] += size + len(header)
            h.check(tree.current_container_length == sizes[-1], 'container length')
        if len(stack) > 1:
            try:
                list(tree.drain())
            except ValueError:
                h.reached('refused')
                return
            h.fail('drained with an open container')
        want = b''.join([bytes(x) for x in stack[0]])
        got = b''.join([bytes(x) for x in tree.drain()])
        h.check(got == want, 'order')
    h.reached('end')
