"""Multimap against a list of pairs of a key and its values."""
from collections import OrderedDict
from amazon.ion import simpleion
from amazon.ion.core import Multimap, IonType, MultimapValue
from amazon.ion.simple_types import IonPyDict


def lookup(model, key):
    for p in model:
        if p[0] == key:
            return p
    return None


def agree(h, m, model, label):
    n = 0
    for k, vs in model:
        n += len(vs)
    h.check(len(m) == n, label + ': length')
    keys = [k for k in m]
    h.check(len(keys) == len(model), label + ': number of keys')
    for i in range(len(model)):
        h.check(keys[i] == model[i][0], label + ': key')
    pairs = m.items()
    h.check(len(pairs) == n, label + ': number of pairs')
    i = 0
    for k, vs in model:
        for v in vs:
            h.check(pairs[i][0] == k, label + ': key of pair')
            h.check(pairs[i][1] == v, label + ': value of pair')
            i += 1
    i = 0
    for k, v in m.iteritems():
        h.check(k == pairs[i][0] and v == pairs[i][1], label + ': iteritems')
        i += 1
    h.check(i == n, label + ': iteritems')
    for k, vs in model:
        h.check(m[k] == vs[-1], label + ': last value')
        h.check(k in m, label + ': containment')
        got = m.get_all_values(k)
        h.check(len(got) == len(vs), label + ': number of values')
        for j in range(len(vs)):
            h.check(got[j] == vs[j], label + ': value')
        j = 0
        for v in got:
            h.check(v == vs[j], label + ': iterated value')
            j += 1


def history(h, steps, ops, cls='multimap', start=0):
    """All sequences of operations; keys are any texts of one character, values any small integers."""
    model = []
    init = OrderedDict()
    for i in range(start):
        k, v = h.str('k_%d' % i, 1), h.int('v_%d' % i, 0, 9)
        init[k] = v
        p = lookup(model, k)
        if p is None:
            model.append((k, [v]))
        else:
            p[1][:] = [v]
    C = Multimap if cls == 'multimap' else IonPyDict
    m = C(init) if start else C()
    for i in range(steps):
        op = h.choice('op%d' % i, ops)
        k = h.str('k%d' % i, 1) if op != 'clear' and op != 'copy' else None
        p = lookup(model, k) if k is not None else None
        if op == 'add':
            v = h.int('v%d' % i, 0, 9)
            m.add_item(k, v)
            if p is None:
                model.append((k, [v]))
            else:
                p[1].append(v)
        elif op == 'set':
            v = h.int('v%d' % i, 0, 9)
            m[k] = v
            if p is None:
                model.append((k, [v]))
            else:
                p[1][:] = [v]
        elif op == 'del':
            try:
                del m[k]
                h.check(p is not None, 'deleted an absent key')
                model = [x for x in model if x is not p]
            except KeyError:
                h.check(p is None, 'present key not deleted')
        elif op == 'pop':
            got = m.pop(k, None)
            h.check(got == (None if p is None else p[1][-1]), 'popped value')
            model = [x for x in model if x is not p]
        elif op == 'get':
            h.check(m.get(k, -1) == (-1 if p is None else p[1][-1]), 'value or default')
            if p is None:
                try:
                    m[k]
                    h.fail('absent key has a value')
                except KeyError:
                    h.check(k not in m, 'absent key contained')
        elif op == 'clear':
            m.clear()
            model = []
        elif op == 'copy':
            m2 = C(m)
            agree(h, m2, model, 'copy')
            m2.add_item(u'zz', 1)
            if model:
                m2.add_item(model[0][0], 5)
        agree(h, m, model, op)
    h.reached('end')


def values(h, n, steps):
    """The values of a key behave as a list."""
    m = Multimap()
    model = []
    for i in range(n):
        v = h.int('v_%d' % i, 0, 9)
        m.add_item(u'k', v)
        model.append(v)
    vs = m.get_all_values(u'k')
    for i in range(steps):
        op = h.choice('op%d' % i, ['set', 'insert', 'append', 'del'])
        j = h.choice('at%d' % i, range(-n, n)) if op != 'append' else 0
        v = h.int('v%d' % i, 0, 9) if op != 'del' else None
        if op == 'append':
            vs.append(v)
            model.append(v)
        elif op == 'insert':
            vs.insert(j, v)
            model.insert(j, v)
        else:
            try:
                if op == 'set':
                    vs[j] = v
                else:
                    del vs[j]
                h.check(-len(model) <= j < len(model), 'index accepted')
            except IndexError:
                h.check(not -len(model) <= j < len(model), 'index refused')
                continue
            if op == 'set':
                model[j] = v
            else:
                del model[j]
        h.check(len(vs) == len(model), 'length')
        for j in range(len(model)):
            h.check(vs[j] == model[j], 'value')
        if not model:
            h.stop()
        h.check(m[u'k'] == model[-1], 'last value')
        h.check(len(m) == len(model), 'length of the map')
    h.reached('end')


def struct_fields(h, n, binary):
    """A struct with any (also repeated) field names keeps every value, in order per name."""
    names = [h.str('k%d' % i, 1, 97, 122) for i in range(n)]
    vals = [h.int('v%d' % i, 0, 9) for i in range(n)]
    d = IonPyDict.from_value(IonType.STRUCT, OrderedDict())
    for i in range(n):
        d.add_item(names[i], vals[i])
    out = simpleion.loads(simpleion.dumps(d, binary=binary))
    h.check(out.ion_type is IonType.STRUCT, 'type')
    model = []
    for i in range(n):
        p = lookup(model, names[i])
        if p is None:
            model.append((names[i], [vals[i]]))
        else:
            p[1].append(vals[i])
    agree(h, out, model, 'struct')
    h.reached('end')


def text_struct(h, n):
    """The same, from text."""
    text = u'{'
    model = []
    for i in range(n):
        k, v = h.str('k%d' % i, 1, 97, 122), h.choice('v%d' % i, [1, 2])
        text = text + k + u':' + str(v) + u','
        p = lookup(model, k)
        if p is None:
            model.append((k, [v]))
        else:
            p[1].append(v)
    agree(h, simpleion.loads(text + u'}'), model, 'struct')
    h.reached('end')
