"""Symbol tables and catalogs against plain lists."""
from amazon.ion.exceptions import CannotSubstituteTable
from amazon.ion.symbols import SymbolToken, ImportLocation, SymbolTableCatalog, SYSTEM_SYMBOL_TABLE, \
    local_symbol_table, shared_symbol_table, placeholder_symbol_table, substitute_symbol_table

SYSTEM = [u'$ion', u'$ion_1_0', u'$ion_symbol_table', u'name', u'version', u'imports', u'symbols', u'max_id',
          u'$ion_shared_symbol_table']


def some_text(h, name, unknown=True):
    """A one-character text, a system symbol, or (None) unknown text."""
    kind = h.choice(name + '_kind', ['new', 'system', 'unknown'] if unknown else ['new', 'system'])
    if kind == 'unknown':
        return None
    if kind == 'system':
        return u'name'
    return h.str(name, 1)


def check_table(h, t, model, probe, what):
    """model: [(text, location)] by identifier from 1 on."""
    h.check(len(t) == len(model), what + ': length')
    h.check(t.max_id == len(model), what + ': max_id')
    tokens = list(t)
    h.check(len(tokens) == len(model), what + ': iteration')
    for i in range(len(model)):
        text, location = model[i]
        x = t.get(i + 1)
        h.check(x.sid == i + 1, what + ': identifier')
        h.check(x.text == text, what + ': text')
        h.check(x.location == location, what + ': location')
        h.check(tokens[i] == x, what + ': iterated token')
        h.check(t[i + 1] == x, what + ': indexing')
    h.check(t.get(0) == SymbolToken(None, 0), what + ': symbol zero')
    sid = h.choice('sid', [-1, len(model) + 1, len(model) + 9])
    marker = SymbolToken(u'marker', 99)
    h.check(t.get(sid) is None, what + ': out of range')
    h.check(t.get(sid, marker) is marker, what + ': default')
    try:
        t[sid]
    except KeyError:
        pass
    else:
        h.fail(what + ': out of range')
    first = 0
    for i in range(len(model)):
        if model[i][0] is not None and model[i][0] == probe:
            first = i + 1
            break
    x = t.get(probe)
    if first:
        h.check(x is not None, what + ': text lookup')
        h.check(x.sid == first, what + ': lowest identifier')
        h.check(x.text == probe, what + ': text lookup')
        h.check(t.get(probe, marker) == x, what + ': text lookup')
    else:
        h.check(x is None, what + ': absent text')
        h.check(t.get(probe, marker) is marker, what + ': default of an absent text')
        try:
            t[probe]
        except KeyError:
            pass
        else:
            h.fail(what + ': absent text')


def shared(h, name, n, imports=None):
    """A shared table with n symbols, and its model."""
    texts = [some_text(h, '%s%d' % (name, i)) for i in range(n)]
    t = shared_symbol_table(name, 1, texts, imports=imports)
    return t, texts


def tables(h, sizes, local, interned, append=False, nested=False):
    """A local table importing shared ones, then interning."""
    model = [(SYSTEM[i], ImportLocation(u'$ion', i + 1)) for i in range(9)]
    imports = []
    for k in range(len(sizes)):
        name = u't%d' % k
        if nested and k > 0:
            t, texts = shared(h, name, sizes[k], [imports[k - 1]])
            texts = previous + texts
        else:
            t, texts = shared(h, name, sizes[k])
        previous = texts
        located = [(texts[i], ImportLocation(name, i + 1)) for i in range(len(texts))]
        check_table(h, t, located, u'q', 'shared table')
        try:
            t.intern(u'z')
        except TypeError:
            pass
        else:
            h.fail('shared table accepts a symbol')
        imports.append(t)
        model = model + located
    texts = [some_text(h, 'local%d' % i) for i in range(local)]
    t = local_symbol_table(imports if imports or h.flag('empty imports') else None, texts)
    model = model + [(x, None) for x in texts]
    if append:
        more = [some_text(h, 'more%d' % i) for i in range(append)]
        t = local_symbol_table([t], more)
        model = model + [(x, None) for x in more]
    for i in range(interned):
        x = some_text(h, 'interned%d' % i, False)
        got = t.intern(x)
        at = 0
        for j in range(len(model)):
            if model[j][0] is not None and model[j][0] == x:
                at = j + 1
                break
        if not at:
            model = model + [(x, None)]
            at = len(model)
        h.check(got.sid == at, 'interned identifier')
        h.check(got.text == x, 'interned text')
    check_table(h, t, model, some_text(h, 'probe', False), 'local table')
    h.check(len(SYSTEM_SYMBOL_TABLE) == 9, 'system table')
    h.reached('end')


def bad_arguments(h):
    what = h.choice('what', ['bytes', 'int', 'shared name', 'shared version', 'intern bytes', 'intern None', 'lookup',
                             'placeholder version', 'placeholder max_id', 'substitute local'])
    try:
        if what == 'bytes':
            local_symbol_table(symbols=[h.bytes('b', 1)])
        elif what == 'int':
            shared_symbol_table(u't', 1, [h.int('i', -5, 5)])
        elif what == 'shared name':
            shared_symbol_table(h.choice('name', [None, b't']), 1, [])
        elif what == 'shared version':
            shared_symbol_table(u't', h.int('v', -9, 0), [])
        elif what == 'intern bytes':
            local_symbol_table().intern(h.bytes('b', 1))
        elif what == 'intern None':
            local_symbol_table().intern(None)
        elif what == 'lookup':
            local_symbol_table().get(h.choice('key', [None, b'name', 1.0]))
        elif what == 'placeholder version':
            placeholder_symbol_table(u't', h.int('v', -9, 0), 3)
        elif what == 'placeholder max_id':
            placeholder_symbol_table(u't', 1, h.int('m', -9, -1))
        else:
            substitute_symbol_table(local_symbol_table(), 1, 3)
    except (TypeError, ValueError):
        h.reached('end')
        return
    h.fail('accepted')


def catalog(h, registered, most=3):
    """Registered versions of a table, and the table an import gets."""
    cat = SymbolTableCatalog()
    model = {}
    for k in range(registered):
        v = h.int('version%d' % k, 1, 9)
        n = h.choice('size%d' % k, range(most + 1))
        texts = [None if h.flag('unknown%d_%d' % (k, i)) else u'%d%d' % (k, i) for i in range(n)]
        cat.register(shared_symbol_table(u't', v, texts))
        for w in list(model):
            if w == v:
                del model[w]
                break
        model[v] = texts
    cat.register(shared_symbol_table(u'other', 1, [u'o']))
    name = h.choice('name', [u't', u'unknown'])
    version = h.int('version', 1, 9)
    max_id = None if h.flag('no max_id') else h.choice('max_id', range(most + 3))
    exact = best = None
    if name == u't':
        for v in model:
            if v == version:
                exact = v
            if best is None or v > best:
                best = v
    try:
        t = cat.resolve(name, version, max_id)
    except CannotSubstituteTable:
        h.check(max_id is None, 'refused')
        h.check(exact is None, 'refused')
        h.reached('refused')
        return
    h.check(max_id is not None or exact is not None, 'not refused')
    h.check(t.table_type.is_shared, 'shared')
    h.check(t.name == name, 'name')
    h.check(t.version == version, 'version')
    texts = model[exact] if exact is not None else model[best] if best is not None else []
    if max_id is None:
        want = texts
    else:
        want = (texts + [None] * max_id)[:max_id]
    h.check(len(t) == len(want), 'length')
    h.check(t.max_id == len(want), 'max_id')
    for i in range(len(want)):
        x = t[i + 1]
        h.check(x.text == want[i], 'text')
        h.check(x.location.name == name, 'location')
        h.check(x.location.position == i + 1, 'location')
    h.check(t.is_substitute == (not (exact is not None and (max_id is None or max_id == len(texts)))), 'substitute')
    h.reached('end')


def catalog_refuses(h):
    cat = SymbolTableCatalog()
    what = h.choice('what', ['local', 'system', 'substitute', 'placeholder', 'version', 'max_id', 'name'])
    try:
        if what == 'local':
            cat.register(local_symbol_table())
        elif what == 'system':
            cat.register(SYSTEM_SYMBOL_TABLE)
        elif what == 'substitute':
            cat.register(substitute_symbol_table(shared_symbol_table(u't', 1, [u'a']), 1, h.choice('max_id', [0, 1, 2])))
        elif what == 'placeholder':
            cat.register(placeholder_symbol_table(u't', 1, 2))
        elif what == 'version':
            cat.resolve(u't', h.int('v', -9, 0), 3)
        elif what == 'max_id':
            cat.resolve(u't', 1, h.int('m', -9, -1))
        else:
            cat.resolve(b't', 1, 1)
    except (TypeError, ValueError):
        h.reached('end')
        return
    h.fail('accepted')


def equality(h, n):
    """Tables are equal when kind, name, version, substitution and tokens are."""
    def make(k):
        texts = [some_text(h, 'text%d_%d' % (k, i)) for i in range(h.choice('size%d' % k, range(n + 1)))]
        kind = h.choice('kind%d' % k, ['local', 'shared', 'substitute'])
        if kind == 'local':
            return local_symbol_table(symbols=texts), (kind, None, None, texts)
        v = h.int('version%d' % k, 1, 3)
        name = h.choice('name%d' % k, [u't', u'u'])
        t = shared_symbol_table(name, v, texts)
        if kind == 'substitute':
            t = substitute_symbol_table(t, v, len(texts))
        return t, (kind, name, v, texts)
    a, x = make(0)
    b, y = make(1)
    same = h.all([x[0] == y[0], x[1] == y[1], x[2] == y[2], len(x[3]) == len(y[3])])
    if same:
        for i in range(len(x[3])):
            if (x[3][i] is None) != (y[3][i] is None) or x[3][i] is not None and x[3][i] != y[3][i]:
                same = False
                break
    h.check((a == b) == bool(same), 'equal')
    h.check((a != b) == (not same), 'not equal')
    h.check(a == a, 'equal to itself')
    h.reached('end')
