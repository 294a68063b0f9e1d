"""AST transformation: routes the operations whose built-in implementation cannot take proxies
through symion.rt.  The transformation never changes what the code computes on concrete values."""
import ast

RAW_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', '__import__', 'eval', 'exec'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, args, keywords=()):
    return ast.Call(func=_name(fn), args=args, keywords=list(keywords))


_PURE_OPS = (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)


def _pure_leaf(n):
    return isinstance(n, (ast.Name, ast.Constant)) or (
        isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,)) and _pure_leaf(n.operand)) or (
        isinstance(n, ast.Tuple) and all(_pure_leaf(x) for x in n.elts))


def _pure_cond(n):
    """No side effects, no forks of its own: a comparison of names and constants."""
    if isinstance(n, ast.Compare):
        return _pure_leaf(n.left) and all(_pure_leaf(c) for c in n.comparators) and \
            all(isinstance(o, _PURE_OPS) for o in n.ops)
    if isinstance(n, ast.BoolOp):
        return all(_pure_cond(v) for v in n.values)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return _pure_cond(n.operand)
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.func_depth = 0
        self.in_raise = 0
        self.class_names = []
        self.truth = False

    # -- scopes
    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in getattr(node, 'decorator_list', [])]
        node.args = self.visit(node.args)
        if hasattr(node, 'returns'):
            node.returns = None
        self.func_depth += 1
        saved, self.in_raise = self.in_raise, 0
        saved_truth, self.truth = self.truth, getattr(node, 'name', '') in ('__bool__', '__contains__', '__nonzero__')
        node.body = [self.visit(s) for s in node.body] if isinstance(node.body, list) else self.visit(node.body)
        self.in_raise = saved
        self.truth = saved_truth
        self.func_depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        saved = self.func_depth
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.class_names.append(node.name)
        self.func_depth = 0
        node.body = [self.visit(s) for s in node.body]
        self.func_depth = saved
        self.class_names.pop()
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.truth and node.value is not None:
            node.value = _call('__rt_truth__', [node.value])
        return node

    def visit_Raise(self, node):
        self.in_raise += 1
        self.generic_visit(node)
        self.in_raise -= 1
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        bare = node.type is None or (isinstance(node.type, ast.Name) and node.type.id in (
            'BaseException',)) or (isinstance(node.type, ast.Tuple) and any(
                isinstance(t, ast.Name) and t.id == 'BaseException' for t in node.type.elts))
        if bare:
            node.body.insert(0, ast.Expr(_call('__rt_reraise__', [])))
        return node

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id == 'super' and node.args:
                return _call('__rt_super__', node.args)
            if f.id in RAW_CALLS or f.id.startswith('__rt_'):
                return node
            return _call('__rt_call__', [f] + node.args, node.keywords)
        if isinstance(f, ast.Attribute):
            a = f.attr
            if a.startswith('__') and not a.endswith('__'):
                return _call('__rt_call__', [f] + node.args, node.keywords)
            fn = '__rt_callm_msg__' if self.in_raise and a == 'format' else '__rt_callm__'
            return _call(fn, [f.value, ast.Constant(a)] + node.args, node.keywords)
        return _call('__rt_call__', [f] + node.args, node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance(s, ast.Slice):
            sl = ast.Call(func=_name('__rt_slice__'), args=[
                s.lower or ast.Constant(None), s.upper or ast.Constant(None), s.step or ast.Constant(None)],
                keywords=[])
            return _call('__rt_getitem__', [node.value, sl])
        if isinstance(s, ast.Constant) and isinstance(s.value, int):
            return node
        return _call('__rt_getitem__', [node.value, s])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            if self.in_raise and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                return _call('__rt_msg__', [node.left, node.right])
            return _call('__rt_mod__', [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign(targets=[node.target], value=_call(
                '__rt_mod__', [ast.Name(id=node.target.id, ctx=ast.Load()), node.value]))
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
        return _call('__rt_fstr_msg__' if self.in_raise else '__rt_fstr__', parts)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return self._cmp1(node.left, node.ops[0], node.comparators[0])
        terms = [node.left] + node.comparators
        if self.func_depth and all(_pure_leaf(t) for t in terms):
            parts = []
            for i, op in enumerate(node.ops):
                parts.append(self._cmp1(terms[i], op, terms[i + 1]))
            return self._boolop('and', parts)
        if len(terms) == 3 and _pure_leaf(terms[0]) and _pure_leaf(terms[2]):
            # a < f(x) < b: evaluate f(x) once
            return ast.Call(func=ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg('__rt_t')], kwonlyargs=[], kw_defaults=[],
                                   defaults=[]),
                body=self._boolop('and', [self._cmp1(terms[0], node.ops[0], _name('__rt_t')),
                                          self._cmp1(_name('__rt_t'), node.ops[1], terms[2])])),
                args=[terms[1]], keywords=[]) if self.func_depth else node
        return node

    def _cmp1(self, a, op, b):
        if isinstance(op, ast.In):
            return _call('__rt_contains__', [b, a])
        if isinstance(op, ast.NotIn):
            return _call('__rt_notin__', [b, a])
        if isinstance(op, ast.Is):
            if isinstance(b, ast.Constant) and b.value is None:
                return ast.Compare(a, [op], [b])
            return _call('__rt_is__', [a, b])
        if isinstance(op, ast.IsNot):
            if isinstance(b, ast.Constant) and b.value is None:
                return ast.Compare(a, [op], [b])
            return _call('__rt_isnot__', [a, b])
        return ast.Compare(a, [op], [b])

    def _boolop(self, which, parts):
        lams = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=p) for p in parts[1:]]
        return _call('__rt_%s__' % which, [parts[0]] + lams)

    def visit_UnaryOp(self, node):
        pure = isinstance(node.op, ast.Not) and _pure_cond(node.operand)
        self.generic_visit(node)
        if pure:
            return _call('__rt_not__', [node.operand])
        return node

    def visit_BoolOp(self, node):
        pure = self.func_depth > 0 and sum(_pure_cond(v) for v in node.values[1:]) > 0
        if not pure:
            self.generic_visit(node)
            return node
        which = 'and' if isinstance(node.op, ast.And) else 'or'
        # group the trailing/consecutive pure conditions with their predecessor
        flags = [_pure_cond(v) for v in node.values]
        vals = [self.visit(v) for v in node.values]
        groups = []
        for v, p in zip(vals, flags):
            if groups and p and groups[-1][1]:
                groups[-1][0].append(v)
            else:
                groups.append(([v], p))
        outs = [g[0][0] if len(g[0]) == 1 else self._boolop(which, g[0]) for g in groups]
        if len(outs) == 1:
            return outs[0]
        node.values = outs
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.func_depth:
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([_name('__rt_spread__'), v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        return _call('__rt_dict__', [ast.List(items, ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.func_depth:
            return node
        return _call('__rt_dict__', [ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)])

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.func_depth:
            return node
        return _call('__rt_set__', [ast.List(node.elts, ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.func_depth:
            return node
        return _call('__rt_set__', [ast.ListComp(node.elt, node.generators)])

    # annotations are never evaluated through rt
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
