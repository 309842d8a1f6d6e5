"""AST instrumentation of Python source (regenerated on every run)."""

import ast

CMPNAME = {ast.Eq: '_sx_eq_', ast.NotEq: '_sx_ne_', ast.In: '_sx_in_',
           ast.NotIn: '_sx_nin_', ast.Lt: '_sx_lt_', ast.LtE: '_sx_le_',
           ast.Gt: '_sx_gt_', ast.GtE: '_sx_ge_'}
CMPOP = {ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
         ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
         ast.Is: 'is', ast.IsNot: 'is not'}
BINNAME = {ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Mod: '%'}
RETURNS = {'__bool__': '_sx_truth_', '__nonzero__': '_sx_truth_',
           '__len__': '_sx_index_', '__index__': '_sx_index_'}
NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir',
          '__import__'}


def _const_key(k):
    return isinstance(k, ast.Constant)


class Transformer(ast.NodeTransformer):

    def _n(self, name, *args, node):
        return ast.copy_location(
            ast.Call(func=ast.copy_location(
                ast.Name(id=name, ctx=ast.Load()), node),
                args=list(args), keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name):
            n = node.func.id
            if n.startswith('_sx_'):
                return node
            if n in NOCALL and not (n in ('vars', 'dir') and node.args):
                return node
        new = ast.Call(
            func=ast.copy_location(
                ast.Name(id='_sx_call_', ctx=ast.Load()), node),
            args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            name = CMPNAME.get(type(node.ops[0]))
            if name is None:
                return node
            return self._n(name, node.left, node.comparators[0], node=node)
        ops = ast.Tuple(elts=[ast.Constant(CMPOP[type(o)])
                              for o in node.ops], ctx=ast.Load())
        lams = [ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
            kw_defaults=[], kwarg=None, defaults=[]), body=c)
            for c in node.comparators]
        return ast.fix_missing_locations(ast.copy_location(
            self._n('_sx_chain_', node.left, ops, *lams, node=node), node))

    def _slice(self, s, node):
        if isinstance(s, ast.Slice):
            none = lambda: ast.copy_location(ast.Constant(None), node)
            return self._n('_sx_slice_', s.lower or none(),
                           s.upper or none(), s.step or none(), node=node)
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Tuple) and any(
                    isinstance(e, (ast.Slice, ast.Starred))
                    for e in node.slice.elts):
                return node
            return self._n('_sx_getitem_', node.value,
                           self._slice(node.slice, node), node=node)
        if isinstance(node.slice, ast.Slice):
            return node
        node.value = self._n('_sx_ref_', node.value, node=node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = BINNAME.get(type(node.op))
        if op is None:
            return node
        return self._n('_sx_binop_',
                       ast.copy_location(ast.Constant(op), node),
                       node.left, node.right, node=node)

    def visit_AugAssign(self, node):
        op = BINNAME.get(type(node.op))
        if op is not None and isinstance(node.target, ast.Name):
            load = ast.copy_location(
                ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._n('_sx_iop_', ast.copy_location(
                    ast.Constant(op), node), load,
                    self.visit(node.value), node=node)), node)
        if op is not None and isinstance(node.target, ast.Attribute) and \
                isinstance(node.target.value, ast.Name):
            load = ast.copy_location(ast.Attribute(
                value=node.target.value, attr=node.target.attr,
                ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._n('_sx_iop_', ast.copy_location(
                    ast.Constant(op), node), load,
                    self.visit(node.value), node=node)), node)
        self.generic_visit(node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(_const_key(k) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                k = ast.copy_location(
                    ast.Name(id='_sx_star_', ctx=ast.Load()), node)
            pairs.append(ast.copy_location(
                ast.Tuple(elts=[k, v], ctx=ast.Load()), node))
        return self._n('_sx_dict_', ast.copy_location(
            ast.List(elts=pairs, ctx=ast.Load()), node), node=node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(_const_key(e) for e in node.elts):
            return node
        return self._n('_sx_set_', ast.copy_location(
            ast.List(elts=node.elts, ctx=ast.Load()), node), node=node)

    def _gens(self, node):
        for g in node.generators:
            g.iter = self._n('_sx_iter_', g.iter, node=g.iter)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return self._n('_sx_dict_', ast.copy_location(ast.ListComp(
            elt=ast.copy_location(ast.Tuple(elts=[node.key, node.value],
                                            ctx=ast.Load()), node),
            generators=node.generators), node), node=node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return self._n('_sx_set_', ast.copy_location(ast.ListComp(
            elt=node.elt, generators=node.generators), node), node=node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return node

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._n('_sx_iter_', node.iter, node=node.iter)
        return node

    def visit_Match(self, node):
        # a value pattern compares inside the interpreter: capture the
        # value and compare it in the guard instead
        self.nmatch = getattr(self, 'nmatch', 0)
        for case in node.cases:
            tests = []
            case.pattern = self._pattern(case.pattern, tests)
            if tests:
                if case.guard is not None:
                    tests.append(case.guard)
                case.guard = tests[0] if len(tests) == 1 else ast.BoolOp(
                    op=ast.And(), values=tests)
        self.generic_visit(node)
        ast.fix_missing_locations(node)
        return node

    def _pattern(self, p, tests):
        vals = None
        if isinstance(p, ast.MatchValue):
            vals = [p.value]
        elif isinstance(p, ast.MatchOr) and all(
                isinstance(q, ast.MatchValue) for q in p.patterns):
            vals = [q.value for q in p.patterns]
        if vals is not None:
            self.nmatch += 1
            name = '_sxm_%d' % self.nmatch
            tests.append(ast.copy_location(ast.Compare(
                left=ast.Name(id=name, ctx=ast.Load()), ops=[ast.In()],
                comparators=[ast.Tuple(elts=vals, ctx=ast.Load())]), p))
            return ast.copy_location(ast.MatchAs(name=name), p)
        if isinstance(p, (ast.MatchSequence, ast.MatchMapping)):
            p.patterns = [self._pattern(q, tests) for q in p.patterns]
        elif isinstance(p, ast.MatchClass):
            p.patterns = [self._pattern(q, tests) for q in p.patterns]
            p.kwd_patterns = [self._pattern(q, tests)
                              for q in p.kwd_patterns]
        elif isinstance(p, ast.MatchAs) and p.pattern is not None:
            p.pattern = self._pattern(p.pattern, tests)
        return p

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(
            value=self._n('_sx_exc_', node=node)), node))
        return node

    def _func(self, node):
        # decorators are called natively by the interpreter with the
        # function object, which is fine; annotations are left alone
        node.body = [self.visit(s) for s in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None
                         for d in a.kw_defaults]
        return node

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.format_spec is not None and node.conversion == -1:
            node.value = self._n('_sx_fmtarg_', node.value, node=node.value)
        return node

    def visit_FunctionDef(self, node):
        node = self._func(node)
        wrap = RETURNS.get(node.name)
        if wrap is not None:
            node.body = [_Returns(self, wrap).visit(s) for s in node.body]
        return node

    visit_AsyncFunctionDef = _func


class _Returns(ast.NodeTransformer):
    """Special methods whose result the interpreter wants concrete."""

    def __init__(self, t, wrap):
        self.t, self.wrap = t, wrap

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.t._n(self.wrap, node.value, node=node)
        return node

    def _stop(self, node):
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = _stop
    visit_ClassDef = _stop


def compile_source(source, filename):
    """Compile instrumented code; returns (module code, all code objects)."""
    tree = ast.parse(source, filename)
    tree = Transformer().visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, filename, 'exec', dont_inherit=True)
    codes = []

    def walk(c):
        codes.append(c)
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                walk(k)
    walk(code)
    return code, codes
