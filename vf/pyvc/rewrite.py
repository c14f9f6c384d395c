"""Mechanical rewriting of the real function text into its symbolic form.

What it does (everything else is kept literally):
  f(x)            -> _call(f, x)              dispatches builtins on symbolic arguments
  a in b, a[i]    -> _in(a, b), _getitem(a, i)
  'x %s' % y      -> _mod(...)                f'..{y}..' -> _fstr(...)
  raise X         -> raise _raising(X)        except T: -> except T: _caught()
  super()         -> _super(class, self)
  def f (nested)  -> def f ...; f = _local('f', f)      replaced by its contract if it has one
  x.__init__ (and a few other special names) -> _attr(x, '__init__')
  comprehension   -> _comp(...)               (native when the source is concrete)
  loop with contract -> cut at its invariant (see rt.LoopRun)
Dropped: decorators, annotations, docstrings of the function under contract."""
import ast
import copy


def names_stored(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)
    for n in nodes:
        V().visit(n)
    return out


def nm(i):
    return ast.Name(id=i, ctx=ast.Load())


def call(f, *a, **k):
    return ast.Call(func=nm(f), args=list(a), keywords=[ast.keyword(arg=x, value=y) for x, y in k.items()])


class Rewriter(ast.NodeTransformer):
    def __init__(self, loops, loop_base=0):
        self.loops = loops            # ordinal -> has a contract
        self.n = loop_base
        self.uid = 0
        self.all = bool(loops.get('all')) if loops else False
        self.first = None             # name of the first parameter of a method

    # expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'vars'):
            if n.func.id == 'super' and not n.args and self.first:
                return call('_super', nm('_vf_class'), nm(self.first))
            return n
        return ast.Call(func=nm('_call'), args=[n.func] + n.args, keywords=n.keywords)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in ('__init__', '__iter__', '__next__', '__class__', '__call__', '__enter__', '__exit__', '__setattr__', '__setitem__', '__getitem__', '__delitem__', '__contains__') and isinstance(n.ctx, ast.Load) \
                and not (isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super'):
            return call('_attr', n.value, ast.Constant(n.attr))
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            return call('_aslist', n.elts[0].value)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return n if any(isinstance(e, ast.Starred) for e in n.elts) else call('_setof', *n.elts)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            return n
        if len(n.ops) == 1:
            c = call('_in', n.left, n.comparators[0])
            return c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(op=ast.Not(), operand=c)
        raise SyntaxError('chained in')

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call('_getitem', n.value, self._sl(n.slice))
        if isinstance(n.ctx, ast.Store):
            return n
        return n

    def _sl(self, s):
        if isinstance(s, ast.Slice):
            return call('slice', s.lower or ast.Constant(None), s.upper or ast.Constant(None), s.step or ast.Constant(None))
        if isinstance(s, ast.Tuple):
            return s
        return s

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return call('_mod', n.left, n.right)
        if isinstance(n.op, ast.Add):
            return call('_add', n.left, n.right)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                x = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant(None)
                parts.append(ast.Tuple(elts=[x, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return call('_fstr', *parts)

    def _comp(self, n, kind, elt):
        gens = n.generators
        if any(g.is_async for g in gens):
            raise SyntaxError('async')
        if kind == 'dict' and not all(isinstance(g.target, ast.Name) or isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts) for g in gens):
            self.generic_visit(n)
            return n
        if kind in ('list', 'gen', 'set', 'dict') and all(isinstance(g.target, (ast.Name, ast.Tuple)) for g in gens):
            return self._comp_gens(kind, gens, elt)
        self.generic_visit(n)
        return n

    def _comp_gens(self, kind, gens, elt):
        g = gens[0]
        it = self.visit(g.iter)
        # native form, source evaluated once
        gs = ([ast.comprehension(target=copy.deepcopy(g.target), iter=nm('_it'), ifs=[self.visit(copy.deepcopy(i)) for i in g.ifs], is_async=0)] +
                       [ast.comprehension(target=copy.deepcopy(h.target), iter=self.visit(copy.deepcopy(h.iter)), ifs=[self.visit(copy.deepcopy(i)) for i in h.ifs], is_async=0) for h in gens[1:]])
        if kind == 'dict':
            k, x = elt.elts
            native = ast.DictComp(key=self.visit(copy.deepcopy(k)), value=self.visit(copy.deepcopy(x)), generators=gs)
        else:
            native = dict(list=ast.ListComp, gen=ast.GeneratorExp, set=ast.SetComp)[kind](elt=self.visit(copy.deepcopy(elt)), generators=gs)
        cond = ast.Constant(True)
        if g.ifs:
            c = [self.visit(copy.deepcopy(i)) for i in g.ifs]
            cond = c[0] if len(c) == 1 else ast.BoolOp(op=ast.And(), values=c)
        inner = self._comp_gens('list', gens[1:], elt) if len(gens) > 1 else self.visit(copy.deepcopy(elt))

        def lam(body):
            # targets are unpacked from one argument
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args=_args([g.target.id]), body=body)
            names = [e.id if isinstance(e, ast.Name) else None for e in g.target.elts]
            if None in names:
                raise SyntaxError('nested comprehension target')
            return ast.Lambda(args=_args(['_t']), body=ast.Call(func=ast.Lambda(args=_args(names), body=body), args=[ast.Starred(value=nm('_t'), ctx=ast.Load())], keywords=[]))
        return call('_comp', ast.Constant(kind), it, ast.Lambda(args=_args(['_it']), body=native), lam(cond), lam(inner), ast.Constant(len(gens) > 1))

    def visit_ListComp(self, n):
        return self._comp(n, 'list', n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, 'dict', ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen', n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, 'set', n.elt)

    # statements
    def visit_Assert(self, n):
        # an assertion that fails is an exception of the code under contract
        return self.visit(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), orelse=[],
                                 body=[ast.Raise(exc=ast.Call(func=nm('AssertionError'), args=[], keywords=[]), cause=None)]))

    def visit_Raise(self, n):
        self.generic_visit(n)
        if n.exc is not None:
            n.exc = call('_raising', n.exc)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = nm('BaseException')
        n.body = [ast.Expr(value=call('_caught'))] + n.body
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.finalbody:
            n.finalbody = [ast.Expr(value=call('_finally'))] + n.finalbody
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add):
            t = copy.deepcopy(n.target)
            for x in ast.walk(t):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            if isinstance(n.target, ast.Name):
                return ast.Assign(targets=[n.target], value=call('_iadd', t, n.value))
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return ast.Pass()
        return ast.Assign(targets=[n.target], value=n.value)

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        _strip(n)
        return [n, ast.Assign(targets=[ast.Name(id=n.name, ctx=ast.Store())], value=call('_local', ast.Constant(n.name), nm(n.name)))]

    def visit_While(self, n):
        return self._loop(n)

    def visit_For(self, n):
        return self._loop(n)

    def _loop(self, n):
        k = self.n
        self.n += 1
        contract = k in self.loops or self.all
        if not contract:
            self.generic_visit(n)
            if isinstance(n, ast.For):
                n.iter = call('_native_iter', n.iter)
            return n
        isfor = isinstance(n, ast.For)
        assigned = names_stored([n.target] + n.body if isfor else n.body)
        if not isfor:
            assigned += [x for x in names_stored([n.test]) if x not in assigned]
        if isinstance(self.loops, dict):
            assigned += [x for x in getattr(self.loops.get(k) or self.loops.get('all'), 'rebind', ()) if x not in assigned]
        self.uid += 1
        u = self.uid
        lp, itn, flag = f'_lp{u}', f'_it{u}', f'_else{u}'
        pre = []
        if isfor:
            pre.append(ast.Assign(targets=[ast.Name(id=itn, ctx=ast.Store())], value=call('_iter', self.visit(n.iter))))
        pre.append(ast.Assign(targets=[ast.Name(id=flag, ctx=ast.Store())], value=ast.Constant(False)))
        pre.append(ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())],
                              value=call('_loop', ast.Constant(k), ast.Tuple(elts=[ast.Constant(a) for a in assigned], ctx=ast.Load()), nm(itn) if isfor else ast.Constant(None))))
        top = ast.Call(func=ast.Attribute(value=nm(lp), attr='top', ctx=ast.Load()), args=[ast.Call(func=nm('locals'), args=[], keywords=[])], keywords=[])
        body = []
        if assigned:
            body.append(ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=a, ctx=ast.Store()) for a in assigned], ctx=ast.Store())], value=top))
        else:
            body.append(ast.Expr(value=top))
        if isfor:
            test = ast.Call(func=ast.Attribute(value=nm(itn), attr='more', ctx=ast.Load()), args=[], keywords=[])
        else:
            test = self.visit(n.test)
        body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test),
                           body=[ast.Assign(targets=[ast.Name(id=flag, ctx=ast.Store())], value=ast.Constant(True)), ast.Break()], orelse=[]))
        if isfor:
            body.append(ast.Assign(targets=[n.target], value=ast.Call(func=ast.Attribute(value=nm(itn), attr='next', ctx=ast.Load()), args=[], keywords=[])))
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        w = ast.Try(body=[ast.While(test=ast.Constant(True), body=body, orelse=[])], handlers=[], orelse=[],
                    finalbody=[ast.Expr(value=ast.Call(func=ast.Attribute(value=nm(lp), attr='exit', ctx=ast.Load()), args=[], keywords=[]))])
        out = pre + [w]
        if n.orelse:
            oe = []
            for s in n.orelse:
                r = self.visit(s)
                oe += r if isinstance(r, list) else [r]
            out.append(ast.If(test=nm(flag), body=oe, orelse=[]))
        return out


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _strip(fn):
    fn.decorator_list = []
    fn.returns = None
    for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]:
        a.annotation = None
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        fn.body = b[1:] or [ast.Pass()]
    return fn


def find(tree, qual):
    """FunctionDef of a dotted name (classes and enclosing functions)"""
    node, cls = tree, None
    for part in qual.split('.'):
        if part == '<locals>':
            continue
        body = []
        todo = list(node.body)
        while todo:
            s = todo.pop(0)
            body.append(s)
            for f in ('body', 'orelse', 'handlers', 'finalbody'):
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    todo += getattr(s, f, []) if isinstance(getattr(s, f, []), list) else []
        hit = [s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == part]
        if not hit:
            return None, None
        if isinstance(node, ast.ClassDef):
            pass
        if isinstance(hit[-1], ast.ClassDef):
            cls = part
        node = hit[-1]
    return node, cls
