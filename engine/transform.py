"""AST instrumentation of the code under test.

 * every call goes through __sx_call__ (builtins / numpy scalar constructors /
   file methods get symbolic versions),
 * boolean operators and conditional expressions build IR instead of forking,
 * `if` statements on symbolic conditions whose bodies are straight-line are
   if-converted (both branches executed under a guard and merged); everything
   else forks the exploration through Node.__bool__.
"""
from __future__ import annotations

import ast

SAFE_BUILTINS = {"min", "max", "abs", "float", "int", "len", "range", "bool", "round", "zip", "enumerate", "isinstance",
                 "tuple", "list", "getattr", "hasattr", "any", "all", "sum", "prange"}
SAFE_MODULES = {"np", "numpy", "math", "numba", "torch", "nb", "F"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "write", "tofile", "setdefault", "sort",
            "add", "discard", "fill", "copy_", "mul_", "add_", "clamp_", "exp_", "log_", "div_", "sub_", "zero_", "fill_"}


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


def _lambda(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def assigned(stmts):
    names = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,)):
                if n.id not in names:
                    names.append(n.id)
    return names


def has_walrus_or_comp(stmts):
    return any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for s in stmts for n in ast.walk(s))


def convertible(stmts):
    """straight-line region whose effects can be guarded"""
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if getattr(s, "value", None) is None:
                return False
            for t in targets:
                if not _target_ok(t):
                    return False
            if not _expr_ok(s.value):
                return False
            continue
        if isinstance(s, ast.If):
            if not _expr_ok(s.test) or not convertible(s.body) or not convertible(s.orelse):
                return False
            continue
        if isinstance(s, ast.For):
            if s.orelse or not _target_ok(s.target) or not _expr_ok(s.iter) or not convertible(s.body):
                return False
            continue
        return False
    return not has_walrus_or_comp(stmts)


def _target_ok(t):
    if isinstance(t, ast.Name):
        return True
    if isinstance(t, ast.Tuple):
        return all(_target_ok(e) for e in t.elts)
    if isinstance(t, ast.Subscript):
        return True
    return False


def _expr_ok(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                continue
            if isinstance(f, ast.Attribute):
                if f.attr in MUTATORS:
                    return False
                continue
            return False
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return False
    return True


def _ends_with_continue(stmts):
    return bool(stmts) and isinstance(stmts[-1], ast.Continue)


def normalize_block(stmts, in_loop):
    """`if c: A; continue` + rest  ->  if c: A else: rest"""
    out = []
    for i, s in enumerate(stmts):
        if in_loop and isinstance(s, ast.If):
            rest = stmts[i + 1:]
            if _ends_with_continue(s.body) and not s.orelse:
                body = s.body[:-1] or [ast.Pass()]
                new = ast.If(test=s.test, body=normalize_block(body, True), orelse=normalize_block(rest, True))
                ast.copy_location(new, s)
                out.append(new)
                return out
        if isinstance(s, ast.For):
            b = break_to_flag(s)
            if b is not None:
                s.body = normalize_block(s.body, True)
                out.extend(b)
                continue
            s.body = normalize_block(s.body, True)
        elif isinstance(s, ast.While):
            s.body = normalize_block(s.body, True)
        elif isinstance(s, ast.If):
            s.body = normalize_block(s.body, False)
            s.orelse = normalize_block(s.orelse, False)
        elif isinstance(s, ast.With):
            s.body = normalize_block(s.body, False)
        out.append(s)
    return out


BRK = [0]


def _own_breaks(stmts):
    """breaks belonging to this loop"""
    n = 0
    for s in stmts:
        if isinstance(s, ast.Break):
            n += 1
        elif isinstance(s, ast.If):
            n += _own_breaks(s.body) + _own_breaks(s.orelse)
    return n


def _unbreak(stmts, flag):
    """the statements with `break` replaced by setting the flag and what follows guarded by it"""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Break):
            a = ast.Assign(targets=[_name(flag, ast.Store())], value=ast.Constant(value=True))
            out.append(ast.copy_location(a, s))
            return out
        if isinstance(s, ast.If) and _own_breaks([s]):
            n = ast.If(test=s.test, body=_unbreak(s.body, flag), orelse=_unbreak(s.orelse, flag))
            out.append(ast.copy_location(n, s))
            rest = _unbreak(stmts[i + 1:], flag)
            if rest:
                g = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(flag)), body=rest, orelse=[])
                out.append(ast.copy_location(g, s))
            return out
        out.append(s)
    return out


def break_to_flag(loop):
    """`for v in range(..): ... break ...` of straight-line statements as a guarded loop without break"""
    if loop.orelse or not isinstance(loop.target, ast.Name) or not _own_breaks(loop.body) or _has(loop.body, (ast.Continue, ast.Return, ast.While)):
        return None
    it = loop.iter
    if not (isinstance(it, ast.Call) and (it.func.id if isinstance(it.func, ast.Name) else getattr(it.func, "attr", "")) in ("range", "prange")):
        return None
    BRK[0] += 1
    flag = f"__sx_brk{BRK[0]}"
    body = _unbreak(loop.body, flag)
    if not convertible(body):
        return None
    guard = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(flag)), body=body, orelse=[])
    init = ast.Assign(targets=[_name(flag, ast.Store())], value=ast.Constant(value=False))
    tgt = ast.Name(id=flag + "v", ctx=ast.Store())
    guard.body = [ast.copy_location(ast.Assign(targets=[loop.target], value=_name(flag + "v")), loop)] + guard.body
    loop.target = tgt
    loop.body = [ast.copy_location(guard, loop)]
    ast.copy_location(init, loop)
    return [ast.fix_missing_locations(init), ast.fix_missing_locations(loop)]


def _has(stmts, kinds):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, kinds):
                return True
    return False


def tail_returns(stmts):
    """rewrite a block whose returns are all in (nested-if) tail position to
    assignments of __sx_ret; returns None when not of that shape"""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            a = ast.Assign(targets=[_name("__sx_ret", ast.Store())], value=s.value or ast.Constant(value=None))
            ast.copy_location(a, s)
            out.append(a)
            return out
        if isinstance(s, ast.If) and _has([s], ast.Return):
            rest = stmts[i + 1:]
            b_ret = _always_returns(s.body)
            e_ret = bool(s.orelse) and _always_returns(s.orelse)
            if b_ret and e_ret:
                b, e = tail_returns(s.body), tail_returns(s.orelse)
            elif b_ret:
                b, e = tail_returns(s.body), tail_returns(list(s.orelse) + rest)
            elif e_ret:
                b, e = tail_returns(list(s.body) + rest), tail_returns(s.orelse)
            else:
                return None
            if b is None or e is None:
                return None
            n = ast.If(test=s.test, body=b or [ast.Pass()], orelse=e)
            ast.copy_location(n, s)
            out.append(n)
            return out
        if _has([s], ast.Return):
            return None
        out.append(s)
    return out


def _always_returns(stmts):
    for s in stmts:
        if isinstance(s, ast.Return):
            return True
        if isinstance(s, ast.If) and s.orelse and _always_returns(s.body) and _always_returns(s.orelse):
            return True
    return False


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.k = 0
        self.fn = []
        self.cls = []

    def uid(self):
        self.k += 1
        return self.k

    # ---------------------------------------------------------- functions
    def visit_FunctionDef(self, node):
        # decorators/defaults/annotations untouched except calls
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in body for n in ast.walk(s))
        if not gen:
            simple = [s for s in body if not isinstance(s, ast.FunctionDef)]
            nret = sum(isinstance(n, ast.Return) for s in body for n in ast.walk(s))
            inner = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and any(isinstance(m, ast.Return) for m in ast.walk(n))
                        for s in body for n in ast.walk(s))
            if nret > 1 and not inner and len(simple) == len(body):
                t = tail_returns(body)
                if t is not None and self._mergeable_tail(t):
                    init = ast.Assign(targets=[_name("__sx_ret", ast.Store())], value=ast.Constant(value=None))
                    ret = ast.Return(value=_name("__sx_ret"))
                    body = [init] + t + [ret]
            body = normalize_block(body, False)
        self.fn.append(node)
        qn = self.modname + ":" + ".".join(self.cls + [f.name for f in self.fn])
        enter = ast.Expr(value=_call("__sx_enter__", ast.Constant(value=qn)))
        ast.copy_location(enter, node)
        node.body = doc + [enter] + self.block(body)
        self.fn.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if not node.body:
            node.body = [ast.Pass()]
        return node

    @staticmethod
    def _mergeable_tail(t):
        # only worthwhile (and only safe) for pure scalar helpers
        for s in t:
            if isinstance(s, ast.If):
                if not convertible(s.body) or not convertible(s.orelse):
                    return False
            elif not isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                return False
        return True

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.cls.append(node.name)
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) else s for s in node.body]
        self.cls.pop()
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, node):
        if self.fn:
            if node.value is None:
                return ast.copy_location(ast.Pass(), node)
            n = ast.Assign(targets=[node.target], value=node.value)
            ast.copy_location(n, node)
            return self.visit(n)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # ---------------------------------------------------------- statements
    def visit_If(self, node):
        if not self.fn or node_is_type_checking(node):
            node.test = self.visit(node.test) if self.fn else node.test
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        conv = convertible(node.body) and convertible(node.orelse)
        names = assigned(node.body + node.orelse) if conv else []
        test = self.visit(node.test)
        body = self.block(node.body) or [ast.Pass()]
        orelse = self.block(node.orelse)
        if not conv:
            n = ast.If(test=_call("__sx_test__", test), body=body, orelse=orelse)
            return ast.copy_location(n, node)
        k = self.uid()
        c, sv, sa = f"__sx_c{k}", f"__sx_s{k}", f"__sx_a{k}"
        site = ast.Constant(value=f"{self.modname}:{node.lineno}")
        import copy
        L = lambda: ast.Call(func=_name("locals"), args=[], keywords=[])
        nm = ast.Tuple(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load())
        st = lambda n, v: ast.Assign(targets=[_name(n, ast.Store())], value=v)
        merged = [st(sv, _call("__sx_save__", L(), nm)),
                  ast.Expr(value=_call("__sx_push__", _name(c), ast.Constant(value=True)))]
        merged += [ast.Try(body=copy.deepcopy(body), handlers=[], orelse=[], finalbody=[ast.Expr(value=_call("__sx_pop__"))])]
        merged += [st(sa, _call("__sx_save__", L(), nm))]
        for x in names:
            merged.append(st(x, _call("__sx_get__", _name(sv), ast.Constant(value=x))))
        if orelse:
            merged += [ast.Expr(value=_call("__sx_push__", _name(c), ast.Constant(value=False)))]
            merged += [ast.Try(body=copy.deepcopy(orelse), handlers=[], orelse=[], finalbody=[ast.Expr(value=_call("__sx_pop__"))])]
        for x in names:
            merged.append(st(x, _call("__sx_merge__", _name(c), _name(sa), ast.Constant(value=x), _name(x), site)))
        plain = ast.If(test=_call("__sx_test__", _name(c)), body=body, orelse=orelse)
        n = [st(c, test),
             ast.If(test=_call("__sx_symbolic__", _name(c), site), body=merged, orelse=[plain])]
        for x in n:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return n

    def visit_While(self, node):
        node.test = _call("__sx_test__", self.visit(node.test))
        node.body = [ast.Expr(value=_call("__sx_tick__"))] + self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_Assert(self, node):
        node.test = _call("__sx_test__", self.visit(node.test))
        if node.msg is not None:
            node.msg = self.visit(node.msg)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Store):
            node.value = _call("__sx_gt__", node.value)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        # python `x op= y` on a name holding an array must stay in-place;
        # subscripts become read-modify-write through guarded stores.
        node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        for h in node.handlers:
            h.body = self.block(h.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # ---------------------------------------------------------- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        n = ast.Call(func=_name("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(n, node)

    def visit_BoolOp(self, node):
        vals = [self.visit(v) for v in node.values]
        f = "__sx_and__" if isinstance(node.op, ast.And) else "__sx_or__"
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = ast.Call(func=_name(f), args=[v, _lambda(r)], keywords=[])
        return ast.copy_location(r, node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("__sx_not__", node.operand), node)
        return node

    def visit_IfExp(self, node):
        t, a, b = self.visit(node.test), self.visit(node.body), self.visit(node.orelse)
        return ast.copy_location(_call("__sx_ifexp__", t, _lambda(a), _lambda(b)), node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            self.generic_visit(node)
            if isinstance(node.ops[0], (ast.In, ast.NotIn)):
                n = _call("__sx_in__", node.left, node.comparators[0])
                if isinstance(node.ops[0], ast.NotIn):
                    n = _call("__sx_not__", n)
                return ast.copy_location(n, node)
            return node
        # chain: a < b < c  -> and of pairs, middle evaluated once
        parts = [node.left] + node.comparators
        parts = [self.visit(p) for p in parts]
        k = self.uid()
        # ((lambda t0,t1,...: and) (parts)) : evaluates all operands eagerly
        argn = [f"__sx_t{k}_{i}" for i in range(len(parts))]
        cmps = [ast.Compare(left=_name(argn[i]), ops=[op], comparators=[_name(argn[i + 1])]) for i, op in enumerate(node.ops)]
        r = cmps[-1]
        for v in reversed(cmps[:-1]):
            r = ast.Call(func=_name("__sx_and__"), args=[v, _lambda(r)], keywords=[])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in argn], kwonlyargs=[], kw_defaults=[], defaults=[]), body=r)
        return ast.copy_location(ast.Call(func=lam, args=parts, keywords=[]), node)

    def visit_ListComp(self, node):
        return self._comp(node)

    visit_SetComp = visit_GeneratorExp = visit_ListComp

    def _comp(self, node):
        node.elt = self.visit(node.elt)
        for g in node.generators:
            g.iter = self.visit(g.iter)
            g.ifs = [_call("__sx_test__", self.visit(i)) for i in g.ifs]
        return node

    def visit_DictComp(self, node):
        node.key = self.visit(node.key)
        node.value = self.visit(node.value)
        for g in node.generators:
            g.iter = self.visit(g.iter)
            g.ifs = [_call("__sx_test__", self.visit(i)) for i in g.ifs]
        return node


def node_is_type_checking(node):
    return isinstance(node.test, ast.Name) and node.test.id == "TYPE_CHECKING"


def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    has_future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" for s in tree.body)
    tree = Instrument(modname).visit(tree)
    if not has_future:
        i = 1 if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant) else 0
        tree.body.insert(i, ast.ImportFrom(module="__future__", names=[ast.alias(name="annotations")], level=0))
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
