"""Behaviour-preserving rewrites of a source tree (robustness test of the checks).
usage: refactor.py SRC_REPO_COPY MODE[,MODE...]   modes: wrap invert temp loop flip elif comp format method walrus"""
import ast, sys, pathlib, copy

class Invert(ast.NodeTransformer):            # if c: A else: B -> if not c: B else: A
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not any(isinstance(x, ast.If) for x in n.orelse[:1] if len(n.orelse) == 1):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

class Elif(ast.NodeTransformer):             # early return instead of else
    def visit_If(self, n):
        self.generic_visit(n)
        return n
    def _body(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                tail, s.orelse = s.orelse, []
                out.append(s); out += self._body(tail)
            else:
                out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, self._body(v))
        return n

class Temp(ast.NodeTransformer):             # return expr -> t = expr; return t ; call args hoisted
    def __init__(self): self.k = 0
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        self.k += 1; nm = f"_outcome{self.k}"
        return [ast.Assign([ast.Name(nm, ast.Store())], n.value), ast.Return(ast.Name(nm, ast.Load()))]
    def visit_Assign(self, n):
        # x = f(a(..), ..): hoist the first positional argument if it is itself a call
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and v.args and isinstance(v.args[0], ast.Call) \
           and (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)):
            self.k += 1; nm = f"_part{self.k}"
            a, v.args[0] = v.args[0], ast.Name(nm, ast.Load())
            return [ast.Assign([ast.Name(nm, ast.Store())], a), n]
        return n
    def visit_Lambda(self, n): return n

class Flip(ast.NodeTransformer):             # a < b -> b > a
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [self.M[type(n.ops[0])]()]
        return n

class Loop(ast.NodeTransformer):             # for x in range(n) -> while ; for x in it -> iterator while
    def __init__(self): self.k = 0
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.target, ast.Name): return n
        if any(isinstance(x, (ast.Continue,)) for x in ast.walk(n)): return n
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ("range",)) : 
            self.k += 1
            s = f"_seq{self.k}"; i = f"_at{self.k}"
            pre = ast.parse(f"{s} = list(_X_)\n{i} = 0").body
            pre[0].value.args[0] = n.iter
            w = ast.parse(f"while {i} < len({s}):\n    _T_ = {s}[{i}]\n    {i} += 1").body[0]
            w.body[0].targets[0] = n.target
            w.body += n.body
            return pre + [w]
        a = n.iter.args
        if len(a) > 2: return n
        self.k += 1; i = f"_at{self.k}"; e = f"_end{self.k}"
        st = a[0] if len(a) == 2 else ast.Constant(0); en = a[-1]
        pre = [ast.Assign([ast.Name(i, ast.Store())], st), ast.Assign([ast.Name(e, ast.Store())], en)]
        w = ast.parse(f"while {i} < {e}:\n    _T_ = {i}\n    {i} += 1").body[0]
        w.body[0].targets[0] = n.target
        w.body += n.body
        return pre + [w]

class Comp(ast.NodeTransformer):             # x = [e for t in it if c] -> loop append
    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            nm = n.targets[0].id; g = v.generators[0]
            used = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
            if nm in used: return n
            tg = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if isinstance(v, ast.ListComp):
                body = ast.parse(f"{nm}.append(_X_)").body; body[0].value.args[0] = v.elt; init = "[]"
            else:
                body = ast.parse(f"{nm}[_K_] = _V_").body; body[0].targets[0].slice = v.key; body[0].value = v.value; init = "{}"
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            return ast.parse(f"{nm} = {init}").body + [ast.For(g.target, g.iter, body, [])]
        return n

class Format(ast.NodeTransformer):           # f-string -> "".join-less concatenation via format
    def visit_JoinedStr(self, n):
        fmt = ""; args = []
        for p in n.values:
            if isinstance(p, ast.Constant): fmt += p.value.replace("{", "{{").replace("}", "}}")
            else:
                if p.format_spec is not None and not all(isinstance(x, ast.Constant) for x in p.format_spec.values): return n
                sp = "".join(x.value for x in p.format_spec.values) if p.format_spec else ""
                cv = {-1: "", 115: "!s", 114: "!r", 97: "!a"}[p.conversion]
                fmt += "{" + cv + (":" + sp if sp else "") + "}"; args.append(p.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])

class Bool(ast.NodeTransformer):             # not (a and b) style De Morgan on if tests
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), x) for x in t.values]))
        return n

class Wrap(ast.NodeTransformer):             # def f -> def _f_core + def f calling it
    def _wrap(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith("__") \
               and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)):
                core = copy.deepcopy(s); core.name = f"_core_of_{s.name.strip('_')}"
                a = s.args
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                pos = [x.arg for x in a.posonlyargs + a.args]
                self_call = self.cls and pos and pos[0] == "self"
                args = [ast.Name(p, ast.Load()) for p in pos[1 if self_call else 0:]]
                if a.vararg: args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
                if a.kwarg: kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                if self.cls and not self_call: out.append(s); continue
                fn = ast.Attribute(ast.Name("self", ast.Load()), core.name, ast.Load()) if self_call else ast.Name(core.name, ast.Load())
                s.body = doc + [ast.Return(ast.Call(fn, args, kw))]
                out += [core, s]
            else: out.append(s)
        return out
    cls = False
    def visit_Module(self, n):
        self.cls = False; n.body = self._wrap(n.body)
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                self.cls = True; s.body = self._wrap(s.body)
        return n

class Kw(ast.NodeTransformer):               # append a no-op statement, reorder independent constant assigns
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.parse("_unused = 0").body[0])
        return n

class With(ast.NodeTransformer):             # split "with a, b" and x += c for names never arrays skipped
    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) > 1:
            body = n.body
            for it in reversed(n.items): body = [ast.With([it], body)]
            return body[0]
        return n

class Chain(ast.NodeTransformer):            # a.b(c).d(e) assigned -> two statements
    def __init__(self): self.k = 0
    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Call):
            self.k += 1; nm = f"_stage{self.k}"
            inner, v.func.value = v.func.value, ast.Name(nm, ast.Load())
            r = self.visit_Assign(ast.Assign([ast.Name(nm, ast.Store())], inner))
            return (r if isinstance(r, list) else [r]) + [n]
        return n

class Arith(ast.NodeTransformer):            # hoist binary operands: x = (a op b) op c -> t = a op b; x = t op c
    def __init__(self): self.k = 0
    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.BinOp) and isinstance(v.left, (ast.BinOp, ast.Call, ast.Subscript)):
            self.k += 1; nm = f"_lhs{self.k}"
            l, v.left = v.left, ast.Name(nm, ast.Load())
            r = self.visit_Assign(ast.Assign([ast.Name(nm, ast.Store())], l))
            return (r if isinstance(r, list) else [r]) + [n]
        return n

class Tuple(ast.NodeTransformer):            # a, b = x, y -> two assignments through temporaries
    def __init__(self): self.k = 0
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and not isinstance(n.value, ast.Tuple) \
           and all(isinstance(e, ast.Name) for e in n.targets[0].elts):
            self.k += 1; nm = f"_parts{self.k}"
            return [ast.Assign([ast.Name(nm, ast.Store())], n.value)] + [
                ast.Assign([e], ast.Subscript(ast.Name(nm, ast.Load()), ast.Constant(i), ast.Load())) for i, e in enumerate(n.targets[0].elts)]
        return n

def _skip_jit(cls):                          # numba's parallel pass rejects many harmless rewrites: leave kernels alone
    old = getattr(cls, "visit_FunctionDef", None)
    def visit(self, n):
        if any("jit" in ast.unparse(d) for d in n.decorator_list): return n
        return old(self, n) if old else self.generic_visit(n)
    cls.visit_FunctionDef = visit
for _c in (Invert, Elif, Temp, Loop, Comp, Format, Bool, Kw, With, Chain, Arith, Tuple): _skip_jit(_c)

MODES = dict(invert=Invert, elif_=Elif, temp=Temp, flip=Flip, loop=Loop, comp=Comp, format=Format, bool=Bool, wrap=Wrap, noop=Kw, split=With, chain=Chain, arith=Arith, tup=Tuple)

def main():
    root = pathlib.Path(sys.argv[1]); modes = sys.argv[2].split(",")
    if modes == ["all"]: modes = list(MODES)
    for f in sorted((root / "src").rglob("*.py")):
        t = ast.parse(f.read_text())
        for m in modes: t = MODES[m]().visit(t); ast.fix_missing_locations(t)
        f.write_text(ast.unparse(t) + "\n")
if __name__ == "__main__": main()
