"""Runs the real parallel kernels under chosen thread schedules (replay side).

The Python source of each compiled kernel is run with the body of its parallel loop as a function of
the iteration (its local variables private, arrays shared).  A schedule stops one iteration before
one of its reads or writes of elements (or a call), runs all others to their end and then lets it go on; the
first and last iteration of every loop are stopped at every such place in turn, and the results are
compared with those of the plain order."""
import ast
import dis
import inspect
import sys
import textwrap
import time
import types

import numpy as np


class Plan:
    """which loop, which iteration and before which of its steps; None: plain order"""
    loop = it = step = None
    order = 1

    def __init__(self):
        self.seen = []          # per loop: number of iterations
        self.fired = False


PLAN = Plan()


def _run(body, rng):
    p, rng = PLAN, list(rng)
    k = len(p.seen)
    p.seen.append(len(rng))
    if p.loop != k:
        for i in rng[::p.order]:
            body(i)
        return
    first, rest = rng[p.it], rng[:p.it] + rng[p.it + 1:]
    code, count, hit = body.__code__, 0, False
    steps = {i.offset for i in dis.get_instructions(code) if "SUBSCR" in i.opname or "SLICE" in i.opname or i.opname.startswith("CALL")}

    def local(frame, event, arg):
        nonlocal count, hit
        if event == "opcode" and not hit and frame.f_lasti in steps:
            count += 1
            if count == p.step:
                hit = True
                sys.settrace(None)
                for i in rest:
                    body(i)
                sys.settrace(tracer)
        return local

    def tracer(frame, event, arg):
        if frame.f_code is code and not hit:
            frame.f_trace_opcodes = True
            return local

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        body(first)
    finally:
        sys.settrace(old)
    if not hit:
        for i in rest:
            body(i)
    p.fired = hit


class Arr(np.ndarray):
    """elements behave as in compiled code: whole numbers are wide when computed with and wrap when stored"""

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, i)
        if not isinstance(r, np.ndarray) and isinstance(r, np.integer):
            return int(r)
        return r

    def __setitem__(self, i, v):
        if self.dtype.kind in "iu" and not isinstance(v, np.ndarray):
            v = _wrap(self.dtype)(v)
        np.ndarray.__setitem__(self, i, v)


def _wrap(dt):
    dt = np.dtype(dt)
    bits = dt.itemsize * 8

    def cast(v=0):
        if isinstance(v, np.ndarray):
            return v.astype(dt)
        if isinstance(v, (float, np.floating)):
            v = int(v) if np.isfinite(v) else 0
        v = int(v) & ((1 << bits) - 1)
        if dt.kind == "i" and v >> (bits - 1):
            v -= 1 << bits
        return dt.type(v)
    return cast


class _NP:
    """numpy as the kernels see it"""

    def __getattr__(self, n):
        x = getattr(np, n)
        if n in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like"):
            return lambda *a, **k: x(*a, **{q: (np.dtype(v) if q == "dtype" else v) for q, v in k.items()}).view(Arr)
        return x


class Outline(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_For(self, node):
        it = node.iter
        if not (isinstance(it, ast.Call) and getattr(it.func, "attr", getattr(it.func, "id", "")) == "prange"):
            self.generic_visit(node)
            return node
        if not isinstance(node.target, ast.Name):
            return node
        self.n += 1
        name = f"__body{self.n}"
        plain, aug = set(), set()
        for s in node.body:
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    aug.add(x.target.id)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    plain.add(x.id)
        augonly = aug - {x.id for s in node.body for y in ast.walk(s) if isinstance(y, (ast.Assign, ast.AnnAssign, ast.For))
                         for t in (y.targets if isinstance(y, ast.Assign) else [y.target]) for x in ast.walk(t) if isinstance(x, ast.Name)}
        body = [_cont(s) for s in node.body]
        if augonly:
            body = [ast.Nonlocal(names=sorted(augonly))] + body
        # names read before they are set keep the value from before the loop
        fn = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=node.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=body, decorator_list=[], type_params=[])
        rng = ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=it.args, keywords=[])
        call = ast.Expr(value=ast.Call(func=ast.Name(id="__run_iterations", ctx=ast.Load()), args=[ast.Name(id=name, ctx=ast.Load()), rng], keywords=[]))
        return [ast.copy_location(fn, node), ast.copy_location(call, node)]


class _Cont(ast.NodeTransformer):
    def visit_For(self, n):
        return n

    def visit_While(self, n):
        return n

    def visit_FunctionDef(self, n):
        return n

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)


def _cont(s):
    return _Cont().visit(s) if not isinstance(s, (ast.For, ast.While)) else s


def plain_kernel(disp):
    f = disp.py_func
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    fd = tree.body[0]
    fd.decorator_list = []
    o = Outline()
    fd.body = [x for s in fd.body for x in (lambda r: r if isinstance(r, list) else [r])(o.visit(s))]
    if not o.n:
        return None
    tree = _Casts().visit(tree)
    ast.fix_missing_locations(tree)
    g = dict(f.__globals__)
    g["__run_iterations"] = _run
    g["__cast"] = lambda f, *a, **k: _wrap(f)(*a) if isinstance(f, type) and issubclass(f, np.integer) else f(*a, **k)
    for n, v in list(g.items()):
        if v is np:
            g[n] = _NP()
    ns = {}
    exec(compile(tree, f"<schedules of {f.__name__}>", "exec"), g, ns)
    k = ns[f.__name__]

    def run(*args, **kw):
        args = [a.view(Arr) if isinstance(a, np.ndarray) else a for a in args]
        kw = {n: a.view(Arr) if isinstance(a, np.ndarray) else a for n, a in kw.items()}
        r = k(*args, **kw)
        return tuple(_plain(x) for x in r) if isinstance(r, tuple) else _plain(r)
    return run


def _plain(x):
    return x.view(np.ndarray) if isinstance(x, Arr) else x


class _Casts(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "numpy") and "int" in n.func.attr:
            return ast.copy_location(ast.Call(func=ast.Name(id="__cast", ctx=ast.Load()), args=[n.func] + n.args, keywords=n.keywords), n)
        return n


def _kernels():
    """(module, name, dispatcher) of every parallel kernel"""
    out = []
    for mn, m in list(sys.modules.items()):
        if (mn == "gsply" or mn.startswith("gsply.")) and isinstance(m, types.ModuleType):
            for n, v in list(vars(m).items()):
                if hasattr(v, "py_func") and hasattr(v, "targetoptions") and v.targetoptions.get("parallel"):
                    out.append((m, n, v))
    return out


def _key(r):
    if isinstance(r, dict):
        return tuple((k, _key(v)) for k, v in sorted(r.items()))
    if isinstance(r, (list, tuple)):
        return tuple(_key(x) for x in r)
    if isinstance(r, np.ndarray):
        return (r.shape, str(r.dtype), r.tobytes())
    if isinstance(r, np.generic):
        return (str(r.dtype), r.tobytes())
    if isinstance(r, (bytes, bytearray)):
        return bytes(r)
    return r


def explore(fn, seconds=10):
    global PLAN
    ks, made = _kernels(), {}
    old = np.seterr(all="ignore")
    try:
        for m, n, d in ks:
            if id(d) not in made:
                made[id(d)] = plain_kernel(d)
            if made[id(d)] is not None:
                setattr(m, n, made[id(d)])
        PLAN = Plan()
        try:
            want = _key(fn())
        except Exception as e:
            print("schedules: the plain order cannot be run:", type(e).__name__, e, file=sys.stderr)
            return True
        loops = list(PLAN.seen)
        PLAN = Plan()
        PLAN.order = -1
        if _key(fn()) != want:
            return False
        end = time.monotonic() + seconds
        for k, n in enumerate(loops):
            if n < 2:
                continue
            for it in (0, n - 1):
                step = 1
                while time.monotonic() < end:
                    PLAN = Plan()
                    PLAN.loop, PLAN.it, PLAN.step = k, it, step
                    if _key(fn()) != want:
                        return False
                    if not PLAN.fired:
                        break
                    step += 1
        return True
    finally:
        PLAN = Plan()
        np.seterr(**old)
        for m, n, d in ks:
            setattr(m, n, d)
