"""One call running in the middle of another: the second call is made while the first is stopped
before one of its statements (as when another thread, or a callback, gets its turn there)."""
import ast
import os
import sys

ROOT = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "gsply") + os.sep
_index = None


def index():
    """number of every statement inside the package's functions, compiled kernels excepted"""
    global _index
    if _index is None:
        places = set()
        for root, _, files in os.walk(ROOT):
            for f in files:
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    with open(p) as h:
                        _collect(ast.parse(h.read()), p, places, False)
        _index = {p: i for i, p in enumerate(sorted(places))}
    return _index


def _collect(node, path, places, inside):
    for n in ast.iter_child_nodes(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any("jit" in ast.unparse(d) for d in n.decorator_list):
                continue
            for s in n.body:
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    places.add((path, s.lineno))
                    _collect(s, path, places, True)
        else:
            if inside and isinstance(n, ast.stmt):
                places.add((path, n.lineno))
            _collect(n, path, places, inside)


def traced(fn):
    """(result, numbers of the statements fn came past, in order)"""
    places, seen = index(), {}

    def local(frame, event, arg):
        if event == "line":
            k = places.get((frame.f_code.co_filename, frame.f_lineno))
            if k is not None:
                seen.setdefault(k, None)
        return local

    r = _under(lambda f: local, fn)
    return r, list(seen)


def _under(per_frame, fn):
    def tracer(frame, event, arg):
        return per_frame(frame) if frame.f_code.co_filename.startswith(ROOT) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(old)


def interleave(a, b, at, around=None):
    """results of a and b when b runs as a whole before a first reaches statement number `at` (after a when it never does)"""
    places, out = index(), {}
    files = {p: k for p, k in places.items() if k == at}
    want = next(iter(files), None)

    def other():
        old = sys.gettrace()
        sys.settrace(None)
        try:
            out["b"] = b() if around is None else around(b)
        except Exception as e:
            if type(e).__name__ in ("Unsupported", "KernelOOB"):
                raise
            out["b"] = None
            out["error"] = e
        finally:
            sys.settrace(old)

    def local(frame, event, arg):
        if event == "line" and "b" not in out and (frame.f_code.co_filename, frame.f_lineno) == want:
            other()
        return local

    ra = _under(lambda f: local if want is not None and "b" not in out and f.f_code.co_filename == want[0] else None, a)
    if "b" not in out:
        other()
    if "error" in out:
        raise out["error"]
    return ra, out["b"]
