"""Path exploration and solver queries.

A harness (checks/*.py) is a python function of a context `cx`.  The engine
executes it again and again, once per feasible path, on the instrumented real
source; `cx.check` collects proof obligations, and at the end of each path the
solver decides  path-condition AND NOT(obligations)  over all values.
"""
from __future__ import annotations

import gc
import os
import random
import time
import traceback

import z3

from . import fsshim, icshim, ir, loader, lower, npshim, rt
from .ir import Node, State, Unsupported, const


class PathInfeasible(BaseException):
    pass


class Budget(BaseException):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.obligations = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.nodes = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self, mode="uf", timeout=20.0, max_paths=400, budget_s=300.0, seed=1, feas_timeout=2.0,
                 int_relax=True, escalate=(), witnesses=3, assume_feasible=False, with_torch=False):
        self.with_torch = with_torch
        self.mode = mode
        self.timeout = timeout
        self.feas_timeout = feas_timeout
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.seed = seed
        self.stats = Stats()
        self.int_relax = int_relax
        self.lw = None
        self.escalate = escalate
        self.nwit = witnesses
        self.rng = random.Random(seed)
        self.assume_feasible = assume_feasible

    # ------------------------------------------------------------ solver
    def _solve(self, nodes, timeout=None, extra=(), lw=None, seed=0):
        """check satisfiability of the conjunction of boolean nodes"""
        lw = lw or self.lw
        exprs, side = lw.lower(list(nodes))
        s = z3.Solver()
        s.set("timeout", int(1000 * (timeout or self.timeout)))
        if seed:
            s.set("random_seed", seed)
        s.add(*side)
        s.add(*exprs)
        if extra:
            s.add(*extra)
        t = time.time()
        if lw.poly is not None:
            defs = lw.poly.definitions(s.assertions())
            if defs:
                # products as opaque terms first: linear reasoning over the normal forms often refutes
                lin = z3.SimpleSolver()
                lin.set("timeout", int(1000 * (timeout or self.timeout)))
                lin.add(*s.assertions())
                if os.environ.get("DUMPQ"): open(os.environ["DUMPQ"]+str(os.getpid())+"_"+str(self.stats.queries)+".smt2","w").write(lin.to_smt2())
                if lin.check() == z3.unsat:
                    self.stats.queries += 1
                    self.stats.solver_s += time.time() - t
                    return z3.unsat, lin
                s.add(*defs)
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.solver_s += dt
        if dt > 5 and os.environ.get("VERIF_DEBUG"):
            print(f"   [slow query {dt:.1f}s {r}]", flush=True)
        return r, s

    def _check(self, nodes, timeout=None, extra=(), lw=None, rounds=10):
        """like _solve; models that misplace exp or log are refuted by tangents and
        secants at their points and the query is asked again"""
        lw = lw or self.lw
        end = time.time() + 3 * (timeout or self.timeout)
        for _ in range(rounds):
            r, s = self._solve(nodes, timeout, extra=list(extra) + lw.lemmas, lw=lw)
            if r != z3.sat or not lw.trans or time.time() > end or not lw.refine(s):
                break
        return r, s

    # ------------------------------------------------------------ path API
    def _guard(self):
        return ir.land(*State.guards) if State.guards else None

    def assume(self, c):
        c = const(c)
        if c.op == "const":
            if not c.val:
                raise PathInfeasible()
            return
        g = self._guard()
        if g is not None:
            c = ir.implies(g, c)
        self._add(c)

    def _add(self, c):
        if c.op == "const":
            if not c.val:
                raise PathInfeasible()
            return
        self.pc.append(c)
        self._mark(c)
        self._learn(c)

    def _mark(self, c):
        """remember the nodes the path condition mentions"""
        todo = [c]
        while todo:
            n = todo.pop()
            if n.id in self.pcnodes:
                continue
            self.pcnodes.add(n.id)
            todo.extend(n.args)

    def pick(self, n, k):
        """enumerate a fresh symbol with values 0..k-1 (or those listed) without asking the solver"""
        vals = range(k) if isinstance(k, int) else k
        if n.id in self.pcnodes or self._guard() is not None:
            return self.concretize(n)
        self._tick()
        if len(self.trace) < len(self.prefix):
            v = self.prefix[len(self.trace)][0]
        else:
            v = vals[0]
            for i in vals[:0:-1]:
                self.work.append(self.trace + [(i, True)])
        self.trace.append((v, True))
        self.stats.decisions += 1
        self._add(ir.compare("eq", n, const(v, n.dt)))
        return v

    def _learn(self, c, pol=True):
        if c.op == "not":
            self._learn(c.args[0], not pol)
            return
        self.known[c.id] = pol
        if c.op == "land" and pol:
            for a in c.args:
                self._learn(a, True)

    def _lookup(self, c):
        if c.op == "const":
            return bool(c.val)
        if c.op == "not":
            r = self._lookup(c.args[0])
            return None if r is None else not r
        r = self.known.get(c.id)
        if r is None and c.op == "land":
            rs = [self._lookup(a) for a in c.args]
            if any(x is False for x in rs):
                return False
            if all(x is True for x in rs):
                return True
        return r

    def _tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget")

    def decide(self, c):
        self._tick()
        k = self._lookup(c)
        if k is not None:
            return k
        self.stats.decisions += 1
        g = self._guard()
        t = c if g is None else ir.implies(g, c)
        f = ir.lnot(c) if g is None else ir.land(g, ir.lnot(c))
        if len(self.trace) < len(self.prefix):
            d = self.prefix[len(self.trace)]
            self.trace.append(d)
            self._add(t if d else f)
            if g is None:
                self._learn(c, d)
            return d
        free = g is None and (c.op == "sym" or (c.op == "not" and c.args[0].op == "sym")) and (c.args[0] if c.args else c).id not in self.pcnodes
        ft = free or self._feasible(t)
        ff = True if free else True if not ft else self._feasible(f)
        if not ft and not ff:
            raise PathInfeasible()
        if ft and ff:
            self.work.append(self.trace + [False])
            d = True
        else:
            d = ft
        self.trace.append(d)
        self._add(t if d else f)
        if g is None:
            self._learn(c, d)
        return d

    def _feasible(self, c):
        if c.op == "const":
            return bool(c.val)
        if self.assume_feasible:
            return True
        # cheap: the last model may already satisfy it
        r, s = self._solve(self.pc + [c], self.feas_timeout)
        return r != z3.unsat

    def concretize(self, n):
        self._tick()
        lo, hi = ir.interval(n)
        if lo == hi:
            return int(lo)
        tried = 0
        while True:
            if len(self.trace) < len(self.prefix):
                v, d = self.prefix[len(self.trace)]
            else:
                r, s = self._solve(self.pc, self.feas_timeout * 5)
                if r == z3.unsat:
                    raise PathInfeasible()
                if r == z3.unknown:
                    raise Unsupported("cannot concretise a symbolic index (solver unknown)")
                e = self.lw.cache.get(n.id)
                if e is None:
                    e = self.lw.expr(n)
                    r, s = self._solve(self.pc + [ir.compare("le", n, n) if False else ir.mk("eqbits", (n, n), "bool")],
                                       self.feas_timeout * 5)
                v = lower.z3_value(s.model().eval(e, model_completion=True), n.dt)
                d = True
                ne = ir.compare("ne", n, const(v, n.dt))
                if self._feasible(ne):
                    self.work.append(self.trace + [(v, False)])
            self.trace.append((v, d))
            self.stats.decisions += 1
            c = ir.compare("eq", n, const(v, n.dt))
            if d:
                self._add(c)
                return int(v)
            self._add(ir.lnot(c))
            tried += 1
            if tried > 300:
                raise Unsupported("more than 300 values of a symbolic index")

    # ------------------------------------------------------------ exploration
    def explore(self, harness, make_cx):
        """returns Result"""
        t0 = time.time()
        self.deadline = t0 + self.budget_s
        res = Result()
        noconv0 = set(rt.NOCONV)
        while True:
            try:
                self._explore(harness, make_cx, res)
                break
            except rt.RestartFork as e:
                if e.site is None or e.site in rt.NOCONV:
                    res.undecided.append(("engine", f"cannot fork at {e.site}"))
                    break
                rt.NOCONV.add(e.site)
                res.reset()
                continue
        rt.NOCONV.clear()
        rt.NOCONV.update(noconv0)
        res.stats = self.stats.as_dict()
        res.wall = time.time() - t0
        return res

    def _explore(self, harness, make_cx, res):
        ir.reset()
        self.gs = loader.load(with_torch=self.with_torch)
        self.lw = lower.Lowerer(self.mode, self.int_relax)
        self.work = [[]]
        State.engine = self
        first = True
        while self.work:
            self.prefix = self.work.pop()
            if self.stats.paths >= self.max_paths:
                res.undecided.append(("paths", f"more than {self.max_paths} paths"))
                break
            self.trace, self.pc, self.known, self.pcnodes = [], [], {}, set()
            State.guards.clear()
            State.numba = 0
            State.steps = 0
            npshim._uninit[0] = 0
            fsshim.FS.reset()
            icshim.reset()
            cx = make_cx(self)
            exc = None
            try:
                harness(cx)
            except PathInfeasible:
                continue
            except rt.RestartFork:
                raise
            except Budget as e:
                res.undecided.append(("budget", f"time budget {self.budget_s}s exhausted after {self.stats.paths} paths"))
                break
            except fsshim.StepLimit:
                exc = ("hang", "loop exceeded the step limit")
            except Unsupported as e:
                State.guards.clear()
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if "/repo/" in f.filename or "checks/" in f.filename]
                w = where[-1] if where else tb[-1]
                res.undecided.append(("unsupported", f"{e} at {w.filename}:{w.lineno}"))
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                self._path_model(cx, res, "unsupported")
                continue
            except Exception as e:
                State.guards.clear()
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                exc = (type(e).__name__, str(e)[:300])
            State.guards.clear()
            State.numba = 0
            self.stats.paths += 1
            if exc is not None:
                self._exception_path(cx, res, exc)
                continue
            self._finish_path(cx, res)
            if len(res.candidates) >= 6:
                break
        self.stats.nodes = max(self.stats.nodes, ir._next[0])
        State.engine = None

    # ------------------------------------------------------------ end of path
    def _env(self, s, lw=None):
        return lower.model_env(lw or self.lw, s.model())

    def _random_env(self):
        env = {}
        for name, (dt, lo, hi) in ir._sym_info.items():
            env[name] = rand_value(self.rng, dt, lo, hi)
        return env

    def _witness_env(self, pc):
        """environment satisfying pc; random candidates evaluated concretely
        first (more telling than solver defaults), then the solver's model"""
        for _ in range(12):
            env = self._random_env()
            try:
                if all(bool(v) for v in ir.evaluate(pc, env)):
                    return env
            except Unsupported:
                break
            except Exception:
                break
        r, s = self._solve(pc, self.timeout)
        if r == z3.sat:
            return self._env(s)
        return None if r == z3.unsat else False

    def _path_model(self, cx, res, kind):
        if len(res.probes) < 4:
            env = self._witness_env(self.pc)
            if isinstance(env, dict):
                res.probes.append({"env": env, "why": kind})

    def _exception_path(self, cx, res, exc):
        r, s = self._solve(self.pc, self.timeout)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            res.undecided.append(("exception-path", f"{exc[0]}: {exc[1]}"))
            return
        res.candidates.append({"label": f"exception {exc[0]}: {exc[1]}", "env": self._env(s)})

    def _finish_path(self, cx, res):
        checks = cx.checks
        self.stats.obligations += len(checks)
        for l, _, _ in checks:
            res.labels.add(l)
        ok = True
        if checks:
            todo = checks
            for chunk in _chunks(todo, 4000):
                ok &= self._decide_chunk(cx, res, chunk)
        if ok or True:
            if len(res.witnesses) < self.nwit:
                env = self._witness_env(self.pc)
                if isinstance(env, dict):
                    obs = []
                    for name, vals in cx.observed:
                        try:
                            obs.append((name, [enc(v) for v in ir.evaluate(vals, env)]))
                        except Exception:
                            pass
                    res.witnesses.append({"env": env, "observed": obs})
                    res.reached += 1
                elif env is False:
                    res.unreached_unknown += 1
            else:
                res.more_paths += 1

    def _decide_chunk(self, cx, res, chunk):
        neg = ir.lnot(ir.land(*[c for _, c, _ in chunk])) if False else _nand([c for _, c, _ in chunk])
        r, s = self._check(self.pc + [neg], self.timeout)
        if r == z3.unsat:
            self.stats.unsat += 1
            return True
        if r == z3.unknown and len(chunk) > 1:
            # split
            ok = True
            if len(chunk) > 8:
                h = (len(chunk) + 7) // 8
                for part in _chunks(chunk, h):
                    ok &= self._decide_chunk(cx, res, part)
            else:
                for c in chunk:
                    ok &= self._decide_chunk(cx, res, [c])
            return ok
        if r == z3.sat:
            self.stats.sat += 1
            self._candidates(res, chunk, s)
            return False
        # single obligation, unknown: other lowerings
        label, c, hints = chunk[0]
        for mode, to in self.escalate:
            try:
                lw = self.alt(mode)
                r, s = self._check(self.pc + [ir.lnot(c)], to, lw=lw)
            except Unsupported:
                continue
            if r == z3.unsat:
                self.stats.unsat += 1
                return True
            if r == z3.sat:
                self._candidates(res, chunk, s, lw)
                return False
        self.stats.unknown += 1
        res.undecided.append(("solver-unknown", label))
        return False

    def alt(self, mode):
        if not hasattr(self, "_alt"):
            self._alt = {}
        if mode not in self._alt:
            self._alt[mode] = lower.Lowerer(mode.split()[0], self.int_relax and mode in ("real", "exact"))
        return self._alt[mode]

    def _candidates(self, res, chunk, s, lw=None):
        lw = lw or self.lw
        env = self._env(s, lw)
        label = chunk[0][0]
        m = s.model()
        for l, c, h in chunk:
            e = lw.cache.get(c.id)
            if e is not None and z3.is_false(m.eval(e, model_completion=True)):
                label = l
                break
        bad = _and([c for l, c, _ in chunk if l == label])
        cands = [env]
        end = time.time() + 3 * self.timeout

        def more(goal, timeout, use, **k):
            """another model; true when it violates the check by concrete evaluation too"""
            if time.time() > end:
                return False
            r, s2 = self._check(self.pc + [ir.lnot(goal)], timeout, lw=use, **k)
            if r != z3.sat:
                return False
            cands.insert(0, self._env(s2, use))
            return self._violates(bad, cands[0])

        def search():
            # stronger violations first: easier to reproduce on the real code
            for l, c, hints in chunk:
                if l == label:
                    for h in hints:
                        if more(h, self.timeout, lw):
                            return
            # models whose inputs have recognisable values
            for seed in (1, 2):
                pins = self._pins(lw, seed)
                if pins and more(bad, min(5, self.timeout), lw, extra=pins, rounds=4) and lw.mode == "real":
                    return
            # the same without rounding errors: easier to refine exp and log
            if lw.mode == "real" and not lw.noround and lw.trans:
                for l, c, hints in chunk:
                    if l == label:
                        for h in [*hints, c]:
                            if more(h, min(10, self.timeout), self.alt("exact")):
                                return
            if lw.mode == "real" and lw.int_relax:
                alt = self.alt("exact int")
                for l, c, hints in chunk:
                    if l == label:
                        for h in [*hints, c]:
                            if more(h, min(10, self.timeout), alt):
                                return
            # exact floating point model when the lowering abstracted arithmetic
            if lw.mode == "uf" or lw.mode == "real" and not lw.trans:
                more(bad, min(10, self.timeout), self.alt("fp"))
        try:
            search()
        except Unsupported:
            pass
        # ordinary looking inputs that violate it too (values the violation does not depend on are arbitrary in the models)
        for _ in range(4):
            env = self._random_env()
            if self._violates(bad, env):
                cands.append(env)
                break
        res.candidates.append({"label": label, "env": cands[0], "alts": cands[1:]})

    def _violates(self, check, env):
        try:
            return all(bool(v) for v in ir.evaluate(self.pc, env)) and not bool(ir.evaluate([check], env)[0])
        except Exception:
            return False

    def _pins(self, lw, seed):
        """soft preference: pin each input symbol to a distinct recognisable value"""
        rng = random.Random(seed)
        pins = []
        for name, (dt, lo, hi) in list(ir._sym_info.items())[:3000]:
            n = ir.mk("sym", (), dt, name)
            e = lw.cache.get(n.id)
            if e is None or not ir.is_float(dt):
                continue
            v = rand_value(rng, dt, lo, hi)
            pins.append(e == lw._const(const(v, dt)))
        return pins


def _nand(cs):
    """NOT(and cs) without IR-level folding of the conjuncts"""
    if len(cs) == 1:
        return ir.mk("not", (cs[0],), "bool")
    return ir.mk("not", (ir.mk("land", tuple(cs), "bool"),), "bool")


def _and(cs):
    return cs[0] if len(cs) == 1 else ir.mk("land", tuple(cs), "bool")


def _chunks(xs, k):
    for i in range(0, len(xs), k):
        yield xs[i:i + k]


def rand_value(rng, dt, lo, hi):
    if dt == "bool":
        return rng.random() < 0.5
    if ir.is_float(dt):
        a = -4.0 if lo is None else lo
        b = 4.0 if hi is None else hi
        if lo is None and hi is not None and hi < a:
            a = hi - 4.0
        if hi is None and lo is not None and lo > b:
            b = lo + 4.0
        a2, b2 = max(a, -50.0), min(b, 50.0)
        if a2 <= b2:
            a, b = a2, b2
        import numpy as np
        v = float(ir.NP[dt](rng.uniform(a, b)))
        return min(max(v, a), b)
    r = ir._rng(dt)
    a = lo if lo is not None else (r[0] if r[0] != -float("inf") else -5)
    b = hi if hi is not None else (r[1] if r[1] != float("inf") else a + 20)
    return rng.randint(int(a), int(b))


from .cx import enc  # noqa: E402


class Result:
    def __init__(self):
        self.reset()
        self.stats = {}
        self.wall = 0.0

    def reset(self):
        self.candidates = []
        self.undecided = []
        self.witnesses = []
        self.probes = []
        self.labels = set()
        self.reached = 0
        self.unreached_unknown = 0
        self.more_paths = 0
