"""Independence of the iterations of a parallel loop (symbolic side).

While `State.race` is set, every element a parallel loop's body reads or writes is logged with the
iteration and the conditions under which it happens.  Two iterations conflict when both touch one
element and at least one of them writes it; the loop gives the same result under every assignment
of iterations to threads and every interleaving when no conflict is satisfiable."""
import numpy as np

from . import ir
from .ir import State


class Race:
    def __init__(self):
        self.cur = None
        self.par = 0
        self.loops = 0
        self.accesses = 0
        self.conds = []        # conditions under which two iterations conflict
        self.where = []

    # ---- called by the kernels
    def iterate(self, rng):
        if self.cur is not None or not self.par:
            yield from rng
            return
        self.log, self.keep, self.symr, self.grids = {}, [], [], {}
        self.loops += 1
        try:
            for i in rng:
                self.cur = i
                yield i
        finally:
            self.cur = None
        self._analyse()

    def _grid(self, o):
        """address of every element"""
        g = self.grids.get(id(o))
        if g is None or g[0] is not o:
            a = np.full(o.shape, o.__array_interface__["data"][0], dtype=np.int64)
            for k, (s, st) in enumerate(zip(o.shape, o.strides)):
                a += (np.arange(s, dtype=np.int64) * st).reshape((s,) + (1,) * (o.ndim - 1 - k))
            g = self.grids[id(o)] = (o, a)
        return g[1]

    def _add(self, addrs, kind, vals, guards):
        self.accesses += len(addrs)
        for k, a in enumerate(addrs):
            self.log.setdefault(int(a), []).append((self.cur, kind, guards, None if vals is None else vals[k]))

    def access(self, o, idx, kind, val=None):
        """o: plain object array; idx: None for all of it, or an index without symbols"""
        self.keep.append(o)
        g = tuple(State.guards)
        if type(idx) is tuple and len(idx) == o.ndim and all(type(i) is int for i in idx):
            a = o.__array_interface__["data"][0]
            for i, s, st in zip(idx, o.shape, o.strides):
                a += (i if i >= 0 else i + s) * st
            self._add([a], kind, [val], g)
            return
        ad = self._grid(o)
        ad = np.asarray(ad if idx is None else ad[idx]).reshape(-1)
        self._add(ad, kind, None, g)

    def sym_read(self, o, tup):
        self.keep.append(o)
        self.symr.append((self.cur, o, tup, tuple(State.guards)))

    def sym_write(self, o, pos, c, val):
        self.keep.append(o)
        a = o.__array_interface__["data"][0] + sum(i * st for i, st in zip(pos, o.strides))
        self._add([a], "w", [val], (c,))

    def _analyse(self):
        written = {a for a, l in self.log.items() if any(e[1] == "w" for e in l)}
        if written:
            for it, o, tup, g in self.symr:
                grid = self._grid(o)
                for pos in np.ndindex(o.shape):
                    if int(grid[pos]) in written:
                        c = ir.land(*[ir.const(True) if not isinstance(t, ir.Node) and t == p else (t == p) for t, p in zip(tup, pos)], *g)
                        self.log[int(grid[pos])].append((it, "r", (c,), None))
        for a in written:
            l = self.log[a]
            if len({e[0] for e in l}) < 2:
                continue
            n = 0
            for x in range(len(l)):
                for y in range(x + 1, len(l)):
                    p, q = l[x], l[y]
                    if p[0] == q[0] or p[1] == q[1] == "r":
                        continue
                    if p[1] == q[1] == "w" and p[3] is not None and p[3] is q[3]:
                        continue          # the same value from both
                    c = ir.land(*p[2], *q[2]) if p[2] or q[2] else ir.const(True)
                    if c.op == "const" and not c.val:
                        continue
                    self.conds.append(c)
                    n += 1
                    if n > 40:
                        break
                if n > 40:
                    break
        self.log, self.symr = {}, []
        self.last, self.keep = self.keep[:0], []
