"""Depth-first exploration of all paths of a harness over the real code."""
import time
import traceback

import z3

from . import solver as Z
from . import sym as S


class Infeasible(Exception):
    pass


class Ctx:
    def __init__(self, prefix, ranges):
        self.prefix = prefix
        self.decisions = []
        self.pc = []            # list of B
        self.known = {}
        self.alternatives = []
        self.ranges = dict(ranges)
        self.imemo = {}
        self.enc = Z.Encoder(self.ranges)
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.data = {}
        self.nonzero = []

    # -- inputs
    def var(self, name, lo=None, hi=None):
        lo = -Z.INF if lo is None else float(lo)
        hi = Z.INF if hi is None else float(hi)
        self.ranges[name] = (lo, hi)
        return S.Sym(S.var(name))

    def assume(self, b):
        b = S.as_b(b)
        if b.kind == 'k':
            if not b.args[0]:
                raise Infeasible()
            return
        self._add(b)

    def _add(self, b):
        self.pc.append(b)
        self.known[b.key()] = True
        self.known[S.not_(b).key()] = False
        self.solver.add(self.enc.b(b))
        for a in self.enc.take():
            self.solver.add(a)

    def _feasible(self, b):
        f = self.enc.b(b)
        for a in self.enc.take():
            self.solver.add(a)
        Z.STATS.branch_queries += 1
        t = time.time()
        r = self.solver.check(f)
        Z.STATS.time += time.time() - t
        return r != z3.unsat

    def branch(self, b):
        k = self.known.get(b.key())
        if k is not None:
            return k
        t = Z.trivially(b, self.ranges, self.imemo)
        if t is not None:
            Z.STATS.branch_interval += 1
            self.known[b.key()] = t
            return t
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self._add(b if d else S.not_(b))
            return d
        ft = self._feasible(b)
        ff = self._feasible(S.not_(b)) if ft else True
        if ft and ff:
            self.alternatives.append(self.decisions + [False])
            d = True
        elif ft:
            d = True
        else:
            d = False
        self.decisions.append(d)
        self._add(b if d else S.not_(b))
        return d


class PathResult:
    def __init__(self, ctx, value=None, exc=None, tb=None):
        self.pc = ctx.pc
        self.ranges = ctx.ranges
        self.decisions = ctx.decisions
        self.value = value
        self.exc = exc
        self.tb = tb
        self.data = ctx.data


class Exploration:
    def __init__(self):
        self.paths = []
        self.truncated = False


def explore(fn, max_paths=64, budget=120.0):
    """Run ``fn(ctx)`` on every feasible path."""
    out = Exploration()
    stack = [[]]
    t0 = time.time()
    old = S._brancher[0]
    while stack:
        if len(out.paths) >= max_paths or time.time() - t0 > budget:
            out.truncated = True
            break
        prefix = stack.pop()
        ctx = Ctx(prefix, {})
        S._brancher[0] = ctx.branch
        try:
            v = fn(ctx)
            pr = PathResult(ctx, value=v)
        except Infeasible:
            pr = None
        except Exception as e:      # real-code exception or EncodingError
            pr = PathResult(ctx, exc=e, tb=traceback.format_exc())
        finally:
            S._brancher[0] = old
        stack.extend(ctx.alternatives)
        if pr is not None:
            Z.STATS.paths += 1
            out.paths.append(pr)
    return out
