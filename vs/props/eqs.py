"""Cases given by one function that runs symbolically and with floats."""
import math

import numpy as np

from .. import contracts
from .. import core
from .. import shims
from .. import sym as S


class Eq:
    """lhs must equal rhs.  ``scale``: magnitude of the terms involved, used
    only as tolerance of the float replay."""

    def __init__(self, name, lhs, rhs, scale=0.0, rel=1e-6, near=None):
        self.name, self.lhs, self.rhs, self.scale, self.rel = name, lhs, rhs, scale, rel
        self.near = near            # |lhs - rhs| <= 1e-9 * near instead of equality (float constants in the code)

    def ob(self):
        l, r = self.lhs, self.rhs
        if not S.is_sym(l) and not S.is_sym(r):
            return core.Ob(self.name, S.TRUE if _same(l, r, self) else S.FALSE, self.name)
        if self.near is not None:
            d, t = S.wrap(S.lift(l)) - r, 1e-9 * self.near
            return core.Ob(self.name, S.and_(S.as_b(d <= t), S.as_b(d >= -t)), self.name)
        return core.Ob(self.name, S.eq(l, r), self.name)

    def holds(self):
        return _same(self.lhs, self.rhs, self)

    def text(self):
        return f'{self.name}: {self.lhs!r} instead of {self.rhs!r}'


def _same(l, r, e):
    if l is r:
        return True
    try:
        l, r = float(l), float(r)
    except (TypeError, ValueError):
        return l == r
    if math.isnan(l) or math.isnan(r):
        return math.isnan(l) and math.isnan(r)
    return abs(l - r) <= e.rel * max(abs(l), abs(r), abs(float(e.scale)) if not S.is_sym(e.scale) else 0) + 1e-12


class Holds:
    """A condition (SymBool, B or bool)."""

    def __init__(self, name, cond, detail=''):
        self.name, self.cond, self.detail = name, cond, detail

    def ob(self):
        return core.Ob(self.name, S.as_b(self.cond), self.name)

    def holds(self):
        return bool(self.cond)

    def text(self):
        return f'{self.name} is false {self.detail}'


class Close(Holds):
    """Equal up to the rounding of published conversion factors."""

    def __init__(self, name, a, b, rel=2e-5):
        self.name, self.detail = name, f'{a!r} / {b!r}'
        if S.is_sym(a) or S.is_sym(b):
            self.cond = (a - b) * (a - b) <= rel ** 2 * (b * b)
        else:
            self.cond = abs(a - b) <= rel * abs(b) + (1e-9 if rel > 1e-6 else 0)


class Env:
    """What the run function sees."""

    def __init__(self, ctx=None, env=None):
        self.ctx = ctx
        self.env = env
        self.symbolic = ctx is not None

    def var(self, name, lo, hi):
        if self.ctx is not None:
            return self.ctx.var(name, lo, hi)
        v = self.env.get(name)
        if v is None:
            v = (lo + hi) / 2 if lo * hi <= 0 else math.copysign((lo * hi) ** 0.5, lo)
        return float(v)

    def assume(self, c):
        if self.ctx is not None:
            self.ctx.assume(c)
        elif not c:
            raise Unusable()

    def assign(self, inp):
        if self.ctx is not None:
            inp.assign_symbolic(self.ctx)
        else:
            inp.assign(self.env)

    def roots(self, *vals):
        """The defining equation of every root search result in ``vals``."""
        if self.ctx is None:
            return
        seen = set()
        for v in vals:
            if S.is_sym(v):
                for e in S.topo(S.lift(v)):
                    if e.op == 'uf' and e.args[0] == 'root' and e.id not in seen:
                        seen.add(e.id)
                        self.ctx.assume(S.eq(S.wrap(S.subst(e.args[1], {S.BOUND: e})), 0))


class Unusable(Exception):
    pass


def case(name, run, prepare=None, stubs=None, first=None, **kw):
    """prepare() -> object (concrete code, before values become symbolic);
    run(obj, env) -> list of Eq / Holds.  first(env) -> object: like prepare,
    but may fork on symbolic choices."""
    def path(ctx):
        br = S._brancher[0]
        S._brancher[0] = None
        o = prepare() if prepare else None
        S._brancher[0] = br
        if first:
            o = first(Env(ctx))
        st = contracts.finite_difference_stubs() if stubs is None else stubs()
        with shims.symbolic(st):
            r = run(o, Env(ctx))
        if not r:
            raise S.EncodingError('nothing to check')
        return [x.ob() for x in r]

    def replay(env, key):
        o = prepare() if prepare else first(Env(env=env)) if first else None
        if isinstance(key, tuple) and key[0] == 'exception':
            def f():
                with np.errstate(all='ignore'):
                    run(o, Env(env=env))
            try:
                return core.replay_exception(key, f)
            except Unusable:
                return None
        try:
            with np.errstate(all='ignore'):
                r = run(o, Env(env=env))
        except Unusable:
            return None
        for x in r:
            if x.name == key and not x.holds():
                return True, x.text()
        return False, ''
    return core.run_case(name, path, replay, **kw)
