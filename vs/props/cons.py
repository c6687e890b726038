"""Conservation: every state that satisfies the equations of the components
conserves mass, species/elements and energy."""
import numpy as np

from .. import contracts
from .. import core
from .. import net
from .. import shims
from .. import sym as S
from . import eqs


def solve_state(nw, sweeps=40):
    """Move the network variables onto a solution of the residuals."""
    vs = list(net.variables(nw).values())
    if not vs:
        return np.array(net.evaluate(nw, False)[0], dtype=float)

    def f():
        net.rebuild_fluid_data(nw)
        with np.errstate(all='ignore'):
            return np.array(net.evaluate(nw, False)[0], dtype=float)
    x = np.array([g() for _, g, _ in vs], dtype=float)
    sc = np.maximum(np.abs(x), 1e-3)
    r = f()
    for _ in range(sweeps):
        J = np.zeros((len(r), len(vs)))
        for j, (_, _, st) in enumerate(vs):
            h = sc[j] * 1e-6
            st(x[j] + h)
            up = f()
            st(x[j] - h)
            lo = f()
            st(x[j])
            J[:, j] = (up - lo) / (2 * h)
        Js = J * sc
        rn = np.maximum(np.abs(Js).max(axis=1), 1e-300)
        if not np.isfinite(Js).all() or not np.isfinite(r).all():
            return None
        dx = -np.linalg.lstsq(Js / rn[:, None], r / rn, rcond=1e-11)[0]
        dx = np.clip(dx, -0.5, 0.5)
        x = x + dx * sc
        for j, (_, _, st) in enumerate(vs):
            st(x[j])
        r = f()
        if np.abs(dx).max() < 1e-13:
            break
    if not np.isfinite(r).all():
        return None
    J = np.abs(Js).max(axis=1)
    if (np.abs(r) > 1e-8 * np.maximum(J, 1e-300) + 1e-12).any():
        return None
    return r


def physical(nw, tiny=False):
    for c in nw.conns['object']:
        if not ((tiny or 1e-3 < abs(c.m.val_SI)) and abs(c.m.val_SI) < 1e5 and 1e2 < c.p.val_SI < 1e9 and -1e7 < c.h.val_SI < 1e8):
            return False
        if any(not -1e-9 <= x <= 1 + 1e-9 for x in c.fluid.val.values()):
            return False
    return True


def trace_stubs():
    """Species present in traces (below the precision limit) are treated like
    the others instead of being skipped in mixture property sums."""
    from tespy.tools.fluid_properties import helpers as FH
    o = getattr(FH, '_is_larger_than_precision', None)
    return [(o, lambda v: True if S.is_sym(v) else o(v))] if o else []


def case(name, build, goals, assume=None, rows=None, check=None, after=None, tiny=False, arbitrary=False, **kw):
    """build() -> (nw, Inputs); goals(nw, env) -> [Eq/Holds]."""

    def path(ctx):
        br = S._brancher[0]
        S._brancher[0] = None
        nw, inp = build()
        net.warm_up(nw)
        S._brancher[0] = br
        net.to_object(nw)
        with shims.symbolic(contracts.finite_difference_stubs() + trace_stubs()):
            inp.assign_symbolic(ctx)
            net.rebuild_fluid_data(nw)
            env = eqs.Env(ctx)
            if assume:
                assume(nw, env)
            res, names = ([], []) if arbitrary else (net.evaluate(nw, True)[0], net.row_names(nw))
            for n, r in zip(names, res):
                if rows is None or rows(n):
                    env.roots(r)
                    ctx.assume(S.eq(r, 0))
            if after:
                after(nw, env)
            return [x.ob() for x in goals(nw, env)]

    def replay(vals, key):
        nw, inp = build()
        net.warm_up(nw)
        inp.assign(vals)
        net.rebuild_fluid_data(nw)
        env = eqs.Env(env=vals)
        try:
            if assume:
                assume(nw, env)
            if key[0] == 'exception':
                def f():
                    if not arbitrary:
                        net.evaluate(nw, False)
                    if after:
                        after(nw, env)
                    goals(nw, env)
                return core.replay_exception(key, f)
            if (not arbitrary and solve_state(nw) is None) or not physical(nw, tiny):
                return None
            if assume:
                assume(nw, env)
            if after:
                after(nw, env)
            with np.errstate(all='ignore'):
                for g in goals(nw, env):
                    if g.name == key and not g.holds():
                        return True, g.text()
        except eqs.Unusable:
            return None
        return False, ''
    return core.run_case(name, path, replay, vacuity=True, **kw)


def stream_mass(c):
    return c.m.val_SI


def total(conns, f):
    r = 0
    for c in conns:
        r = r + f(c)
    return r


def frac(c, fl):
    return c.fluid.val.get(fl, 0)


def scale(conns, f):
    if any(S.is_sym(f(c)) for c in conns):
        return 0.0
    return max([abs(f(c)) for c in conns] + [0.0])
