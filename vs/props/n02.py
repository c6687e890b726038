"""N02: root searches stay in their bounds and return roots."""
import math

from run import Case

from .. import fluids
from .. import net
from .. import sym as S
from . import eqs
from .n01 import Fluid

META = {
    'bounds': 'the Newton search with an arbitrary function and derivative (uninterpreted), up to 3 iterations, symbolic start, limits, target and '
              'tolerances, every tolerance mode; with linear functions and its default settings; temperature of mixtures of two and three '
              'species with linear enthalpy/entropy (symbolic coefficients) for every mixing rule; bus values',
    'assumptions': ['real arithmetic', 'derivative not zero'],
    'outside': 'convergence for functions that are not linear',
}


def generic(iters, mode, **tol):
    """Any function: limits are respected, an early stop means the target is met."""
    def run(o, env):
        from tespy.tools.helpers import newton_with_kwargs
        lo, hi = env.var('min', -1e3, 0.0), env.var('max', 1.0, 1e3)
        x0 = env.var('start', -1e3, 1e3)
        env.assume(x0 >= lo)
        env.assume(x0 <= hi)
        target = env.var('target', -1e3, 1e3)
        seen, vals = [], []
        a, b, c = env.var('a', 0.1, 10.0), env.var('b', -10.0, 10.0), env.var('c', -0.01, 0.01)

        def f(x, **k):
            if env.symbolic and S.is_sym(x):
                v = S.Sym(S.uf('fn', S.lift(x)))
            else:
                v = a * x + b + c * x * x
            seen.append(x)
            vals.append(v)
            return v

        def d(x, **k):
            if env.symbolic and S.is_sym(x):
                v = S.Sym(S.uf('dfn', S.lift(x)))
                env.assume(v != 0)
                return v
            return a + 2 * c * x
        r = newton_with_kwargs(d, target, val0=x0, valmin=lo, valmax=hi, max_iter=iters, tol_mode=mode, function=f, parameter='x',
                               x=x0, **tol)
        out = [eqs.Holds('result not below the lower limit', r >= lo), eqs.Holds('result not above the upper limit', r <= hi)]
        for i, x in enumerate(seen):
            out.append(eqs.Holds('iterates inside of the limits', S.and_(S.as_b(x >= lo), S.as_b(x <= hi)) if env.symbolic else lo <= x <= hi))
        rel, ab = tol.get('tol_rel', 1e-6), tol.get('tol_abs', 1e-12)
        if len(seen) <= iters:
            res = abs(target - vals[-1])
            small = abs(target) <= 2 * rel
            if mode == 'abs' or (mode == 'rel' and small) or target == 0:
                ok = res <= ab
            elif mode == 'rel':
                ok = res <= rel * abs(target)
            else:
                ok = S.and_(S.as_b(res <= rel * abs(target)), S.as_b(res <= ab)) if S.is_sym(res) else res <= rel * abs(target) and res <= ab
            out.append(eqs.Holds('early stop means the target is met', ok))
        out.append(eqs.Holds('iteration count limited', len(seen) <= iters + 2))
        return out
    return run


def linear(mode):
    """A linear function has its root found, wherever the search starts."""
    def run(o, env):
        from tespy.tools.helpers import newton_with_kwargs
        a, b = env.var('slope', 0.5, 1e4), env.var('offset', -1e6, 1e6)
        s = env.var('sign', -1.0, 1.0)
        a = a if s > 0 else -a
        x, x0 = env.var('solution', 70.0, 3000.0), env.var('start', 1.0, 1e4)
        t = a * x + b
        if mode != 'abs':
            env.assume(S.or_(S.as_b(t > 1.0), S.as_b(t < -1.0)) if S.is_sym(t) else abs(t) > 1.0)
        r = newton_with_kwargs(lambda **k: a, t, val0=x0, tol_mode=mode, function=lambda T, **k: a * T + b, parameter='T')
        return [eqs.Close('root of a linear function', r, x, rel=1e-5)] if mode == 'abs' and not env.symbolic else \
            [eqs.Eq('root of a linear function', r, x, rel=1e-5)]
    return run


def temp(rule, n, kind, T0):
    """Temperature of a mixture from enthalpy or entropy."""
    def run(o, env):
        from tespy.tools.fluid_properties import functions as F
        fd, xs, rest = {}, [], 1
        names = ['N2', 'O2', 'CO2'][:n]
        for i, f in enumerate(names):
            c, h0 = env.var(f'cp {f}', 100.0, 1e4), env.var(f'h0 {f}', -1e5, 1e5)
            fn = (lambda p, T, c=c, h0=h0: c * T + h0)
            w = Fluid(h_pT=fn, s_pT=fn)
            w._molar_mass = 0.02 + 0.01 * i
            w._T_min, w._T_max = 150.0 + 50 * i, 2000.0 - 100 * i
            x = rest if i == n - 1 else env.var(f'x {f}', 0.05, 0.9)
            rest = rest - x
            if i == n - 1:
                env.assume(x >= 0.01)
            fd[f] = {'wrapper': w, 'mass_fraction': x}
        p, t = env.var('p', 1e4, 1e7), env.var('T', 100.0 + 50 * n + 0.2, 2099.0 - 100 * n)
        g = F.h_mix_pT if kind == 'h' else F.s_mix_pT
        v = g(p, t, fd, rule)
        env.assume(S.or_(S.as_b(v > 1.0), S.as_b(v < -1.0)) if S.is_sym(v) else abs(v) > 1.0)
        start = {'none': None, 'zero': 0, 'nan': math.nan}.get(T0, None)
        if T0 == 'any':
            start = env.var('T0', 1.0, 5000.0)
        fn = F.T_mix_ph if kind == 'h' else F.T_mix_ps
        r = fn(p, v, fd, rule, T0=start)
        return [eqs.Close('temperature whose property is the given one', r, t, rel=3e-6)]
    return run


def bus(sign):
    """Bus value with the efficiency at the load of the bus."""
    def prepare():
        from tespy.components import Turbine
        from tespy.connections import Bus
        t, b = Turbine('t'), Bus('b')
        b.add_comps({'comp': t, 'base': 'bus'})
        b.comps = b.comps.astype(object)
        return t, b

    def run(o, env):
        t, b = o
        # 1 / eta linear in the load: the bus equation is linear
        a0, a1 = env.var('a0', 1.0, 2.0), env.var('a1', -0.2, 0.2)

        class Char:
            def evaluate(self, x):
                return 1 / (a0 + a1 * x)
        ref = env.var('reference', 1e3, 1e8) * sign
        v = env.var('component value', 1e3, 1e8) * sign
        env.assume(abs(v) <= 2 * abs(ref))
        b.comps.at[t, 'P_ref'] = ref
        b.comps.at[t, 'char'] = Char()
        t.bus_func = lambda *a: v
        e = t.calc_bus_efficiency(b)
        bv = t.calc_bus_value(b)
        want = v * a0 / (1 - v * a1 / ref)
        return [eqs.Close('bus value', bv, want, rel=1e-4),
                eqs.Close('efficiency', e, 1 / (a0 + a1 * want / ref), rel=1e-4)]
    return prepare, run


def C(nm, run, prepare=None, limit=200, **kw):
    return Case(nm, lambda: eqs.case(nm, run, prepare, stubs=lambda: [], cross=1, **kw), limit=limit)


def cases(tier):
    out = []
    for it in (1, 2) + ((3,) if tier == 'thorough' else ()):
        for mode in ('rel', 'abs', 'both'):
            if mode == 'both' and it > 1 and tier != 'thorough':
                continue
            out.append(C(f'any function, {it} iterations, {mode} tolerance', generic(it, mode), max_paths=3000, budget=600.0, limit=900))
        out.append(C(f'any function, {it} iterations, given tolerances', generic(it, 'rel', tol_rel=1e-3, tol_abs=1e-4), max_paths=600))
    for mode in ('rel', 'abs', 'both'):
        out.append(C(f'linear function, {mode} tolerance', linear(mode)))
    for rule in ('ideal', 'incompressible', 'ideal-cond'):
        for n in (2, 3) if tier == 'thorough' else (2,):
            for k in ('h', 's'):
                for T0 in ('none', 'any', 'zero', 'nan'):
                    if T0 in ('zero', 'nan') and (n == 3 or k == 's'):
                        continue
                    out.append(C(f'temperature from {k} of {n} species, {rule}, start {T0}', temp(rule, n, k, T0)))
    for s in (1, -1):
        p, r = bus(s)
        out.append(C(f'bus value, {"positive" if s > 0 else "negative"} reference', r, p))
    return out
