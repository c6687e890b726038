"""N01: numerical derivatives are derivatives and leave the state alone."""
from run import Case

from .. import sym as S
from . import eqs

META = {
    'bounds': 'every numerical derivative of fluid properties, equations and the bus value; property functions and equations '
              'are arbitrary quadratic polynomials (symbolic coefficients) of pressure, enthalpy, vapour fraction, mass fractions, '
              'mass flow or component variable, linear at the edge of the composition range; arguments symbolic',
    'assumptions': ['real arithmetic (no rounding)'],
    'outside': 'the truncation error for functions that are not quadratic on the width of the step',
}
P, H = (1e3, 1e4), (1e3, 1e4)


def poly(env, name, args, deg=2):
    """Quadratic polynomial, as function and with its partial derivatives."""
    n = len(args)
    c = {}
    for i in range(n):
        c[i,] = env.var(f'{name}.{args[i]}', -1.0, 1.0)
    if deg > 1:
        for i in range(n):
            for j in range(i, n):
                c[i, j] = env.var(f'{name}.{args[i]}{args[j]}', -1e-3, 1e-3)
    c0 = env.var(name + '.0', 1e4, 1e5)

    def f(*x):
        r = c0
        for k, v in c.items():
            t = v
            for i in k:
                t = t * x[i]
            r = r + t
        return r

    def d(w, *x):
        r = 0
        for k, v in c.items():
            for q in range(len(k)):
                if k[q] == w:
                    t = v
                    for i in k[:q] + k[q + 1:]:
                        t = t * x[i]
                    r = r + t
        return r
    return f, d


class Fluid:
    """Property engine with given functions."""
    _T_min, _T_max, _molar_mass = 200.0, 2000.0, 0.03

    def __init__(self, **fns):
        self.__dict__.update(fns)


def data(*w):
    n = len(w)
    return {f'f{i}': {'wrapper': x, 'mass_fraction': 1.0 / n} for i, x in enumerate(w)}


def same(a, b):
    return a is b or (not S.is_sym(a) and not S.is_sym(b) and a == b)


TOL = dict(scale=1.0, rel=2e-4)


def pure(fn, prop, args, w, arg_ranges, inverse=False):
    """Derivative of a property of a pure fluid with respect to argument w."""
    def run(o, env):
        from tespy.tools.fluid_properties import functions as F
        f, d = poly(env, prop, args)
        g = (lambda *a: 1 / f(*a)) if inverse else f
        x = [env.var(a, *r) for a, r in zip(args, arg_ranges)]
        r = getattr(F, fn)(*x, data(Fluid(**{prop: g})))
        return [eqs.Eq(f'{fn} = derivative of {prop}', r, d(w, *x), **TOL)]
    return run


def mix(fn, w):
    """Derivative of a mixture temperature."""
    def prepare():
        return None

    def run(o, env):
        from tespy.tools.fluid_properties import functions as F
        from tespy.tools.fluid_properties import helpers as FH
        args = ('p', 'h', 'x0', 'x1')
        f, d = poly(env, 'T', args)
        fd = data(Fluid(), Fluid())
        x0, x1 = env.var('x0', 0.1, 0.9), env.var('x1', 0.1, 0.9)
        fd['f0']['mass_fraction'], fd['f1']['mass_fraction'] = x0, x1
        p, h = env.var('p', *P), env.var('h', *H)
        old = F.inverse_temperature_mixture
        F.inverse_temperature_mixture = lambda p, target_value, fluid_data, T0, f: ff(p, target_value, fluid_data)

        def ff(p, h, fdat):
            return f(p, h, fdat['f0']['mass_fraction'], fdat['f1']['mass_fraction'])
        try:
            a = (p, h, 'f0', fd) if 'dfluid' in fn else (p, h, fd)
            r = getattr(F, fn)(*a, mixing_rule='ideal', T0=300.0)
        finally:
            F.inverse_temperature_mixture = old
        return [eqs.Eq(f'{fn}: derivative', r, d(w, p, h, x0, x1), scale=1.0, rel=1e-3),
                eqs.Eq('mass fraction restored', fd['f0']['mass_fraction'], x0),
                eqs.Eq('other mass fraction unchanged', fd['f1']['mass_fraction'], x1)]
    return run


def mix_vol(fn, w):
    """dv of a mixture: the volume is a function of p, T(p, h)."""
    def run(o, env):
        from tespy.tools.fluid_properties import functions as F
        T, dT = poly(env, 'T', ('p', 'h'), deg=1)
        fd = data(Fluid(), Fluid())
        p, h = env.var('p', *P), env.var('h', *H)
        V, dV = poly(env, 'v', ('p', 'T'))
        old = F.inverse_temperature_mixture, dict(F.V_MIX_PT_DIRECT)
        F.inverse_temperature_mixture = lambda p, target_value, fluid_data, T0, f: T(p, target_value)
        F.V_MIX_PT_DIRECT['ideal'] = lambda p, t, fluid_data, **k: V(p, t)
        try:
            r = getattr(F, fn)(p, h, fd, mixing_rule='ideal', T0=300.0)
        finally:
            F.inverse_temperature_mixture = old[0]
            F.V_MIX_PT_DIRECT.update(old[1])
        t = T(p, h)
        e = dV(1, p, t) * dT(w, p, h) + (dV(0, p, t) if w == 0 else 0)
        return [eqs.Eq(f'{fn}: derivative', r, e, scale=100.0, rel=1e-2)]
    return run


def conn(x):
    from tespy.components import Sink, Source
    from tespy.connections import Connection
    c = Connection(Source('a'), 'out1', Sink('b'), 'in1', label='c')
    c.set_attr(fluid={'f0': None, 'f1': None})
    c.fluid.val = {'f0': 0.5, 'f1': 0.5}
    c.fluid.wrapper = {'f0': Fluid(), 'f1': Fluid()}
    c.fluid.is_var = {'f0', 'f1'}
    return c


def numeric(dx, xr=(0.05, 0.95), deg=2):
    def run(o, env):
        from tespy.tools.helpers import _numeric_deriv
        c = conn(None)
        args = ('m', 'p', 'h', 'x0', 'x1')
        f, d = poly(env, 'F', args, deg)
        st = [env.var('m', 0.1, 100.0), env.var('p', *P), env.var('h', *H), env.var('x0', *xr), env.var('x1', 0.05, 0.95)]
        c.m.val_SI, c.p.val_SI, c.h.val_SI = st[:3]
        c.fluid.val['f0'], c.fluid.val['f1'] = st[3:]
        c.build_fluid_data()
        seen = []

        def func(k=None, **kw):
            seen.append(k)
            return f(c.m.val_SI, c.p.val_SI, c.h.val_SI, c.fluid_data['f0']['mass_fraction'], c.fluid_data['f1']['mass_fraction'])
        r = _numeric_deriv(None, func, dx, c, k='arg')
        w = {'m': 0, 'p': 1, 'h': 2, 'f0': 3}[dx]
        e = dict(rel=1e-9, scale=1.0)
        return [eqs.Eq(f'derivative to {dx}', r, d(w, *st), scale=1.0, rel=1e-3, near=1.0),
                eqs.Holds('arguments passed to the equation', all(k == 'arg' for k in seen) and len(seen) > 0),
                eqs.Eq('mass flow restored', c.m.val_SI, st[0], **e), eqs.Eq('pressure restored', c.p.val_SI, st[1], **e),
                eqs.Eq('enthalpy restored', c.h.val_SI, st[2], **e), eqs.Eq('fraction restored', c.fluid.val['f0'], st[3], **e),
                eqs.Eq('fluid data restored', c.fluid_data['f0']['mass_fraction'], st[3], **e),
                eqs.Eq('other fluid data unchanged', c.fluid_data['f1']['mass_fraction'], st[4], **e)]
    return run


def comp_var(o, env):
    from tespy.components import Pipe
    from tespy.tools.helpers import _numeric_deriv
    c = Pipe('p')
    c.set_attr(D='var')
    f, d = poly(env, 'F', ('D',))
    v = env.var('D', 0.01, 2.0)
    c.D.val = v
    c.D.d = 1e-3 if not env.symbolic else env.var('d', 1e-6, 1e-2)
    r = _numeric_deriv(c, lambda **k: f(c.D.val), 'D')
    return [eqs.Eq('derivative to a component variable', r, d(0, v), **TOL),
            eqs.Eq('component variable restored', c.D.val, v, scale=1.0)]


def central(o, env):
    from tespy.tools.helpers import central_difference
    f, d = poly(env, 'F', ('x', 'y'))
    x, y = env.var('x', 1.0, 100.0), env.var('y', 1.0, 100.0)
    dl = env.var('delta', 1e-4, 1.0)

    def func(x, y, **k):
        return f(x, y)
    kw = dict(x=x, y=y)
    out = []
    for i, n in enumerate(('x', 'y')):
        r = central_difference(function=func, parameter=n, delta=dl, **kw)
        out.append(eqs.Eq(f'central difference with respect to {n}', r, d(i, x, y), scale=1.0, rel=1e-4))
    return out


def bus(o, env):
    """Derivative of the implicit bus equation."""
    from tespy.tools import helpers as hlp
    if not hasattr(hlp, 'bus_char_derivative'):
        return [eqs.Holds('no separate derivative', True)]
    a, b = env.var('a', 1.0, 2.0), env.var('b', -0.01, 0.01)

    class Char:
        def evaluate(self, x):
            return 1 / (a + b * x)
    comp, bv, ref = env.var('component value', -1e4, 1e4), env.var('bus value', 1e2, 1e4), env.var('reference', 1e2, 1e4)
    kw = dict(component_value=comp, char_func=Char(), reference_value=ref, bus_value=bv)
    r = hlp.bus_char_derivative(**kw)
    return [eqs.Eq('residual', hlp.bus_char_evaluation(**kw), bv - comp * (a + b * bv / ref), scale=1e3, rel=1e-6),
            eqs.Eq('derivative of the bus equation', r, 1 - comp * b / ref, scale=0.1, rel=1e-4)]


def pk(o, env):
    """Derivative of the Prandtl-Karman equation."""
    from tespy.tools.fluid_properties import helpers as FH
    if not hasattr(FH, 'prandtl_karman_derivative'):
        return [eqs.Holds('no separate derivative', True)]
    re, lam = env.var('re', 1e6, 1e8), env.var('lam', 1e-5, 0.2)
    r = FH.prandtl_karman_derivative(reynolds=re, darcy_friction_factor=lam)
    if env.symbolic:
        v = S.lift(lam)
        e = S.wrap(S.diff(S.lift(FH.prandtl_karman(reynolds=re, darcy_friction_factor=lam)), v))
    else:
        h = lam * 1e-5
        e = (FH.prandtl_karman(reynolds=re, darcy_friction_factor=lam + h)
             - FH.prandtl_karman(reynolds=re, darcy_friction_factor=lam - h)) / (2 * h)
    return [eqs.Close('derivative of the friction equation', r, e, rel=1e-5)]


def C(nm, run, **kw):
    return Case(nm, lambda: eqs.case(nm, run, stubs=lambda: [], cross=1, **kw), limit=100)


def cases(tier):
    out = [
        C('temperature to pressure', pure('dT_mix_dph', 'T_ph', 'ph', 0, (P, H))),
        C('temperature to enthalpy', pure('dT_mix_pdh', 'T_ph', 'ph', 1, (P, H))),
        C('volume to pressure', pure('dv_mix_dph', 'd_ph', 'ph', 0, (P, H), True)),
        C('volume to enthalpy', pure('dv_mix_pdh', 'd_ph', 'ph', 1, (P, H), True)),
        C('saturation enthalpy to pressure', pure('dh_mix_dpQ', 'h_pQ', 'pQ', 0, (P, (0.0, 1.0)))),
        C('boiling temperature to pressure', pure('dT_sat_dp', 'T_sat', 'p', 0, (P,))),
        C('mixture temperature to pressure', mix('dT_mix_dph', 0)),
        C('mixture temperature to enthalpy', mix('dT_mix_pdh', 1)),
        C('mixture temperature to composition', mix('dT_mix_ph_dfluid', 2)),
        C('mixture volume to pressure', mix_vol('dv_mix_dph', 0)),
        C('mixture volume to enthalpy', mix_vol('dv_mix_pdh', 1)),
        C('equation to a component variable', comp_var),
        C('central difference', central),
        C('bus equation', bus), C('friction factor', pk),
        C('equation to composition at the edge of its range', numeric('f0', (0.0, 1.0), 1)),
    ]
    for dx in ('m', 'p', 'h', 'f0'):
        out.append(C(f'equation to {dx}', numeric(dx)))
    return out
