"""E01: physical and chemical exergy of streams."""
from run import Case

from .. import fluids
from .. import net
from .. import shims
from .. import sym as S
from . import eqs, m01

META = {
    'bounds': 'one connection with symbolic m, p, T, h, s and ambient state; pure fluid, mixtures of two and three species with symbolic '
              'composition and molar masses, with and without (condensing) water, absent species in any position; '
              'standard exergies of the species symbolic, every choice of the tabulated reference phase',
    'assumptions': ['enthalpy and entropy of mixtures with condensing water as decided by M01', 'molar masses of three species concrete (chemical exergy)',
                    'properties of the species are uninterpreted functions (any fluid)'],
    'outside': 'values of the tabulated standard exergies; traces (mass fraction or condensate between 0 and 1e-5)',
}


def connection():
    from tespy.components import Sink, Source
    from tespy.connections import Connection
    return Connection(Source('a'), 'out1', Sink('b'), 'in1', label='c')


def stream(env, data, rule):
    c = connection()
    c.fluid_data = data
    c.mixing_rule = rule
    c.m.val_SI = env.var('m', 1e-3, 1e3)
    c.p.val_SI = env.var('p', *m01.P)
    c.h.val_SI = env.var('h', *net.H_RANGE)
    c.s.val_SI = env.var('s', 100.0, 1e4)
    c.T.val_SI = env.var('T', *m01.T)
    return c, env.var('p0', 0.5e5, 2e5), env.var('T0', 260.0, 320.0)


def one(env, first):
    cls = fluids.StubFluid()
    a, b = cls('N2'), cls('O2')
    a._molar_mass = env.var('M', 0.002, 0.2)
    d = [('O2', {'wrapper': b, 'mass_fraction': 0.0}), ('N2', {'wrapper': a, 'mass_fraction': 1.0})]
    return dict(d if first else d[::-1]), a


def check(c, h, s, p0, T0):
    """The documented definitions."""
    p, m = c.p.val_SI, c.m.val_SI
    hp, sp, h0, s0 = h(p), s(p), h(p0), s(p0)
    c.get_physical_exergy(p0, T0)
    th = c.h.val_SI - hp - T0 * (c.s.val_SI - sp)
    me = hp - h0 - T0 * (sp - s0)
    return [eqs.Eq(n, x, e, rel=1e-7, scale=k) for n, x, e, k in (
        ('specific thermal exergy', c.ex_therm, th, 1e6), ('specific mechanical exergy', c.ex_mech, me, 1e6),
        ('specific physical exergy', c.ex_physical, th + me, 1e6), ('thermal exergy', c.Ex_therm, m * th, 1e7),
        ('mechanical exergy', c.Ex_mech, m * me, 1e7), ('physical exergy', c.Ex_physical, m * (th + me), 1e7))]


def physical_pure(first):
    def run(o, env):
        d, a = one(env, first)
        c, p0, T0 = stream(env, d, None)
        return check(c, lambda p: a.h_pT(p, T0), lambda p: a.s_pT(p, T0), p0, T0)
    return run


def physical_mix(rule, names, absent=None, order=None):
    def run(o, env):
        m = m01.Mix(env, names, absent, order)
        c, p0, T0 = stream(env, m.data, rule)
        f = {'ideal': m01.ideal, 'incompressible': m01.incompressible}.get(rule)
        if not f:                                         # condensing water: mixture properties as decided by M01
            from tespy.tools.fluid_properties import functions as F
            f = lambda m, k, p, t: getattr(F, k + '_mix_pT')(p, t, m.data, rule)
        return check(c, lambda p: f(m, 'h', p, T0), lambda p: f(m, 's', p, T0), p0, T0)
    return run


def table(env, ws):
    """Standard exergies by the name CoolProp knows the species."""
    t = {}
    for k, w in ws.items():
        key = sorted(w._aliases)[0]
        t[key] = ['cas', env.var('e solid ' + k, 0.0, 1e3), env.var('e liquid ' + k, 0.0, 1e3), env.var('e gas ' + k, 0.0, 1e3), None]
    t['XENON'] = ['cas', 'NaN', 'NaN', 40.0, 3]
    return t


def chemical_pure(first, phase):
    def run(o, env):
        d, a = one(env, first)
        c, p0, T0 = stream(env, d, None)
        t = table(env, {'N2': a})
        r = t[sorted(a._aliases)[0]]
        r[4] = phase
        c.get_chemical_exergy(p0, T0, t)
        e = r[phase] / a._molar_mass * 1e3
        return [eqs.Eq('specific chemical exergy', c.ex_chemical, e), eqs.Eq('chemical exergy', c.Ex_chemical, c.m.val_SI * e)]
    return run


def chemical_mix(names, absent=None, order=None):
    def run(o, env):
        from tespy.tools.global_vars import gas_constants
        m = m01.Mix(env, names, absent, order, molar_mass=len(names) < 3)
        c, p0, T0 = stream(env, m.data, 'ideal-cond')
        t = table(env, m.w)
        e = {f: t[sorted(w._aliases)[0]] for f, w in m.w.items()}
        y_liq, gas = 0, dict(m.y)                         # moles per mole of mixture
        if m.water:
            w = m.w[m.water]
            if T0 < w._T_crit:
                ps = w.p_sat(T0)
                if ps < p0 * m.y[m.water]:
                    gas[m.water] = (1 - m.y[m.water]) / (p0 / ps - 1)
                    y_liq = m.y[m.water] - gas[m.water]
                    env.assume(y_liq > 1e-5)
        lg = S.sym_log if env.symbolic else __import__('math').log
        want = sum(n * e[f][3] for f, n in gas.items())
        want = want + T0 * gas_constants['uni'] * 1e-3 * sum(n * lg(n / (1 - y_liq)) for n in gas.values())
        if m.water:
            want = want + y_liq * e[m.water][2]
        want = want * m.N                                 # moles in 1 kg
        want = want * 1e3                                 # kJ
        c.get_chemical_exergy(p0, T0, t)
        return [eqs.Eq('specific chemical exergy', c.ex_chemical, want, rel=1e-7, scale=1e6),
                eqs.Eq('chemical exergy', c.Ex_chemical, c.m.val_SI * want, rel=1e-7, scale=1e7)]
    return run


def no_table(o, env):
    d, a = one(env, False)
    c, p0, T0 = stream(env, d, None)
    c.get_chemical_exergy(p0, T0, None)
    return [eqs.Eq('no chemical exergy without a table', c.Ex_chemical, 0)]


def cases(tier):
    out = []
    for f in (True, False):
        t = ', absent species first' if f else ''
        out.append(m01.C('physical exergy of a pure fluid' + t, physical_pure(f)))
        for k, ph in ((1, 'solid'), (2, 'liquid'), (3, 'gas')):
            out.append(m01.C(f'chemical exergy of a pure fluid, {ph}{t}', chemical_pure(f, k)))
    ab = [(('N2', 'H2O'), 'O2', ['O2', 'H2O', 'N2']), (('N2', 'O2'), 'H2O', ['H2O', 'N2', 'O2'])]
    for a in [(n,) for n in m01.SETS] + ab:
        t = ' + '.join(a[0]) + (f' without {a[1]}' if len(a) > 1 else '')
        for rule in ('ideal', 'incompressible', 'ideal-cond'):
            out.append(m01.C(f'physical exergy of {t}, {rule}', physical_mix(rule, *a)))
        out.append(m01.C(f'chemical exergy of {t}', chemical_mix(*a)))
    out.append(m01.C('no table of standard exergies', no_table))
    return out
