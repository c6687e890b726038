"""M01: properties of mixtures follow the mixing rule."""
import itertools

from run import Case

from .. import fluids
from .. import net
from .. import sym as S
from . import eqs, r02

META = {
    'bounds': 'mixtures of two and three species (mass fractions symbolic in [0.02, 0.96], sum one, molar masses symbolic in [0.002, 0.2]), with and '
              'without water (as H2O or water), with an additional absent species, single species; p, T, h symbolic',
    'assumptions': ['properties of the species are uninterpreted functions (any fluid)',
                    'inverse temperature functions of mixtures exact (N02)'],
    'outside': 'species with traces (mass fraction or condensate between 0 and 1e-5); viscosity of partially condensed mixtures',
}
P, T = (1e4, 1e7), (250.0, 900.0)
SETS = [('N2', 'O2'), ('N2', 'O2', 'CO2'), ('N2', 'H2O'), ('water', 'N2', 'O2'), ('O2', 'N2', 'H2O')]
WATER = ('H2O', 'water')


class Mix:
    def __init__(self, env, names, absent=None, order=None, molar_mass=True):
        cls = fluids.StubFluid()
        xs, rest = {}, 1
        for f in names[:-1]:
            xs[f] = env.var('x ' + f, 0.02, 0.96)
            rest = rest - xs[f]
        xs[names[-1]] = rest
        env.assume(rest >= 0.02)
        self.x = dict(xs)
        if absent:
            xs[absent] = 0.0
        self.w = {}
        self.data = {}
        for f in (order or list(xs)):
            w = cls(f)
            if molar_mass:
                w._molar_mass = env.var('M ' + f, 0.002, 0.2)
            self.w[f] = w
            self.data[f] = {'wrapper': w, 'mass_fraction': xs[f]}
        self.n = {f: x / self.w[f]._molar_mass for f, x in self.x.items()}
        self.N = sum(self.n.values())
        self.y = {f: n / self.N for f, n in self.n.items()}
        self.water = next((f for f in names if f in WATER), None)


def ideal(m, prop, p, T):
    if prop == 'v':
        return 1 / sum(m.w[f].d_pT(p * m.y[f], T) for f in m.x)
    if prop == 'viscosity':
        sq = S.sym_sqrt if any(S.is_sym(w._molar_mass) for w in m.w.values()) else (lambda v: v ** 0.5)
        b = {f: m.y[f] * sq(m.w[f]._molar_mass) for f in m.x}
        return sum(b[f] * m.w[f].viscosity_pT(p, T) for f in m.x) / sum(b.values())
    return sum(m.x[f] * getattr(m.w[f], prop + '_pT')(p * m.y[f], T) for f in m.x)


def incompressible(m, prop, p, T):
    if prop == 'v':
        return sum(m.x[f] / m.w[f].d_pT(p, T) for f in m.x)
    return sum(m.x[f] * getattr(m.w[f], prop + '_pT')(p, T) for f in m.x)


def cond(m, prop, p, T, env):
    """Water condenses until its partial pressure is the saturation pressure."""
    if prop == 'viscosity' or m.water is None:
        return ideal(m, prop, p, T)
    w = m.w[m.water]
    if not T < w._T_crit:
        return ideal(m, prop, p, T)
    ps = w.p_sat(T)
    if not ps < p * m.y[m.water]:
        return ideal(m, prop, p, T)
    dry = sum(n for f, n in m.n.items() if f != m.water)
    n_g = dry * ps / (p - ps)                     # water in the gas per kg of mixture
    gas = n_g * w._molar_mass
    liq = m.x[m.water] - gas
    env.assume(liq > 1e-5)
    y = {f: n / (dry + n_g) for f, n in m.n.items() if f != m.water}
    if prop == 'v':
        d = w.d_QT(1, T) + sum(m.w[f].d_pT(p * y[f], T) for f in y)
        return liq / w.d_QT(0, T) + (1 - liq) / d
    g = getattr(w, prop + '_QT')
    return liq * g(0, T) + gas * g(1, T) + sum(m.x[f] * getattr(m.w[f], prop + '_pT')(p * y[f], T) for f in y)


def forced(m, prop, p, T):
    r = 0
    for f in m.x:
        w, pp = m.w[f], p * m.y[f]
        if f == m.water and pp >= w._p_min and T <= w.T_sat(pp):
            r = r + m.x[f] * w.h_QT(1, T)
        else:
            r = r + m.x[f] * w.h_pT(pp, T)
    return r


FN = {'h': 'h_mix_pT', 's': 's_mix_pT', 'v': 'v_mix_pT', 'viscosity': 'viscosity_mix_pT'}


def direct(rule, prop, names, absent=None, order=None):
    def run(o, env):
        from tespy.tools.fluid_properties import functions as F
        m = Mix(env, names, absent, order)
        p, t = env.var('p', *P), env.var('T', *T)
        e = {'ideal': ideal, 'incompressible': incompressible, 'forced-gas': forced}.get(rule)
        e = e(m, prop, p, t) if e else cond(m, prop, p, t, env)
        before = {f: d['mass_fraction'] for f, d in m.data.items()}
        r = getattr(F, FN[prop])(p, t, m.data, rule)
        out = [eqs.Eq(f'{prop} of the mixture', r, e, rel=1e-7)]
        for f, x in before.items():
            out.append(eqs.Eq(f'composition data of {f} unchanged', m.data[f]['mass_fraction'], x))
        return out
    return run


def pure(prop, args, first):
    """One species present, another one absent."""
    def run(o, env):
        from tespy.tools.fluid_properties import functions as F
        cls = fluids.StubFluid()
        a, b = cls('N2'), cls('O2')
        d = [('O2', {'wrapper': b, 'mass_fraction': 0.0}), ('N2', {'wrapper': a, 'mass_fraction': 1.0})]
        d = dict(d if first else d[::-1])
        rg = {'p': P, 'T': T, 'h': net.H_RANGE, 'Q': (0.0, 1.0), 's': (100.0, 1e4), 'p2': P}
        x = [env.var(k, *rg[k]) for k in args]
        fn, ref = prop
        want = ref(a, *x)
        out = []
        for rule in ('ideal', 'ideal-cond', 'incompressible', None):
            r = getattr(F, fn)(*x, d) if rule is None else getattr(F, fn)(*x, d, rule)
            out.append(eqs.Eq(f'{fn}, mixing rule {rule}', r, want))
        return out
    return run


PURE = [
    (('T_mix_ph', lambda w, p, h: w.T_ph(p, h)), ('p', 'h')),
    (('h_mix_pT', lambda w, p, T: w.h_pT(p, T)), ('p', 'T')),
    (('s_mix_ph', lambda w, p, h: w.s_ph(p, h)), ('p', 'h')),
    (('s_mix_pT', lambda w, p, T: w.s_pT(p, T)), ('p', 'T')),
    (('v_mix_ph', lambda w, p, h: 1 / w.d_ph(p, h)), ('p', 'h')),
    (('v_mix_pT', lambda w, p, T: 1 / w.d_pT(p, T)), ('p', 'T')),
    (('viscosity_mix_ph', lambda w, p, h: w.viscosity_ph(p, h)), ('p', 'h')),
    (('viscosity_mix_pT', lambda w, p, T: w.viscosity_pT(p, T)), ('p', 'T')),
    (('T_mix_ps', lambda w, p, s: w.T_ps(p, s)), ('p', 's')),
    (('h_mix_pQ', lambda w, p, Q: w.h_pQ(p, Q)), ('p', 'Q')),
    (('Q_mix_ph', lambda w, p, h: w.Q_ph(p, h)), ('p', 'h')),
    (('T_sat_p', lambda w, p: w.T_sat(p)), ('p',)),
    (('p_sat_T', lambda w, T: w.p_sat(T)), ('T',)),
    (('isentropic', lambda w, p, h, q: w.h_ps(q, w.s_ph(p, h))), ('p', 'h', 'p2')),
]


def ph(rule, names):
    """Properties as function of p and h are those at the temperature whose
    enthalpy is h; the isentropic state has the entropy of the inlet."""
    def run(o, env):
        from tespy.tools.fluid_properties import functions as F
        m = Mix(env, names)
        p, h, p2 = env.var('p', *P), env.var('h', *net.H_RANGE), env.var('p2', *P)
        a = (m.data, rule)
        t = F.T_mix_ph(p, h, *a)
        s = F.s_mix_ph(p, h, *a)
        out = [eqs.Eq('enthalpy of the temperature', F.h_mix_pT(p, t, *a), h, rel=1e-5, scale=1e3),
               eqs.Eq('entropy', s, F.s_mix_pT(p, t, *a), rel=1e-5, scale=1e2),
               eqs.Eq('volume', F.v_mix_ph(p, h, *a), F.v_mix_pT(p, t, *a), rel=1e-5),
               eqs.Eq('viscosity', F.viscosity_mix_ph(p, h, *a), F.viscosity_mix_pT(p, t, *a), rel=1e-5),
               eqs.Eq('entropy of the isentropic state', F.s_mix_ph(p2, F.isentropic(p, h, p2, *a), *a), s, rel=1e-4, scale=1e2)]
        return out
    return run


def saturation(o, env):
    """Saturation functions refuse mixtures."""
    from tespy.tools.fluid_properties import functions as F
    m = Mix(env, ('N2', 'O2'))
    p, t = env.var('p', *P), env.var('T', *T)
    out = []
    for fn, args in (('h_mix_pQ', (p, 0.5)), ('Q_mix_ph', (p, 1e5)), ('T_sat_p', (p,)), ('p_sat_T', (t,)), ('phase_mix_ph', (p, 1e5))):
        try:
            getattr(F, fn)(*args, m.data)
            ok = False
        except ValueError:
            ok = True
        out.append(eqs.Holds(f'{fn} refuses a mixture', ok))
    for fn, args in (('h_mix_pT', (p, t)), ('s_mix_pT', (p, t)), ('v_mix_pT', (p, t)), ('T_mix_ph', (p, 1e5)), ('T_mix_ps', (p, 1e3))):
        try:
            getattr(F, fn)(*args, m.data, 'no such rule')
            ok = False
        except KeyError:
            ok = True
        out.append(eqs.Holds(f'{fn} refuses an unknown mixing rule', ok))
    return out


def memo_stubs():
    """Temperature inversions are inverse functions of the property."""
    from tespy.tools.fluid_properties import functions as F
    from tespy.tools.fluid_properties import helpers as FH
    from .. import contracts
    st = contracts.finite_difference_stubs()
    memo = {}

    def comp(fd):
        return tuple(sorted((k, S.lift(v['mass_fraction']).id) for k, v in fd.items()))

    def wrap(kind, orig):
        def g(p, T, fluid_data, mixing_rule=None):
            if S.is_sym(T) and T.e.op == 'uf' and T.e.args[0].startswith(f'Tinv_{kind}@{mixing_rule}@') and T.e.args[1] is S.lift(p):
                return S.wrap(T.e.args[2])
            r = orig(p, T, fluid_data, mixing_rule)
            if S.is_sym(r) and len(fluid_data) > 1:
                memo[kind, mixing_rule, S.lift(p).id, S.lift(r).id, comp(fluid_data)] = T
            return r
        return g

    def rule_of(f):
        for kind, d in (('h', F.T_MIX_PH_REVERSE), ('s', F.T_MIX_PS_REVERSE)):
            for k, v in d.items():
                if v is f:
                    return kind, k
        raise S.EncodingError('unknown inverse function')

    def inverse(p=None, target_value=None, fluid_data=None, T0=None, f=None):
        kind, rule = rule_of(f)
        k = kind, rule, S.lift(p).id, S.lift(target_value).id, comp(fluid_data)
        if k in memo:
            return memo[k]
        fl = sorted(fluid_data)
        return S.Sym(S.uf(f'Tinv_{kind}@{rule}@' + '+'.join(fl), S.lift(p), S.lift(target_value),
                          *[S.lift(fluid_data[x]['mass_fraction']) for x in fl]))
    drop = (FH.inverse_temperature_mixture, F.h_mix_pT, F.s_mix_pT)
    st = [(o, n) for o, n in st if not any(o is d for d in drop)]
    return st + [(FH.inverse_temperature_mixture, inverse), (F.h_mix_pT, wrap('h', F.h_mix_pT)), (F.s_mix_pT, wrap('s', F.s_mix_pT))]


def C(nm, run, stubs=lambda: [], **kw):
    return Case(nm, lambda: eqs.case(nm, run, stubs=stubs, cross=1, vacuity=True, **kw), limit=100)


def cases(tier):
    out = []
    for names in SETS:
        t = ' + '.join(names)
        for prop in FN:
            for rule in ('ideal', 'incompressible', 'ideal-cond'):
                out.append(C(f'{prop} of {t}, {rule}', direct(rule, prop, names)))
        out.append(C(f'h of {t}, forced-gas', direct('forced-gas', 'h', names)))
        for rule in ('ideal', 'incompressible', 'ideal-cond'):
            out.append(C(f'p, h functions of {t}, {rule}', ph(rule, names), memo_stubs))
    for prop in FN:
        for rule in ('ideal', 'incompressible', 'ideal-cond'):
            out.append(C(f'{prop}, {rule}, with absent species', direct(
                rule, prop, ('N2', 'H2O'), 'O2', ['O2', 'H2O', 'N2'])))
            out.append(C(f'{prop}, {rule}, without water', direct(rule, prop, ('N2', 'O2'), 'H2O', ['H2O', 'N2', 'O2'])))
    for pr, args in PURE:
        for first in (True, False):
            out.append(C(f'{pr[0]} of one species{", absent one first" if first else ""}', pure(pr, args, first)))
    out.append(C('saturation of mixtures', saturation))
    return out
