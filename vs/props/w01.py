"""W01: a fluid property function returns the property it names at the state
given by its arguments."""
import math

from run import Case

from .. import sym as S
from . import eqs, t01

META = {
    'bounds': 'every property function of the three wrappers of fluid property libraries, all arguments symbolic, after a call of itself and one of any '
              'function with other arguments (symbolic choice); every outcome of the phase query; property functions of pure fluids on any wrapper',
    'assumptions': ['the library returns, for a pair of state variables in its own units, the properties of that state (uninterpreted functions)'],
    'outside': 'accuracy of the libraries; mixtures (M01); numerical derivatives (N01)',
}
RANGE = {'p': (1e3, 1e9), 'T': (200.0, 2000.0), 'h': (1e4, 5e6), 's': (10.0, 2e4), 'Q': (0.0, 1.0)}


def prop(out, **state):
    """Property ``out`` of the state, SI; any function of the two variables."""
    k = sorted(state)
    a = [state[x] for x in k]
    nm = f'lib {out}({",".join(k)})'
    if any(S.is_sym(x) for x in a):
        return S.Sym(S.uf(nm, *[S.lift(x) for x in a]))
    w = [(sum(map(ord, nm)) * (i + 3)) % 97 / 97 for i in range(len(a))]
    return (sum(map(ord, out)) % 13 + 2) * 1e3 + sum(100 * wi * math.log(abs(x) + 1.5) for wi, x in zip(w, a))


class Phase:
    def __init__(self, env):
        self.env, self.n = env, 0

    def pick(self, state, options):
        """The same phase for the same state."""
        k = sorted(state)
        v = prop('phase', **state)
        if not S.is_sym(v):
            return options[int(v * 7) % len(options)]
        for o in options[:-1]:
            v = v - 1
            if v < 0:
                return o
        return options[-1]


# -- libraries
class CoolPropState:
    """AbstractState: outputs follow the last update."""
    PAIR = {'HmassP_INPUTS': 'hp', 'PSmass_INPUTS': 'ps', 'PQ_INPUTS': 'pQ', 'PT_INPUTS': 'pT', 'QT_INPUTS': 'QT', 'HmassT_INPUTS': 'hT',
            'HmassSmass_INPUTS': 'hs', 'SmassT_INPUTS': 'sT', 'DmassP_INPUTS': 'dp', 'DmassT_INPUTS': 'dT'}

    def __init__(self, env):
        import CoolProp as CP
        self.pairs = {getattr(CP, k): v for k, v in self.PAIR.items()}
        self.phases = [CP.iphase_twophase, CP.iphase_liquid, CP.iphase_gas, CP.iphase_supercritical]
        self.ph = Phase(env)
        self.state = None

    def update(self, pair, a, b):
        x, y = self.pairs[pair]
        self.state = {x: a, y: b}

    def T(self):
        return self._get('T')

    def p(self):
        return self._get('p')

    def Q(self):
        return self._get('Q')

    def hmass(self):
        return self._get('h')

    def smass(self):
        return self._get('s')

    def rhomass(self):
        return self._get('d')

    def viscosity(self):
        return self._get('mu')

    def phase(self):
        return self.ph.pick(self.state, self.phases)

    def _get(self, k):
        if k in self.state:
            return self.state[k]
        return prop(k, **self.state)


class IapwsState:
    UNIT = {'P': ('p', 1e6), 'T': ('T', 1.0), 'h': ('h', 1e3), 's': ('s', 1e3), 'x': ('Q', 1.0)}
    OUT = {'T': ('T', 1.0), 'P': ('p', 1e6), 'h': ('h', 1e3), 's': ('s', 1e3), 'x': ('Q', 1.0), 'rho': ('d', 1.0), 'v': ('v', 1.0), 'mu': ('mu', 1.0)}
    PHASES = ['Liquid', 'Vapour', 'Two phases', 'Saturated vapor', 'Saturated liquid', 'Supercritical fluid']

    def __init__(self, env, **kw):
        assert len(kw) == 2
        self.state = {self.UNIT[k][0]: v * self.UNIT[k][1] for k, v in kw.items()}
        self.env = env

    def __getattr__(self, k):
        if k == 'phase':
            return Phase(self.env).pick(self.state, self.PHASES)
        if k not in self.OUT:
            raise AttributeError(k)
        nm, f = self.OUT[k]
        if nm in self.state:
            return self.state[nm] / f
        return prop(nm, **self.state) / f


class PyromatState:
    def __init__(self, env):
        pass

    def __getattr__(self, k):
        if k not in ('T', 'p', 'h', 's', 'd', 'x'):
            raise AttributeError(k)

        def f(**kw):
            assert len(kw) == 2
            st = {'Q' if a == 'x' else a: v for a, v in kw.items()}
            return [prop('Q' if k == 'x' else k, **st)]
        return f


def coolprop(env):
    import CoolProp as CP
    from tespy.tools.fluid_properties.wrappers import CoolPropWrapper
    w = CoolPropWrapper('water')
    return replace(w, CP.AbstractState, CoolPropState(env))


def replace(w, cls, stub):
    n = 0
    for k, v in list(vars(w).items()):
        if isinstance(v, cls):
            setattr(w, k, stub)
            n += 1
    if not n:
        raise S.EncodingError('library object of the wrapper not found')
    return w


def iapws(back_end):
    def f(env):
        import iapws as L
        from tespy.tools.fluid_properties.wrappers import IAPWSWrapper
        w = IAPWSWrapper('H2O', back_end)
        for k, v in list(vars(w).items()):
            if v in (L.IAPWS97, L.IAPWS95):
                if (v is L.IAPWS97) != (back_end == 'IF97'):
                    raise AssertionError('wrong formulation')
                setattr(w, k, lambda **kw: IapwsState(env, **kw))
                return w
        raise S.EncodingError('library object of the wrapper not found')
    return f


def pyromat(back_end, fluid):
    def f(env):
        from tespy.tools.fluid_properties.wrappers import PyromatWrapper
        w = PyromatWrapper(fluid, back_end)
        return replace(w, object if False else type(w.AS), PyromatState(env))
    return f


# -- what the functions mean
MEANING = {
    'T_ph': ('T', 'ph'), 'T_ps': ('T', 'ps'), 'h_pQ': ('h', 'pQ'), 'h_ps': ('h', 'ps'), 'h_pT': ('h', 'pT'), 'h_QT': ('h', 'QT'),
    's_QT': ('s', 'QT'), 'd_ph': ('d', 'ph'), 'd_pT': ('d', 'pT'), 'd_QT': ('d', 'QT'), 'viscosity_ph': ('mu', 'ph'), 'viscosity_pT': ('mu', 'pT'),
    's_ph': ('s', 'ph'), 's_pT': ('s', 'pT'),
}
OTHER = {'T_sat': 'p', 'T_boiling': 'p', 'p_sat': 'T', 'p_boiling': 'T', 'Q_ph': 'ph', 'phase_ph': 'ph', 'isentropic': 'php'}
CONST = {'water': dict(p=22.064e6, T=647.096)}


def args(env, names, tag):
    return [env.var(f'{tag} {n}{i if names.count(n) > 1 else ""}', *RANGE[n]) for i, n in enumerate(names)]


def expected(name, a, w, lib):
    """Value or list of admissible (condition, value)."""
    if name in MEANING:
        out, st = MEANING[name]
        return prop(out, **dict(zip(st, a)))
    if name == 'isentropic':
        p1, h1, p2 = a
        return prop('h', p=p2, s=prop('s', p=p1, h=h1))
    if name in ('T_sat', 'T_boiling'):
        return prop('T', p=sub(a[0], w, 'p'), Q=0 if name == 'T_sat' else 1)
    if name in ('p_sat', 'p_boiling'):
        return prop('p', T=sub(a[0], w, 'T'), Q=0 if name == 'p_sat' else 1)
    p = sub(a[0], w, 'p')
    return dict(p=p, h=a[1])


def sub(x, w, k):
    """Above the critical point: 99 % of the critical value."""
    c = getattr(w, f'_{k}_crit', None)
    if c is None:
        return x
    return c * 0.99 if x > c else x


def check(name, got, a, w, env, lib, out):
    e = expected(name, a, w, lib)
    if name == 'Q_ph':
        if lib == 'CoolProp':
            import CoolProp as CP
            ph = Phase(env).pick(e, CoolPropState(env).phases)
            want = {CP.iphase_twophase: prop('Q', **e), CP.iphase_liquid: 0, CP.iphase_gas: 1}.get(ph, -1)
        else:
            want = prop('Q', **e)
        out.append(eqs.Eq(name, got, want))
    elif name == 'phase_ph':
        if lib == 'CoolProp':
            import CoolProp as CP
            ph = Phase(env).pick(e, CoolPropState(env).phases)
            want = {CP.iphase_twophase: 'tp', CP.iphase_liquid: 'l', CP.iphase_gas: 'g'}.get(ph)
        else:
            ph = Phase(env).pick(e, IapwsState.PHASES)
            want = {'Liquid': 'l', 'Vapour': 'g', 'Supercritical fluid': None}.get(ph, 'tp')
        ok = got == want if want else got not in ('l', 'g', 'tp')
        out.append(eqs.Holds(f'{name} for {ph}', ok, f'{got}'))
    else:
        out.append(eqs.Eq(name, got, e))


# functions a library does not provide (everything else has to be offered)
MAY_LACK = {
    'CoolProp': ('T_boiling', 'p_boiling'), 'iapws': ('T_boiling', 'p_boiling'),
    'pyromat ig': ('h_pQ', 'h_QT', 's_QT', 'd_QT', 'viscosity_ph', 'viscosity_pT', 's_pT', 'T_sat', 'T_boiling', 'p_sat', 'p_boiling', 'Q_ph',
                   'phase_ph'),
    'pyromat mp': ('h_pQ', 'viscosity_ph', 'viscosity_pT', 'T_sat', 'p_sat', 'phase_ph')}


def w_kind(lib, w):
    return f'pyromat {w.back_end}' if lib == 'pyromat' else lib


def wrapper(make, lib, name):
    def run(_, env):
        w = make(env)
        f = getattr(w, name, None)
        if f is None:
            return [eqs.Holds(f'{name} may be left out', name in MAY_LACK[w_kind(lib, w)])]
        st = MEANING[name][1] if name in MEANING else OTHER[name]
        # an earlier call of any function
        earlier = [n for n in list(MEANING) + list(OTHER) if hasattr(w, n)]
        if name in ('Q_ph', 'phase_ph'):                   # number of paths: outcomes of the phase query
            earlier = [n for n in earlier if n in ('T_ph', 'h_pT', 'T_sat', 'd_ph', 's_QT') or n == name and lib != 'iapws']
        n = earlier[t01.choose(env, 'earlier call', len(earlier))]
        try:                                               # the function itself before that
            f(*args(env, st, 'first'))
        except NotImplementedError:
            pass
        try:
            getattr(w, n)(*args(env, MEANING[n][1] if n in MEANING else OTHER[n], 'earlier'))
        except NotImplementedError:
            pass
        a = args(env, st, 'argument')
        try:
            got = f(*a)
        except NotImplementedError:
            return [eqs.Holds(f'{name} may be left out', name in MAY_LACK[w_kind(lib, w)])]
        out = []
        check(name, got, a, w, env, lib, out)
        return out
    return dict(run=run)


def constants(make, fluid, need):
    """Limits and molar mass in SI units (data of CoolProp)."""
    def run(_, env):
        import CoolProp.CoolProp as CP
        w = make(env)
        out = []
        for k, c, tol in (('_molar_mass', 'M', 1e-3), ('_p_crit', 'PCRIT', 1e-2), ('_T_crit', 'TCRIT', 1e-2)):
            if hasattr(w, k):
                v, r = float(getattr(w, k)), CP.PropsSI(c, fluid)
                out.append(eqs.Holds(f'{k} in SI units', abs(v - r) <= tol * r, f'{v} / {r}'))
        for k in ('_molar_mass', '_T_min', '_T_max', '_p_min', '_p_max', '_T_crit', '_p_crit'):
            if k in need:
                out.append(eqs.Holds(f'{k} is available', hasattr(w, k)))
        if hasattr(w, '_T_min') and hasattr(w, '_T_max'):
            out.append(eqs.Holds('temperature limits in Kelvin', 10 < float(w._T_min) < 300 and 400 < float(w._T_max) < 1e4))
        if hasattr(w, '_p_min') and hasattr(w, '_p_max'):
            out.append(eqs.Holds('pressure limits in Pascal', 0 < float(w._p_min) < 2e4 and 5e6 < float(w._p_max) < 1e11))
        if hasattr(w, '_T_crit'):
            T, p = env.var('T', *RANGE['T']), env.var('p', *RANGE['p'])
            if hasattr(w, '_is_below_T_critical'):
                out.append(eqs.Holds('below critical temperature', bool(w._is_below_T_critical(T)) == bool(T < w._T_crit)))
            q = w._make_p_subcritical(p)
            out.append(eqs.Holds('pressure below the critical one', S.as_b(q <= w._p_crit) if S.is_sym(q) else q <= w._p_crit))
        return out
    return dict(run=run)


NEED = {'CoolProp': ('_molar_mass', '_T_min', '_T_max', '_p_min', '_p_max', '_T_crit', '_p_crit'),
        'iapws': ('_molar_mass', '_T_min', '_T_max', '_p_min', '_p_max', '_T_crit', '_p_crit'),
        'pyromat': ('_molar_mass', '_T_min', '_T_max', '_p_min', '_p_max')}


def solution(_, env):
    """The concentration in the name of a solution."""
    import CoolProp.CoolProp as CP
    from tespy.tools.fluid_properties.wrappers import CoolPropWrapper
    out = []
    for name, x in (('MEG', '0.2'), ('MEG', '0.45'), ('LiBr', '0.3')):
        w = CoolPropWrapper(f'{name}[{x}]', 'INCOMP')
        for nm, got, want in (('h', w.h_pT(1e5, 310.0), 'H'), ('s', w.s_pT(1e5, 310.0), 'S'), ('d', w.d_pT(1e5, 310.0), 'D')):
            r = CP.PropsSI(want, 'P', 1e5, 'T', 310.0, f'INCOMP::{name}[{x}]')
            out.append(eqs.Holds(f'{nm} of {name} with a fraction of {x}', abs(got - r) <= 1e-9 * abs(r), f'{got} / {r}'))
    return out


# -- functions of pure fluids
class AnyWrapper:
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        def f(*a):
            nm = f'wrapper {k}'
            if any(S.is_sym(x) for x in a):
                return S.Sym(S.uf(nm, *[S.lift(x) for x in a]))
            return prop(k, **{f'a{i}': x for i, x in enumerate(a)}) 
        return f


PURE = {'T_mix_ph': ('T_ph', 'ph'), 'h_mix_pT': ('h_pT', 'pT'), 'h_mix_pQ': ('h_pQ', 'pQ'), 'Q_mix_ph': ('Q_ph', 'ph'), 'p_sat_T': ('p_sat', 'T'),
        'T_sat_p': ('T_sat', 'p'), 's_mix_ph': ('s_ph', 'ph'), 's_mix_pT': ('s_pT', 'pT'), 'T_mix_ps': ('T_ps', 'ps'), 'v_mix_ph': ('d_ph', 'ph'),
        'v_mix_pT': ('d_pT', 'pT'), 'viscosity_mix_ph': ('viscosity_ph', 'ph'), 'viscosity_mix_pT': ('viscosity_pT', 'pT'), 'phase_mix_ph': ('phase_ph', 'ph'),
        'isentropic': ('isentropic', 'php')}


def pure(name):
    def run(_, env):
        from tespy.tools.fluid_properties import functions as F
        w, other = AnyWrapper(), AnyWrapper()
        other.bad = True
        data = {}
        first = env.var('order', 0, 1) < 0.5
        trace = env.var('trace', 0.0, 1e-9) if first else 0.0
        if first:
            data['b'] = {'wrapper': None, 'mass_fraction': trace}
        data['a'] = {'wrapper': w, 'mass_fraction': 1.0}
        if not first:
            data['c'] = {'wrapper': None, 'mass_fraction': 0.0}
        fn, st = PURE[name]
        a = args(env, st, 'argument')
        kw = {}
        rule = ('ideal', 'ideal-cond', 'incompressible', None)[t01.choose(env, 'mixing rule', 4)]
        got = getattr(F, name)(*a, data, mixing_rule=rule)
        want = getattr(w, fn)(*a)
        return [eqs.Eq(name, got, 1 / want if fn.startswith('d_') else want)]
    return dict(run=run)


def C(nm, kw):
    return Case(nm, lambda: eqs.case(nm, max_paths=3000, budget=100, vacuity=False, **kw), limit=200)


def cases(tier):
    out = []
    LIBS = {'CoolProp': (coolprop, 'CoolProp', 'water')}
    for b in ('IF97', 'IF95'):
        LIBS[f'iapws {b}'] = (iapws(b), 'iapws', 'water')
    LIBS['pyromat ideal gas'] = (pyromat('ig', 'N2'), 'pyromat', 'N2')
    LIBS['pyromat multi-phase'] = (pyromat('mp', 'H2O'), 'pyromat', 'water')
    for l, (mk, lib, fl) in LIBS.items():
        for n in list(MEANING) + list(OTHER):
            out.append(C(f'{l}: {n}', wrapper(mk, lib, n)))
        out.append(C(f'{l}: constants', constants(mk, fl, NEED[lib])))
    out.append(C('solutions', dict(run=solution)))
    for n in PURE:
        out.append(C(f'pure fluid: {n}', pure(n)))
    return out
