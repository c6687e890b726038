"""R02: a specified connection property is the reported result."""
from run import Case

from .. import net
from .. import pipe
from .. import sym as S
from . import eqs

META = {
    'bounds': 'networks of two or four connections with one to three specified properties on a connection (every kind and '
              'every combination the state allows), reference objects, pure fluid and mixture; every unit of every property; '
              'user values symbolic over the range corresponding to '
              f'm {net.M_RANGE}, p {net.P_RANGE}, h {net.H_RANGE}; every feasible path of the real Network.solve',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties uninterpreted, with the inverse laws '
                    'T(p, h(p, T)) = T, Q(p, h(p, Q)) = Q, T(p, h(p, Q)) = T_sat(p), T_sat(p_sat(T)) = T',
                    'temperature inversion of mixtures exact (N02)'],
    'outside': 'the Newton iteration itself (V02)',
}
SI = {  # independent definitions: unit -> (offset, factor), SI = (value + offset) * factor
    'm': {'kg / s': (0, 1), 'kg / min': (0, 1 / 60), 'kg / h': (0, 1 / 3600), 't / h': (0, 1000 / 3600), 'g / s': (0, 1e-3)},
    'v': {'m3 / s': (0, 1), 'm3 / min': (0, 1 / 60), 'm3 / h': (0, 1 / 3600), 'l / s': (0, 1e-3), 'l / min': (0, 1e-3 / 60),
          'l / h': (0, 1e-3 / 3600)},
    'p': {'Pa': (0, 1), 'kPa': (0, 1e3), 'psi': (0, 6894.757293168), 'bar': (0, 1e5), 'atm': (0, 101325), 'MPa': (0, 1e6)},
    'h': {'J / kg': (0, 1), 'kJ / kg': (0, 1e3), 'MJ / kg': (0, 1e6), 'cal / kg': (0, 4.184), 'kcal / kg': (0, 4184),
          'Wh / kg': (0, 3600), 'kWh / kg': (0, 3.6e6)},
    'T': {'K': (0, 1), 'R': (0, 5 / 9), 'C': (273.15, 1), 'F': (459.67, 5 / 9)},
    'Td_bp': {'K': (0, 1), 'R': (0, 5 / 9), 'C': (0, 1), 'F': (0, 5 / 9)},
    'vol': {'m3 / kg': (0, 1), 'l / kg': (0, 1e-3)},
    'x': {'-': (0, 1), '%': (0, 1e-2), 'ppm': (0, 1e-6)},
    's': {'J / kgK': (0, 1), 'kJ / kgK': (0, 1e3), 'MJ / kgK': (0, 1e6)},
}
RANGE = {'m': net.M_RANGE, 'p': net.P_RANGE, 'h': net.H_RANGE, 'T': (260.0, 1500.0), 'x': (0.0, 1.0), 'Td_bp': (-80.0, 80.0),
         'v': (1e-3, 1e3)}


def user(prop, si, unit):
    o, f = SI[prop][unit]
    return si / f - o


def urange(prop, unit):
    lo, hi = RANGE[prop]
    return user(prop, lo, unit), user(prop, hi, unit)


def to_si(prop, v, unit):
    o, f = SI[prop][unit]
    return (v + o) * f


def build(env, units, fluid, mixing, two=False):
    """source -> sink (twice, if two)."""
    from tespy.components import Sink, Source
    from tespy.connections import Connection
    from .. import fluids
    nw = net.new_network(**{f'{k}_unit': u for k, u in units.items() if k != 'Td_bp'})
    eng = fluids.TwoPhaseFluid()
    cs = [Connection(Source('so' + k), 'out1', Sink('si' + k), 'in1', label=k) for k in 'ab'[:2 if two else 1]]
    if len(fluid) > 1:
        fluid = dict(fluid)
        a, b = fluid
        fluid[a] = env.var('fraction ' + a, *net.X_RANGE)
        fluid[b] = 1 - fluid[a]
    for c in cs:
        c.spec_fluid = dict(fluid)
        c.set_attr(fluid=fluid, fluid_engines={f: eng for f in fluid}, mixing_rule=mixing)
    nw.add_conns(*cs)
    return nw, cs


def reported(nw, label, prop):
    return nw.results['Connection'].loc[label, prop]


WATER = {'water': 1.0}
MIX = {'N2': 0.7, 'O2': 0.3}
DEFAULT = {'m': 'kg / s', 'v': 'm3 / s', 'p': 'Pa', 'h': 'J / kg', 'T': 'K', 'vol': 'm3 / kg', 'x': '-', 's': 'J / kgK'}
OTHER = {'m': 't / h', 'v': 'l / s', 'p': 'bar', 'h': 'kJ / kg', 'T': 'C', 'vol': 'l / kg', 'x': '%', 's': 'kJ / kgK'}
ODD = {'m': 'kg / min', 'v': 'm3 / h', 'p': 'MPa', 'h': 'kcal / kg', 'T': 'F', 'vol': 'm3 / kg', 'x': '-', 's': 'J / kgK'}


PAIRS = [('p', 'h'), ('p', 'T'), ('p', 'x'), ('p', 'Td_bp'), ('h', 'T'), ('h', 'x'), ('T', 'x'), ('h', 'Td_bp'), ('T', 'Td_bp')]
MPAIRS = [('p', 'h'), ('p', 'T'), ('h', 'T')]


def is_num(v):
    return S.is_sym(v) or v == v


def memo_stubs():
    """The mixture temperature is the inverse of the mixture enthalpy."""
    from tespy.tools.fluid_properties import functions as F
    from tespy.tools.fluid_properties import helpers as FH
    from .. import contracts
    st = contracts.finite_difference_stubs()
    memo = {}
    orig = F.h_mix_pT

    def comp(fd):
        return tuple(sorted((k, S.lift(v['mass_fraction']).id) for k, v in fd.items()))

    def h_mix_pT(p, T, fluid_data, mixing_rule=None):
        r = orig(p, T, fluid_data, mixing_rule)
        if S.is_sym(r) and len(fluid_data) > 1:
            if S.is_sym(T) and T.e.op == 'uf' and T.e.args[0].startswith('Tinv_h') and T.e.args[1] is S.lift(p):
                return S.wrap(T.e.args[2])
            memo[S.lift(p).id, S.lift(r).id, comp(fluid_data)] = T
        return r

    def inverse(p=None, target_value=None, fluid_data=None, T0=None, f=None):
        k = S.lift(p).id, S.lift(target_value).id, comp(fluid_data)
        if k in memo:
            return memo[k]
        return contracts.inverse_stub(p, target_value, fluid_data, T0, f)
    st = [(o, n) for o, n in st if o is not FH.inverse_temperature_mixture]
    return st + [(FH.inverse_temperature_mixture, inverse), (orig, h_mix_pT)]


def definitions(nw, c, u):
    """Reported figures of a connection against their definitions."""
    out = []
    rep = {p: reported(nw, c.label, p) for p in SI}
    si = {p: to_si(p, v, u[p]) for p, v in rep.items() if is_num(v)}
    for p in ('m', 'p', 'h', 'T', 'v', 'vol', 's', 'x', 'Td_bp'):
        if p in si:
            out.append(eqs.Close(f'SI value of {p} in {u[p]}', si[p], c.get_attr(p).val_SI))
        out.append(eqs.Eq(f'unit of {p}', reported(nw, c.label, p + '_unit'), u[p]))
    for f, x in c.spec_fluid.items():
        out.append(eqs.Eq(f'fraction of {f}', reported(nw, c.label, f), x))
    p, h, m = c.p.val_SI, c.h.val_SI, c.m.val_SI
    if len(c.fluid.val) == 1:
        w = list(c.fluid.wrapper.values())[0]
        ref = {'T': w.T_ph(p, h), 'vol': 1 / w.d_ph(p, h), 'v': m / w.d_ph(p, h), 's': w.s_ph(p, h)}
        if is_num(rep['x']):
            out.append(eqs.Eq('definition of x', w.h_pQ(p, c.x.val_SI), h, scale=1.0, rel=1e-4))
        q = w.Q_ph(p, h)
        ph = reported(nw, c.label, 'phase')
        out.append(eqs.Holds('phase', {'l': q <= 0, 'g': q >= 1}.get(ph, S.and_(S.as_b(q >= 0), S.as_b(q <= 1)) if S.is_sym(q)
                                                                   else 0 <= q <= 1)))
        ref['Td_bp'] = w.T_ph(p, h) - w.T_sat(p)
    else:
        ref = {'v': c.vol.val_SI * m}
    for k in ('T', 'vol', 'v', 's') + (('Td_bp', 'x') if len(c.fluid.val) == 1 else ()):
        out.append(eqs.Holds(f'{k} reported', is_num(rep[k]), f'{rep[k]}'))
    for k, v in ref.items():
        if k in si:
            out.append(eqs.Eq(f'definition of {k}', c.get_attr(k).val_SI, v, scale=1.0, rel=1e-4))
    return out


def state(env, u, props, tag):
    v = {p: env.var(f'{tag} {p}', *urange(p, u[p])) for p in props}
    if 'Td_bp' in v and env.symbolic:
        env.assume(S.or_(S.as_b(v['Td_bp'] > 1e-3), S.as_b(v['Td_bp'] < -1e-3)))
    return v


def spec_case(nm, props, units, fluid=WATER, mixing=None, limit=150):
    """Specify ``props`` at the outlet; every reported value is the specified
    one and the reported figures are consistent in the chosen units."""
    def run(o, env):
        u = dict(units, Td_bp=units['T'])
        nw, cs = build(env, units, fluid, mixing)
        c = cs[0]
        with pipe.tables(env):
            spec = state(env, u, props, 'spec')
            c.set_attr(**spec)
            pipe.solve(nw, env)
        out = [eqs.Eq(f'reported {p}', reported(nw, 'a', p), spec[p], scale=1.0) for p in props]
        return out + definitions(nw, c, u)
    return Case(nm, lambda: eqs.case(nm, run, cross=1, vacuity=True, stubs=memo_stubs), limit=limit)


def ref_case(nm, prop, units, fluid=WATER, mixing=None, limit=150):
    """Reference object: value = factor * referenced value + difference."""
    def run(o, env):
        from tespy.connections import Ref
        u = dict(units, Td_bp=units['T'])
        nw, cs = build(env, units, fluid, mixing, two=True)
        with pipe.tables(env):
            cs[0].set_attr(**state(env, u, ('m', 'p', 'h'), 'a'))
            rest = {'m': ('p', 'h'), 'v': ('p', 'h'), 'p': ('m', 'h'), 'h': ('m', 'p'), 'T': ('m', 'p')}[prop]
            cs[1].set_attr(**state(env, u, rest, 'b'))
            f, d = env.var('factor', 0.1, 10.0), env.var('delta', -100.0, 100.0)
            cs[1].set_attr(**{prop: Ref(cs[0], f, d)})
            pipe.solve(nw, env)
        a, b = reported(nw, 'a', prop), reported(nw, 'b', prop)
        off = SI[prop][u[prop]][0]
        return [eqs.Eq(f'{prop} = factor * reference + difference', b + off, f * (a + off) + d, scale=abs(a * f) if not S.is_sym(a) else 0,
                       rel=1e-5)] + definitions(nw, cs[1], u)
    return Case(nm, lambda: eqs.case(nm, run, cross=1, vacuity=True, stubs=memo_stubs), limit=limit)


PURE_ONLY = ('x', 'Td_bp', 'phase')


def none(v):
    return not S.is_sym(v) and v != v


def mixed_case(nm, props, again, limit=150):
    """A calculation with a pure fluid, then one with a mixture: figures of
    pure fluids are not reported any more (and are again for a pure fluid)."""
    def run(o, env):
        u = dict(OTHER, Td_bp=OTHER['T'])
        nw, cs = build(env, OTHER, MIX, 'ideal')
        c = cs[0]
        with pipe.tables(env):
            first = {'N2': 1.0, 'O2': 0.0}
            c.set_attr(fluid=first)
            c.set_attr(**state(env, u, props, 'first'))
            pipe.solve(nw, env, tag='first ')
            c.set_attr(**{p: None for p in props})
            c.set_attr(fluid=c.spec_fluid)
            c.set_attr(**state(env, u, again, 'second'))
            pipe.solve(nw, env, tag='second ')
        out = [eqs.Holds(f'no {p} of a mixture', none(reported(nw, 'a', p)), f'{reported(nw, "a", p)}') for p in PURE_ONLY]
        return out + definitions(nw, c, u)
    return Case(nm, lambda: eqs.case(nm, run, cross=1, vacuity=True, stubs=memo_stubs), limit=limit)


def missing_case(nm, missing, props=('m', 'p', 'h'), limit=150):
    """Two calculations; in the second the property functions named have no
    value (ValueError): exactly the figures using them are not a number."""
    USES = {'T_sat': ('Td_bp',), 'Q_ph': ('x',), 'phase_ph': ('phase',)}

    def run(o, env):
        u = dict(OTHER, Td_bp=OTHER['T'])
        nw, cs = build(env, OTHER, WATER, None)
        c = cs[0]
        with pipe.tables(env):
            c.set_attr(**state(env, u, props, 'first'))
            pipe.solve(nw, env, tag='first ')
            c.set_attr(**state(env, u, props, 'second'))
            w = list(c.fluid.wrapper.values())[0]

            def fail(*a, **k):
                raise ValueError('no value')

            def lose(nw_, env_):
                for x in missing:
                    setattr(w, x, fail)
            try:
                pipe.solve(nw, env, tag='second ', assume=lose)
            finally:
                for x in missing:
                    w.__dict__.pop(x, None)
        out = []
        for fn, figs in USES.items():
            for f in figs:
                v = reported(nw, 'a', f)
                if f == 'phase' and missing == ('Q_ph',):       # the fluid model derives the phase from it
                    continue
                out.append(eqs.Holds(f'{f} {"without" if fn in missing else "with"} value', none(v) == (fn in missing), f'{v}'))
        p, h = c.p.val_SI, c.h.val_SI
        ref = {'T': w.T_ph(p, h), 'vol': 1 / w.d_ph(p, h), 's': w.s_ph(p, h)}
        if 'T_sat' not in missing:
            ref['Td_bp'] = w.T_ph(p, h) - w.T_sat(p)
        for k, v in ref.items():
            out.append(eqs.Close(f'definition of {k}', to_si(k, reported(nw, 'a', k), u[k]), v))
        if 'Q_ph' not in missing and is_num(reported(nw, 'a', 'x')):
            out.append(eqs.Eq('definition of x', w.h_pQ(p, to_si('x', reported(nw, 'a', 'x'), u['x'])), h, scale=1.0, rel=1e-4))
        return out
    return Case(nm, lambda: eqs.case(nm, run, cross=1, vacuity=True, stubs=memo_stubs), limit=limit)


def cases(tier):
    out = []
    for props, again in ((('m', 'p', 'x'), ('m', 'p', 'T')), (('m', 'p', 'Td_bp'), ('v', 'p', 'h')), (('m', 'p', 'h'), ('m', 'p', 'h'))):
        out.append(mixed_case(f'{", ".join(props)} of a pure fluid, then {", ".join(again)} of a mixture', props, again))
    for missing in (('T_sat',), ('Q_ph',), ('phase_ph',), ('T_sat', 'Q_ph', 'phase_ph')):
        out.append(missing_case(f'second calculation without values of {", ".join(missing)}', missing))
    for un, units in (('SI', DEFAULT), ('technical units', OTHER), ('other units', ODD)):
        for q in ('m', 'v'):
            for pr in PAIRS:
                out.append(spec_case(f'{q}, {pr[0]}, {pr[1]} set, {un}', (q,) + pr, units))
        for p in ('m', 'p', 'h', 'T', 'v'):
            out.append(ref_case(f'{p} = Ref, {un}', p, units))
    for pr in MPAIRS:
        for q in ('m', 'v'):
            out.append(spec_case(f'{q}, {pr[0]}, {pr[1]} set, mixture', (q,) + pr, OTHER, MIX, 'ideal'))
    for p in ('m', 'p', 'h', 'T', 'v'):
        out.append(ref_case(f'{p} = Ref, mixture', p, OTHER, MIX, 'ideal'))
    for prop, us in SI.items():
        if prop == 'Td_bp':
            continue
        for unit in us:
            units = dict(DEFAULT, **{prop: unit})
            props = {'v': ('v', 'p', 'h'), 'T': ('m', 'p', 'T'), 'x': ('m', 'p', 'x')}.get(prop, ('m', 'p', 'h'))
            out.append(spec_case(f'unit {unit} of {prop}', props, units))
    return out
