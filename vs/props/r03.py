"""R03: off-design, characteristic and grouped specifications impose the
documented model."""
import math

from run import Case

from .. import contracts
from .. import catalog as K
from .. import net
from .. import sym as S
from . import c03, cons, eqs
from .jac import comp_net

META = {
    'bounds': 'every characteristic, off-design and grouped specification of the component library, one at a time, all '
              'connections, design values and parameters symbolic (ranges of vs/net.py), arbitrary characteristic '
              'lines, compressor maps with 2x2 support points; every feasible path',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties, friction factor and '
                    'characteristic lines uninterpreted', 'no zero denominators'],
    'outside': 'temperature differences of the wrong sign; the moving boundary heat exchanger; the entry point search of '
               'the wet steam turbine beyond its defining equation',
}


# ----------------------------------------------------------------- definitions
def vol(c):
    return c.calc_vol()


def load(cp, par, i=0, o=None, rel=True):
    """The documented expression a characteristic is evaluated at."""
    o = i if o is None else o
    a, b = cp.inl[i], cp.outl[o]
    val = {'m': lambda: a.m.val_SI, 'm_out': lambda: b.m.val_SI, 'v': lambda: a.m.val_SI * vol(a),
           'pr': lambda: b.p.val_SI / a.p.val_SI}[par]()
    if not rel:
        return val
    return val / {'m': lambda: a.m.design, 'm_out': lambda: b.m.design, 'v': lambda: a.v.design,
                  'pr': lambda: b.p.design / a.p.design}[par]()


def wrapper(c):
    return next(iter(c.fluid.wrapper.values()))


def h_isen(i, o):
    w = wrapper(i)
    return w.h_ps(o.p.val_SI, w.s_ph(i.p.val_SI, i.h.val_SI))


def td_log(a, b):
    if a == b:
        return a
    return (a - b) / math.log(a / b)


def heat(i, o):
    return i.m.val_SI * (o.h.val_SI - i.h.val_SI)


def positive(env, *xs):
    for x in xs:
        env.assume(x > 0)


# ---------------------------------------------------------------------- models
def hx_kA_char(p1, p2):
    def g(nw, env):
        cp = nw.get_comp('c')
        i, o = cp.inl, cp.outl
        f1 = cp.kA_char1.char_func.evaluate(load(cp, p1, 0))
        f2 = cp.kA_char2.char_func.evaluate(load(cp, p2, 1))
        return [eqs.Eq('heat transfer', heat(i[0], o[0]),
                       -cp.kA.design * 2 / (1 / f1 + 1 / f2) * td_log(*nw.ttd))]
    return g


def hx_assume(nw, env):
    cp = nw.get_comp('c')
    hot = cp.inl[0].calc_T_sat() if type(cp).__name__ == 'Condenser' else cp.inl[0].calc_T()
    nw.ttd = hot - cp.outl[1].calc_T(), cp.outl[0].calc_T() - cp.inl[1].calc_T()
    positive(env, *nw.ttd)


def amb(nw, env):
    cp = nw.get_comp('c')
    # the ambient temperature in Kelvin is made from the user value before the iteration
    cp.Tamb.val_SI = env.var('Tamb_SI', 250.0, 320.0)


def amb_same_side(nw, env):
    amb(nw, env)
    cp = nw.get_comp('c')
    nw.td = cp.inl[0].calc_T() - cp.Tamb.val_SI, cp.outl[0].calc_T() - cp.Tamb.val_SI
    env.assume(nw.td[0] * nw.td[1] > 0)


def simple_kA(nw, env):
    cp = nw.get_comp('c')
    return [eqs.Eq('heat transfer', heat(cp.inl[0], cp.outl[0]), -cp.kA.val * td_log(*nw.td))]


def simple_kA_char(par):
    def g(nw, env):
        cp = nw.get_comp('c')
        f = cp.kA_char.char_func.evaluate(load(cp, par))
        return [eqs.Eq('heat transfer', heat(cp.inl[0], cp.outl[0]),
                       -cp.kA.design * 2 / (1 + 1 / f) * td_log(*nw.td))]
    return g


def darcy(nw, env):
    from tespy.tools.fluid_properties.helpers import darcy_friction_factor as dff
    cp = nw.get_comp('c')
    i, o = cp.inl[0], cp.outl[0]
    m, sg = (i.m.val_SI, 1) if i.m.val_SI > 0 else (-i.m.val_SI, -1)
    D, L, ks = cp.D.val, cp.L.val, cp.ks.val
    eta = (i.calc_viscosity() + o.calc_viscosity()) / 2
    Re = 4 * m / (math.pi * D * eta)
    if not env.symbolic:
        lam = dff(Re, ks, D)
    else:
        lam = S.Sym(S.uf('darcy', S.lift(Re), S.lift(ks), S.lift(D)))
    v = (vol(i) + vol(o)) / 2
    w = m * v / (math.pi * D ** 2 / 4)
    return [eqs.Eq('pressure drop', sg * (i.p.val_SI - o.p.val_SI), lam * L / D * w ** 2 / (2 * v), i.p.val_SI,
                   near=lam * L / D * w ** 2 / (2 * v))]


def hazen(nw, env):
    cp = nw.get_comp('c')
    i, o = cp.inl[0], cp.outl[0]
    m, sg = (i.m.val_SI, 1) if i.m.val_SI > 0 else (-i.m.val_SI, -1)
    v = (vol(i) + vol(o)) / 2
    dp = 10.67 * m ** 1.852 * cp.L.val / (cp.ks_HW.val ** 1.852 * cp.D.val ** 4.871) * 9.81 * v ** 0.852
    return [eqs.Eq('pressure drop', sg * (i.p.val_SI - o.p.val_SI), dp, i.p.val_SI)]


def no_flow(nw, env):
    cp = nw.get_comp('c')
    k = nw.path
    return [eqs.Eq('no pressure drop without flow', cp.inl[k].p.val_SI, cp.outl[k].p.val_SI)]


def no_flow_path(k):
    def f(nw, env):
        nw.path = k
    return f


def collector(nw, env):
    cp = nw.get_comp('c')
    i, o = cp.inl[0], cp.outl[0]
    dT = (i.calc_T() + o.calc_T()) / 2 - cp.Tamb.val_SI
    if type(cp).__name__ == 'SolarCollector':
        q = cp.E.val * cp.eta_opt.val - cp.lkf_lin.val * dT - cp.lkf_quad.val * dT ** 2
    else:
        iam = 1 - cp.iam_1.val * abs(cp.aoi.val) - cp.iam_2.val * cp.aoi.val ** 2
        q = cp.E.val * cp.eta_opt.val * cp.doc.val ** 1.5 * iam - cp.c_1.val * dT - cp.c_2.val * dT ** 2
    c03.results(nw, env)
    return [eqs.Eq('useful heat', heat(i, o), cp.A.val * q),
            eqs.Eq('reported loss', cp.Q_loss.val, heat(i, o) - cp.E.val * cp.A.val)]


def eta_char(kind):
    def mk(par):
        def g(nw, env):
            cp = nw.get_comp('c')
            i, o = cp.inl[0], cp.outl[0]
            eta = cp.eta_s.design * cp.eta_s_char.char_func.evaluate(load(cp, par))
            dh, dhs = o.h.val_SI - i.h.val_SI, h_isen(i, o) - i.h.val_SI
            if kind == 'turbine':
                return [eqs.Eq('work', dh, dhs * eta)]
            return [eqs.Eq('work', dh * eta, dhs)]
        return g
    return mk


def cone(nw, env):
    cp = nw.get_comp('c')
    i, o = cp.inl[0], cp.outl[0]
    num = 1 - (o.p.val_SI / i.p.val_SI) ** 2
    den = 1 - cp.pr.design ** 2
    # flow coefficient: m / sqrt(p / v), Stodola's cone law squared
    lhs = i.m.val_SI ** 2 * i.p.design / i.vol.design * den
    rhs = i.m.design ** 2 * i.p.val_SI / vol(i) * num
    return [eqs.Eq('cone law', lhs, rhs), eqs.Holds('mass flow is positive', i.m.val_SI > 0)]


def cone_assume(nw, env):
    cp = nw.get_comp('c')
    env.assume(cp.outl[0].p.val_SI < cp.inl[0].p.val_SI)
    env.assume(cp.pr.design < 1)


def dp_abs(attr, up):
    def mk(par):
        def g(nw, env):
            cp = nw.get_comp('c')
            i, o = cp.inl[0], cp.outl[0]
            dp = cp.get_attr(attr).char_func.evaluate(load(cp, par, rel=False))
            return [eqs.Eq('pressure difference', (o.p.val_SI - i.p.val_SI) * up, dp)]
        return g
    return mk


def comp_map(what):
    def g(nw, env):
        cp = nw.get_comp('c')
        i, o = cp.inl[0], cp.outl[0]
        X = (i.T.design / i.calc_T()) ** 0.5
        Y = i.m.val_SI * i.p.design / (i.m.design * i.p.val_SI * X)
        cm = cp.get_attr('char_map_' + what).char_func
        ya, za = cm.evaluate_x(X)
        f = 1 - cp.igva.val / 100
        g_ = f if what == 'pr' else 1 - cp.igva.val ** 2 / 10000
        z = cm.evaluate_y(Y, ya * f, za * g_)
        if what == 'pr':
            return [eqs.Eq('pressure ratio', o.p.val_SI / i.p.val_SI, cp.pr.design * z)]
        return [eqs.Eq('efficiency', h_isen(i, o) - i.h.val_SI, cp.eta_s.design * z * (o.h.val_SI - i.h.val_SI))]
    return g


def engine(design):
    def g(nw, env):
        cp = nw.get_comp('c')
        P = cp.P.val
        x = P / cp.P.design if design else 1
        ch = {k: cp.get_attr(k + '_char').char_func.evaluate(x) for k in ('tiP', 'Q1', 'Q2', 'Qloss')}
        i, o = cp.inl, cp.outl
        ti = thermal_input(cp)
        near = 1e6 * cons.total(i[2:], cons.stream_mass)
        return [eqs.Eq('thermal input', ti, -P * ch['tiP'], near=near),
                eqs.Eq('heat 1', heat(i[0], o[0]), -P * ch['Q1']),
                eqs.Eq('heat 2', heat(i[1], o[1]), -P * ch['Q2']),
                eqs.Eq('heat loss', cp.Qloss.val, P * ch['Qloss'])]
    return g


def thermal_input(cp):
    a, b = cp.inl[2:], cp.outl[2:]
    fuels = sorted({f for c in a + b for f in c.fluid.val if f in c03.HF})

    def t(cs):
        return cons.total(cs, lambda c: c.m.val_SI * cons.total(
            fuels, lambda f: cons.frac(c, f) * c03.lhv(f, c.fluid.wrapper[f]._molar_mass)))
    return t(a) - t(b)


def electrolyzer(nw, env):
    cp = nw.get_comp('c')
    H2 = cp.outl[2]
    e0 = 286000 / H2.fluid.wrapper['H2']._molar_mass
    eta = cp.eta.design * cp.eta_char.char_func.evaluate(cp.outl[2].m.val_SI / cp.outl[2].m.design)
    return [eqs.Eq('power', cp.P.val * eta, H2.m.val_SI * e0, near=1e6 * H2.m.val_SI)]


def wet(nw, env):
    """Baumann correction of the dry efficiency."""
    cp = nw.get_comp('c')
    i, o = cp.inl[0], cp.outl[0]
    w = wrapper(i)
    hi, ho = i.h.val_SI, o.h.val_SI
    xo = w.Q_ph(o.p.val_SI, ho)
    if nw.inlet == 'tp':
        y = 1 - (w.Q_ph(i.p.val_SI, hi) + xo) / 2
        return [eqs.Eq('efficiency', ho - hi, cp.eta_s_dry.val * (1 - cp.alpha.val * y) * (h_isen(i, o) - hi))]
    return [eqs.Eq('efficiency', ho - hi, cp.eta_s_dry.val * (h_isen(i, o) - hi))]


def wet_assume(kind):
    def f(nw, env):
        cp = nw.get_comp('c')
        i, o = cp.inl[0], cp.outl[0]
        w = wrapper(i)
        nw.inlet = kind
        env.assume(o.p.val_SI < i.p.val_SI)
        for c, k in ((i, kind), (o, 'tp' if kind == 'tp' else 'g')):
            if k == 'tp':
                q = w.Q_ph(c.p.val_SI, c.h.val_SI)
                env.assume(q > 0)
                env.assume(q < 1)
        if env.symbolic:
            want = [(i, kind), (o, 'tp' if kind == 'tp' else 'g')]
            for c, k in want:
                c.calc_phase = lambda k=k: k
        elif [c.calc_phase() for c in (i, o)] != [kind, 'tp' if kind == 'tp' else 'g']:
            raise eqs.Unusable()
    return f


# ----------------------------------------------------------------------- cases
def make(n, set_=(), par=(), **kw):
    def mk():
        c = K.get_class(n)('c', **kw)
        for k in set_:
            c.get_attr(k).set_attr(is_set=True)
        for k, p in par:
            c.get_attr(k).param = p
        return c
    return mk


def one(nm, mk, fl, goals, assume=None, kw=None, **k2):
    return Case(nm, lambda: cons.case(nm, comp_net(mk, fl, **(kw or {})), goals, assume=assume, cross=1,
                                      max_paths=64, **k2), limit=150)


def group(n, g, **kw):
    return {s.name: s.make for s in K.specs(n, with_var=False)}[f'{n}.{g}']


def friction(regime):
    """Friction factor of the documented flow regimes."""
    def run(o, env):
        import math
        from tespy.tools.fluid_properties.helpers import darcy_friction_factor
        lg = S.sym_log10 if env.symbolic else math.log10
        sq = S.sym_sqrt if env.symbolic else math.sqrt
        lo, hi = {'laminar': (1.0, 2320.0), 'blasius': (2320.0, 1e4), 'hanakov': (1e4, 1e6),
                  'smooth': (1e6, 1e8), 'rough': (2320.0, 1e8)}[regime]
        re, ks, d = env.var('re', lo, hi), env.var('ks', 1e-6, 1e-2), env.var('d', 1e-2, 2.0)
        rough = re * ks / d
        if regime == 'laminar':
            env.assume(re <= 2320)
        else:
            env.assume(re > 2320)
            env.assume(rough >= 65 if regime == 'rough' else rough < 65)
            if regime == 'blasius':
                env.assume(re <= 1e4)
            elif regime == 'hanakov':
                env.assume(re > 1e4)
                env.assume(re < 1e6)
            elif regime == 'smooth':
                env.assume(re >= 1e6)
        lam = darcy_friction_factor(re, ks, d)
        env.roots(lam)
        nm = 'friction factor'
        if regime == 'laminar':
            return [eqs.Eq(nm, lam * re, 64)]
        if regime == 'blasius':
            return [eqs.Eq(nm, lam * re ** 0.25, 0.3164)]
        if regime == 'hanakov':
            return [eqs.Eq(nm, lam, 1 / (1.8 * lg(re) - 1.5) ** 2)]
        if env.symbolic:
            env.assume(lam > 0)
        if regime == 'smooth':
            return [eqs.Eq(nm, 2 * lg(re * sq(lam)) - 0.8, 1 / sq(lam), rel=1e-5)]
        return [eqs.Eq(nm, -2 * lg(2.51 / (re * sq(lam)) + ks / (3.71 * d)), 1 / sq(lam), rel=1e-2)]
    nm = f'friction factor, {regime}'

    def stubs():
        from tespy.tools.fluid_properties import helpers as FH
        return [(o, n) for o, n in contracts.finite_difference_stubs() if o is not FH.darcy_friction_factor]
    return Case(nm, lambda: eqs.case(nm, run, stubs=stubs, cross=1), limit=100)


def cases(tier):
    W = [K.WATER]
    out = [friction(r) for r in ('laminar', 'blasius', 'hanakov', 'smooth', 'rough')]
    P = ('m', 'm_out', 'v', 'pr')
    for n in ('HeatExchanger', 'Condenser', 'Desuperheater'):
        for p1, p2 in [(a, b) for a in P for b in P] if n == 'HeatExchanger' or tier != 'quick' else [('m', 'm'), ('v', 'm_out')]:
            out.append(one(f'{n}.kA_char {p1} {p2}', make(n, ('kA_char1', 'kA_char2', 'kA_char'), (('kA_char1', p1), ('kA_char2', p2))),
                           W * 2, hx_kA_char(p1, p2), hx_assume))
    for n in ('SimpleHeatExchanger', 'Pipe'):
        out.append(one(f'{n}.kA_group', group(n, 'kA_group'), W, simple_kA, amb_same_side))
        for p in P:
            def mk(n=n, p=p):
                c = group(n, 'kA_char_group')()
                c.kA_char.param = p
                return c
            out.append(one(f'{n}.kA_char_group {p}', mk, W, simple_kA_char(p), amb_same_side))
    for n in ('SimpleHeatExchanger', 'Pipe', 'ParabolicTrough', 'SolarCollector'):
        for rev, rg in (('', (1e-2, 1e3)), (' reversed flow', (-1e3, -1e-2))):
            out.append(one(f'{n}.darcy_group{rev}', group(n, 'darcy_group'), W, darcy, kw={'m_range': rg}))
            out.append(one(f'{n}.hw_group{rev}', group(n, 'hw_group'), W, hazen, kw={'m_range': rg}))
        for g in ('darcy_group', 'hw_group', 'zeta'):
            out.append(one(f'{n}.{g} without flow', group(n, g), W, no_flow, no_flow_path(0),
                           kw={'m_range': (-9e-5, 9e-5)}, tiny=True))
    for n in ('HeatExchanger', 'Condenser', 'Desuperheater'):
        for k in (0, 1):
            out.append(one(f'{n}.zeta{k + 1} without flow', group(n, f'zeta{k + 1}'), W * 2, no_flow, no_flow_path(k),
                           kw={'m_range': (-9e-5, 9e-5)}, tiny=True))
    out.append(one('Valve.zeta without flow', group('Valve', 'zeta'), W, no_flow, no_flow_path(0),
                   kw={'m_range': (-9e-5, 9e-5)}, tiny=True))
    for n in ('ParabolicTrough', 'SolarCollector'):
        out.append(one(f'{n}.energy_group', group(n, 'energy_group'), W, collector, amb))
    for n, k in (('Turbine', 'turbine'), ('SteamTurbine', 'turbine'), ('Pump', 'pump'), ('Compressor', 'pump')):
        for p in P:
            out.append(one(f'{n}.eta_s_char {p}', make(n, ('eta_s_char',), (('eta_s_char', p),)), W, eta_char(k)(p)))
    for n in ('Turbine', 'SteamTurbine'):
        out.append(one(f'{n}.cone', make(n, cone=True), W, cone, cone_assume))
    for p in P:
        out.append(one(f'Valve.dp_char {p}', make('Valve', ('dp_char',), (('dp_char', p),)), W, dp_abs('dp_char', -1)(p)))
        out.append(one(f'Pump.flow_char {p}', make('Pump', ('flow_char',), (('flow_char', p),)), W, dp_abs('flow_char', 1)(p)))
    for w in ('pr', 'eta_s'):
        out.append(one(f'Compressor.char_map_{w}', make('Compressor', (f'char_map_{w}',), igva=5.0), W, comp_map(w)))
    eng = dict(variable_fluids=K.FLUE, mixing='ideal', x_range=(0.0, 0.95))
    for d in (True, False):
        out.append(one('CombustionEngine characteristics' + (' offdesign' if d else ''),
                       make('CombustionEngine'), [{'H2O': 1}, {'H2O': 1}, K.AIR, K.FUEL], engine(d),
                       kw=dict(eng, design=d), rows=lambda r: 'stoich' not in r))
    out.append(one('WaterElectrolyzer.eta_char', make('WaterElectrolyzer', ('eta_char',)), [{'H2O': 1}] * 2, electrolyzer,
                   kw={'engines': ['O2', 'H2']}))
    for k in ('tp', 'g'):
        out.append(one(f'SteamTurbine.eta_s_dry_group {k}', group('SteamTurbine', 'eta_s_dry_group'), W, wet, wet_assume(k)))
    return out
