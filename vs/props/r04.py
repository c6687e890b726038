"""R04: reported component results meet their definitions."""
import math

from run import Case

from .. import catalog as K
from .. import net
from .. import sym as S
from . import c02, c03, cons, eqs
from .jac import comp_net
from .r03 import h_isen, heat, td_log, thermal_input, vol, wrapper

META = {
    'bounds': 'every reported numeric result of every component at an arbitrary state: mass flows, pressures, enthalpies, '
              'compositions symbolic (ranges of vs/net.py), also reversed and vanishing flow; every feasible path',
    'assumptions': ['fluid properties uninterpreted', 'no zero denominators'],
    'outside': 'results of the moving boundary heat exchanger; unit conversion of the results',
}


def zeta(i, o):
    m = i.m.val_SI
    if abs(m) <= 1e-4:
        return 0
    return (i.p.val_SI - o.p.val_SI) * math.pi ** 2 / (8 * m * abs(m) * (vol(i) + vol(o)) / 2)


def isnan(x):
    return not S.is_sym(x) and x != x


class Nan:
    """The result must be reported as not available."""

    def __init__(self, name, v):
        self.name, self.v = name, v

    def ob(self):
        from .. import core
        return core.Ob(self.name, S.TRUE if isnan(self.v) else S.FALSE, self.name)

    def holds(self):
        return isnan(self.v)

    def text(self):
        return f'{self.name}: reported as {self.v!r}, no value expected'


def defs(nw, env):
    cp = nw.get_comp('c')
    n = type(cp).__name__
    i, o = cp.inl, cp.outl
    out = []

    def r(param, want, scale=0.0, near=None):
        v = cp.get_attr(param).val
        out.append(Nan(param, v) if isnan(want) else eqs.Eq(param, v, want, scale, near=near, rel=1e-5))

    def flow_pair(k, suffix=''):
        r('pr' + suffix, o[k].p.val_SI / i[k].p.val_SI)
        if 'zeta' + suffix in cp.parameters:
            r('zeta' + suffix, zeta(i[k], o[k]), near=None)

    if n in c03.TURBO:
        r('P', heat(i[0], o[0]))
        r('pr', o[0].p.val_SI / i[0].p.val_SI)
        if 'eta_s' in cp.parameters:
            dh, dhs = o[0].h.val_SI - i[0].h.val_SI, h_isen(i[0], o[0]) - i[0].h.val_SI
            r('eta_s', dh / dhs if n in ('Turbine', 'SteamTurbine') else dhs / dh)
    elif n in c03.SIMPLE or n == 'Valve':
        flow_pair(0)
        if n != 'Valve':
            r('Q', heat(i[0], o[0]))
        if 'kA' in cp.parameters and cp.Tamb.is_set:
            a, b = [c.calc_T() - cp.Tamb.val_SI for c in (i[0], o[0])]
            r('kA', abs(heat(i[0], o[0]) / td_log(a, b)) if a * b > 0 else math.nan)
    elif n in c03.HX:
        Q = heat(i[0], o[0])
        r('Q', Q)
        for k in (0, 1):
            flow_pair(k, str(k + 1))
            r(f'dp{k + 1}', i[k].p.val_SI - o[k].p.val_SI)
        T = [c.calc_T() for c in (i[0], o[0], i[1], o[1])]
        u, l = (i[0].calc_T_sat() if n == 'Condenser' else T[0]) - T[3], T[1] - T[2]
        r('ttd_u', u)
        r('ttd_l', l)
        r('ttd_min', u if u < l else l)
        ok = nw.ok
        td = td_log(u, l) if ok else math.nan
        r('td_log', td)
        r('kA', -Q / td if ok else math.nan)
        eh = (o[0].h.val_SI - i[0].h.val_SI) / (wrapper(o[0]).h_pT(o[0].p.val_SI, T[2]) - i[0].h.val_SI)
        ec = (o[1].h.val_SI - i[1].h.val_SI) / (wrapper(o[1]).h_pT(o[1].p.val_SI, T[0]) - i[1].h.val_SI)
        r('eff_hot', eh)
        r('eff_cold', ec)
        r('eff_max', eh if eh > ec else ec)
    elif 'Combustion' in n:
        a, b = c02.reaction(cp)
        near = 1e6 * cons.total(a, cons.stream_mass)
        r('ti', c02_ti(a, b), near=near)
        M = {f: w._molar_mass for c in a + b for f, w in c.fluid.wrapper.items()}
        o2 = need = 0
        for c in a:
            for f in sorted(c.fluid.val):
                mol = c.m.val_SI * cons.frac(c, f) / M[f]
                if f == 'O2':
                    o2 = o2 + mol
                elif f in c03.HF:
                    need = need + mol * (c02.ATOMS[f].get('C', 0) + c02.ATOMS[f].get('H', 0) / 4)
        v = cp.lamb.val
        out.append(eqs.Eq('lamb', v * need, o2, near=(1 + v) * 1e3 * cons.total(a, cons.stream_mass)))
        if n.startswith('Dia'):
            r('pr', o[0].p.val_SI / i[0].p.val_SI)
            h = cons.total(b, lambda c: c.m.val_SI * (c.h.val_SI - c03.href(c, 'forced-gas'))) \
                - cons.total(a, lambda c: c.m.val_SI * (c.h.val_SI - c03.href(c, 'forced-gas')))
            r('eta', h / cp.ti.val)
            r('Q_loss', h - cp.ti.val)
        if n == 'CombustionEngine':
            for k in (0, 1):
                flow_pair(k, str(k + 1))
                r(f'Q{k + 1}', -heat(i[k], o[k]))
    else:
        flow_pair(0)
        r('Q', -heat(i[0], o[0]))
        H2 = i[2] if n == 'FuelCell' else o[2]
        e0 = (-1 if n == 'FuelCell' else 1) * 286000 / H2.fluid.wrapper['H2']._molar_mass
        r('e', nw.P / H2.m.val_SI)
        # |e0| is the lower bound of the electrolyzer's consumption, upper bound of the cell's yield
        want = nw.P / H2.m.val_SI / e0 if n == 'FuelCell' else H2.m.val_SI * e0 / nw.P
        r('eta', want, near=1e3 * abs(want))
    return out


def approach(nw, env, sign):
    cp = nw.get_comp('c')
    hot = cp.inl[0].calc_T_sat() if type(cp).__name__ == 'Condenser' else cp.inl[0].calc_T()
    u, l = hot - cp.outl[1].calc_T(), cp.outl[0].calc_T() - cp.inl[1].calc_T()
    env.assume(u > 0 if sign[0] > 0 else u < 0)
    env.assume(l > 0 if sign[1] > 0 else l < 0)
    nw.ok = sign == (1, 1)


def c02_ti(a, b):
    fuels = sorted({f for c in a + b for f in c.fluid.val if f in c03.HF})

    def t(cs):
        return cons.total(cs, lambda c: c.m.val_SI * cons.total(
            fuels, lambda f: cons.frac(c, f) * c03.lhv(f, c.fluid.wrapper[f]._molar_mass)))
    return t(a) - t(b)


def power(nw, env):
    cp = nw.get_comp('c')
    if type(cp).__name__ in ('FuelCell', 'WaterElectrolyzer'):
        nw.P = cp.P.val = env.var('P_el', *((-1e7, -1e3) if type(cp).__name__ == 'FuelCell' else (1e3, 1e7)))


def ambient(nw, env):
    cp = nw.get_comp('c')
    cp.Tamb.val_SI = env.var('Tamb_SI', 250.0, 320.0)
    for c in (cp.inl[0], cp.outl[0]):
        env.assume(c.calc_T() != cp.Tamb.val_SI)


def one(nm, b, assume=None, **kw):
    return Case(nm, lambda: cons.case(nm, b, defs, assume=assume, after=c03.results, arbitrary=True, cross=1,
                                      max_paths=128, **kw), limit=200)


def cases(tier):
    out = []
    W = K.WATER
    for n in K.PURE:
        if n.startswith('Moving'):
            continue
        fl = [W] * K.n_in(n)

        def mk(n=n):
            return K.get_class(n)('c')
        if n in c03.HX:
            for sg, nm in (((1, 1), ''), ((1, -1), ' temperature cross below'), ((-1, 1), ' temperature cross above'), ((-1, -1), ' reversed')):
                out.append(one(n + nm, comp_net(mk, fl), lambda nw, env, sg=sg: approach(nw, env, sg)))
            for rg, nm, t in (((-1e3, -1e-2), ' reversed flow', False), ((-9e-5, 9e-5), ' without flow', True)):
                out.append(one(n + nm, comp_net(mk, fl, m_range=rg), lambda nw, env: approach(nw, env, (1, 1)), tiny=t))
            continue
        out.append(one(n, comp_net(mk, fl)))
        if n not in c03.TURBO:
            out.append(one(f'{n} reversed flow', comp_net(mk, fl, m_range=(-1e3, -1e-2))))
            out.append(one(f'{n} without flow', comp_net(mk, fl, m_range=(-9e-5, 9e-5)), tiny=True))
        if n in ('SimpleHeatExchanger', 'Pipe'):
            out.append(one(f'{n} ambient', comp_net(lambda n=n: K.get_class(n)('c', Tamb=20), fl), ambient))
    for n, pre, fl, kw in (('FuelCell', 0, [{'H2O': 1}, {'O2': 1}, {'H2': 1}], {}),
                           ('WaterElectrolyzer', 0, [{'H2O': 1}] * 2, {'engines': ['O2', 'H2']})):
        out.append(one(n, comp_net(lambda n=n: K.get_class(n)('c'), fl, **kw), power))
    for fn, d in c02.FUELS.items():
        sp = sorted(set(d['AIR']) | set(d['FUEL']) | {'CO2', 'H2O', 'O2', 'N2'})
        kw = {'variable_fluids': sp, 'mixing': 'ideal', 'x_range': (0.0, 0.95)}
        for n in c02.REACT[:3]:
            pre = [{'H2O': 1}] * 2 if n == 'CombustionEngine' else []
            out.append(one(f'{n} {fn}', comp_net(lambda n=n: K.get_class(n)('c'), pre + [d['AIR'], d['FUEL']], **kw)))
    return out
