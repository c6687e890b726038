"""E02: exergy balances of components."""
from run import Case

from .. import catalog as K
from .. import net
from .. import sym as S
from . import c03, cons, eqs
from .jac import comp_net

META = {
    'bounds': 'exergy_balance of every component that has one (nodes with 2 and 3 ports) for arbitrary symbolic thermal, mechanical and '
              'chemical exergies, temperatures, mass flows, power and heat of its streams: every temperature regime; '
              'second law: exergies of the streams computed by the code from symbolic m, p, h in states that satisfy the equations',
    'assumptions': ['fluid properties uninterpreted', 'merge: mass balance'],
    'outside': 'simple heat exchangers cooling a stream from above to below ambient temperature and dissipative simple heat exchangers '
               'heating below ambient temperature: only documented definitions; splitter, separator, droplet separator, fuel cell '
               '(no exergy balance in the library)',
}
TURBO = ('Compressor', 'Pump', 'Turbine', 'SteamTurbine')
SIMPLE = c03.SIMPLE
HX = ('HeatExchanger', 'Condenser', 'Desuperheater')


def isnan(x):
    return not S.is_sym(x) and x != x


class Same(eqs.Eq):
    """Equal, or both not available."""

    def ob(self):
        if isnan(self.lhs) or isnan(self.rhs):
            from .. import core
            return core.Ob(self.name, S.TRUE if isnan(self.lhs) and isnan(self.rhs) else S.FALSE, self.name)
        return super().ob()


NAN = float('nan')


def T(c):
    return c.T.val_SI


def ph(*cs):
    return cons.total(cs, lambda c: c.Ex_physical)


def ch(*cs):
    return cons.total(cs, lambda c: c.Ex_chemical)


def th(c):
    return c.Ex_therm


def me(c):
    return c.Ex_mech


def definition(cp, T0):
    """(E_P, E_F) as documented; None: not documented for these temperatures."""
    n = type(cp).__name__
    i, o = cp.inl, cp.outl
    if n in TURBO + ('Valve',) + SIMPLE:
        i, o = i[0], o[0]
        a, b = T(i) > T0, T(o) > T0
        a, b = bool(a), bool(b)
    if n in ('Compressor', 'Pump'):
        P = cp.P.val
        if a and b:
            return ph(o) - ph(i), P
        if b:
            return th(o) + me(o) - me(i), P + th(i)
        if not a:
            return me(o) - me(i), P + th(i) - th(o)
        return NAN, NAN
    if n in ('Turbine', 'SteamTurbine'):
        P = cp.P.val
        if a and b:
            return -P, ph(i) - ph(o)
        if a:
            return -P + th(o), th(i) + me(i) - me(o)
        if not b:
            return -P + th(o) - th(i), me(i) - me(o)
        return NAN, NAN
    if n == 'Valve':
        if a and b:
            return NAN, ph(i) - ph(o)
        if a:
            return th(o), th(i) + me(i) - me(o)
        if not b:
            return th(o) - th(i), me(i) - me(o)
        return NAN, NAN
    if n in SIMPLE:
        Q = cp.Q.val
        if Q < 0:
            if a and b:
                return NAN if cp.dissipative.val else th(i) - th(o), ph(i) - ph(o)
            if a:
                return th(o), th(i) + me(i) + th(o) - me(o)
            if not b:
                return th(o) - th(i), th(o) - th(i) + me(i) - me(o)
            return NAN, NAN
        if Q > 0:
            if a and b:
                return ph(o) - ph(i), th(o) - th(i)
            if b:
                return th(i) + th(o), th(i) + me(i) - me(o)
            if not a:
                return NAN if cp.dissipative.val else th(i) - th(o) + me(o) - me(i), th(i) - th(o)
            return NAN, NAN
        return NAN, ph(i) - ph(o)
    if n in HX:
        t = tuple(bool(T(c) > T0) for c in (i[0], o[0], i[1], o[1]))
        table = {
            (1, 1, 1, 1): lambda: (th(o[1]) - th(i[1]), ph(i[0]) - ph(o[0]) + me(i[1]) - me(o[1])),
            (0, 0, 0, 0): lambda: (th(o[0]) - th(i[0]), ph(i[1]) - ph(o[1]) + me(i[0]) - me(o[0])),
            (1, 0, 0, 1): lambda: (th(o[0]) + th(o[1]), ph(*i) - me(o[0]) - me(o[1])),
            (1, 0, 0, 0): lambda: (th(o[0]), ph(*i) - ph(o[1]) - me(o[0])),
            (1, 1, 0, 0): lambda: (NAN, ph(*i) - ph(*o)),
            (1, 1, 0, 1): lambda: (th(o[1]), ph(i[0]) - ph(o[0]) + ph(i[1]) - me(o[1])),
        }
        f = table.get(tuple(int(x) for x in t))
        return f() if f else None
    if n == 'Merge':
        To, eo = T(o[0]), o[0].ex_physical
        P = F = 0
        up = bool(To > T0)
        for c in i:
            m, e = c.m.val_SI, c.ex_physical
            if (T(c) < To) if up else (T(c) > To):      # moved away from the ambient temperature
                if (T(c) > T0) == up:
                    P = P + m * (eo - e)
                else:
                    P, F = P + m * eo, F + m * e
            else:
                F = F + m * (e - eo)
        return P, F
    if n == 'Drum':
        return ph(*o), ph(*i)
    if n in ('CombustionChamber', 'DiabaticCombustionChamber'):
        return ph(*o) - ph(*i), ch(*i) - ch(*o)
    if n == 'CombustionEngine':
        return (ph(o[2]) - ph(i[2], i[3]) - cp.P.val + ph(o[0], o[1]) - ph(i[0], i[1]),
                ch(i[2], i[3]) - ch(o[2]))
    return None


def massless(cp):
    e = cp.E_bus['massless']
    return 0 if isnan(e) else e


def expected_destruction(cp, T0):
    """Exergy entering minus leaving with streams, power and heat."""
    n = type(cp).__name__
    i, o = cp.inl, cp.outl
    d = ph(*i) - ph(*o)
    if n in TURBO:
        return d + cp.P.val
    if n in ('Valve', 'Merge', 'Drum') + HX:
        return d
    if n in ('CombustionChamber', 'DiabaticCombustionChamber'):
        return d + ch(*i) - ch(*o)
    if n == 'CombustionEngine':
        return d + cp.P.val + ch(i[2], i[3]) - ch(o[2])
    if n == 'WaterElectrolyzer':
        return d + cp.P.val + ch(i[1]) - ch(o[1], o[2])
    if n in SIMPLE:
        a, b = bool(T(i[0]) > T0), bool(T(o[0]) > T0)
        Q = cp.Q.val
        if Q < 0:
            if a and b:
                return d - massless(cp)
            if not a and not b:
                return d + massless(cp)
        elif Q > 0:
            if a and b:
                return d + massless(cp)
            if b:
                return d - massless(cp)
            if not a and not cp.dissipative.val:
                return d - massless(cp)
        else:
            return d
    return None


def states(nw, env, diff):
    """Symbolic exergy data of all connections, power and heat."""
    T0 = env.var('Tamb', 250.0, 330.0)
    cp = nw.get_comp('c')
    cs = cp.inl + cp.outl
    for c in cs:
        k = c.label
        c.T.val_SI = env.var('T ' + k, 100.0, 2000.0)
        if type(cp).__name__ in SIMPLE:                 # the code works with a tolerance of 1e-6 K
            d = c.T.val_SI - T0
            env.assume(S.or_(S.as_b(d > 1e-3), S.as_b(d < -1e-3)) if S.is_sym(d) else abs(d) > 1e-3)
        elif diff:
            env.assume(c.T.val_SI != T0)
        c.ex_therm = env.var('e_T ' + k, -1e6, 1e6)
        c.ex_mech = env.var('e_M ' + k, -1e6, 1e6)
        c.ex_chemical = env.var('e_CH ' + k, 0.0, 1e7)
        c.ex_physical = c.ex_therm + c.ex_mech
        for s in ('therm', 'mech', 'physical', 'chemical'):
            setattr(c, 'Ex_' + s, getattr(c, 'ex_' + s) * c.m.val_SI)
    for s in ('P', 'Q'):
        if s in cp.parameters:
            cp.get_attr(s).val = env.var(s, -1e6, 1e6)
    if type(cp).__name__ == 'Merge':
        o = cp.outl[0]
        m = cons.total(cp.inl, cons.stream_mass)
        o.m.val_SI = m
        for s in ('therm', 'mech', 'physical', 'chemical'):
            setattr(o, 'Ex_' + s, getattr(o, 'ex_' + s) * m)
        if diff:
            env.assume(T(o) != T0)
    return cp, T0


def balance(diss, diff):
    def goals(nw, env):
        cp, T0 = states(nw, env, diff)
        n = type(cp).__name__
        if n in SIMPLE:
            cp.dissipative.val = diss
        cp.exergy_balance(T0)
        sc = 1e3
        for c in cp.inl + cp.outl:
            v = [getattr(c, 'Ex_' + s) for s in ('therm', 'mech', 'chemical')]
            sc = sc + (0 if env.symbolic else sum(abs(x) for x in v))
        out = []
        if diff:
            want = definition(cp, T0)
            if want:
                out += [Same('product exergy', cp.E_P, want[0], sc), Same('fuel exergy', cp.E_F, want[1], sc)]
            if n in TURBO:
                out.append(Same('exergy on the bus', massless(cp), -cp.P.val if 'Turbine' in n else cp.P.val, sc))
            if n == 'WaterElectrolyzer':
                out += [Same('fuel exergy', cp.E_F, cp.P.val, sc), Same('exergy on the bus', massless(cp), cp.P.val, sc)]
            if n == 'CombustionEngine':
                out.append(Same('exergy on the bus', massless(cp), -cp.P.val, sc))
            if n in ('Source', 'Sink'):
                c = (cp.inl + cp.outl)[0]
                out += [Same('physical exergy on the bus', cp.E_bus['physical'], ph(c), sc),
                        Same('chemical exergy on the bus', cp.E_bus['chemical'], ch(c), sc),
                        Same('no destruction', cp.E_D, NAN)]
        else:
            if not isnan(cp.E_F):
                w = expected_destruction(cp, T0)
                if w is not None and not (n == 'Merge' and T(cp.outl[0]) == T0):
                    out.append(Same('exergy destruction = exergy entering - leaving', cp.E_D, w, sc))
                if not (n == 'Merge' and isnan(cp.E_P)):
                    out.append(Same('exergy destruction = fuel - product', cp.E_D, cp.E_F if isnan(cp.E_P) else cp.E_F - cp.E_P, sc))
            if not isnan(cp.E_P) and not isnan(cp.E_F):
                if cp.E_F == 0:
                    out.append(Same('efficiency', cp.epsilon, NAN))
                else:
                    out.append(Same('efficiency', cp.epsilon, cp.E_P / cp.E_F, 1.0))
            for k, v in cp.E_bus.items():
                out.append(eqs.Holds('exergies on the bus by kind', k in ('chemical', 'physical', 'massless')))
        return out or [eqs.Holds('not defined here', isnan(cp.E_F) or isnan(cp.E_P) or definition(cp, T0) is None)]
    return goals


def second_law(nw, env):
    cp = nw.get_comp('c')
    p0, T0 = env.var('pamb', 0.5e5, 2e5), env.var('Tamb', 250.0, 330.0)
    for c in cp.inl + cp.outl:
        c.get_physical_exergy(p0, T0)
        c.get_chemical_exergy(p0, T0, None)
    cp.entropy_balance()
    cp.exergy_balance(T0)
    sc = cons.scale(cp.inl + cp.outl, lambda c: c.m.val_SI * c.h.val_SI)
    S_irr = cons.total(cp.outl, lambda c: c.m.val_SI * c.s.val_SI) - cons.total(cp.inl, lambda c: c.m.val_SI * c.s.val_SI)
    n = type(cp).__name__
    out = []
    if n != 'Drum':
        out.append(eqs.Eq('entropy production', cp.S_irr, S_irr, sc / 300.0))
    if not isnan(cp.E_D):
        out.append(eqs.Eq('exergy destruction = T0 * entropy production', cp.E_D, T0 * S_irr, sc))
    if n in HX:
        for k in (1, 2):
            sq, si = cp.get_attr(f'S_Q{k}'), cp.get_attr(f'S_irr{k}')
            i, o = cp.inl[k - 1], cp.outl[k - 1]
            out.append(eqs.Eq(f'entropy of heat and friction, side {k}', sq + si, i.m.val_SI * (o.s.val_SI - i.s.val_SI), sc / 300.0))
            out.append(eqs.Eq(f'mean temperature of heat transfer, side {k}', cp.get_attr(f'T_mQ{k}') * sq,
                              i.m.val_SI * (o.h.val_SI - i.h.val_SI), sc))
    return out


def simple_entropy(nw, env):
    cp = nw.get_comp('c')
    cp.entropy_balance()
    i, o = cp.inl[0], cp.outl[0]
    sc = cons.scale([i, o], lambda c: c.m.val_SI * c.h.val_SI)
    return [eqs.Eq('entropy of heat and friction', cp.S_Q + cp.S_irr, i.m.val_SI * (o.s.val_SI - i.s.val_SI), sc / 300.0),
            eqs.Eq('mean temperature of heat transfer', cp.T_mQ * cp.S_Q, i.m.val_SI * (o.h.val_SI - i.h.val_SI), sc)]


def builds():
    for n in TURBO + SIMPLE + HX + ('Valve',):
        yield n, comp_net(lambda n=n: K.get_class(n)('c'), [K.WATER] * K.n_in(n))
    for nm, mk, fl, kw, _ in K.plain():
        if nm in ('Merge 2 pure', 'Merge 3 pure', 'Drum', 'WaterElectrolyzer.-') or ('Combustion' in nm and nm.endswith('.-')):
            yield nm, comp_net(mk, fl, **kw)


def cases(tier):
    out = []
    for nm, b in builds():
        for diss in ((False, True) if nm in SIMPLE else (False,)):
            d = ' dissipative' if diss else ''
            out.append(Case(f'{nm}{d} definitions', lambda nm=nm, b=b, diss=diss, d=d: cons.case(
                f'{nm}{d} definitions', b, balance(diss, True), arbitrary=True, tiny=True, max_paths=400), limit=400))
            out.append(Case(f'{nm}{d} balance', lambda nm=nm, b=b, diss=diss, d=d: cons.case(
                f'{nm}{d} balance', b, balance(diss, False), arbitrary=True, tiny=True, max_paths=800), limit=400))
        if nm in TURBO + HX + ('Valve', 'Drum') or nm.startswith('Merge'):
            out.append(Case(f'{nm} second law', lambda nm=nm, b=b: cons.case(
                f'{nm} second law', b, second_law, after=c03.results, max_paths=400), limit=400))
        elif nm in SIMPLE:
            out.append(Case(f'{nm} entropy', lambda nm=nm, b=b: cons.case(
                f'{nm} entropy', b, simple_entropy, after=c03.results, max_paths=100), limit=100))
    return out
