"""C02: species and element conservation."""
from run import Case

from .. import catalog as K
from .. import net
from .. import sym as S
from . import cons, eqs, nets
from .c01 import flows
from .jac import comp_net

META = {
    'bounds': 'pass-through components with pure fluid and mixture; nodes with 2 and 3 ports and up to 3 species; '
              'combustion of one to three fuels on both inlets, lean and rich; fuel cell, electrolyzer; the networks of '
              'vs/props/nets.py; m, p, h in the ranges of vs/net.py, mass fractions in [0.05, 0.9], around reactions in [0, 0.95]'
              '; every feasible path',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties uninterpreted, molar masses '
                    'those of CoolProp', 'finite differences exact, no zero denominators'],
    'outside': 'agreement of the molar masses with the atomic weights',
}
ATOMS = {'CH4': dict(C=1, H=4), 'ethane': dict(C=2, H=6), 'propane': dict(C=3, H=8), 'H2': dict(H=2),
         'n-Butane': dict(C=4, H=10), 'O2': dict(O=2), 'CO2': dict(C=1, O=2), 'H2O': dict(H=2, O=1),
         'water': dict(H=2, O=1), 'N2': dict(N=2), 'Ar': dict(Ar=1)}
REACT = ('CombustionChamber', 'DiabaticCombustionChamber', 'CombustionEngine', 'FuelCell', 'WaterElectrolyzer')


def reaction(cp):
    n = type(cp).__name__
    if n == 'CombustionEngine':
        return cp.inl[2:], cp.outl[2:]
    if n == 'FuelCell':
        return cp.inl[1:], cp.outl[1:]
    if n == 'WaterElectrolyzer':
        return cp.inl[1:], cp.outl[1:]
    return cp.inl, cp.outl


def species(nw, env):
    out = []
    for cp in nw.comps['object']:
        if not cp.inl or not cp.outl:
            continue
        react = type(cp).__name__ in REACT
        if react:
            a, b = reaction(cp)
            M = {}
            for c in a + b:
                for f, w in c.fluid.wrapper.items():
                    M[f] = w._molar_mass
            els = sorted({e for c in a + b for f in c.fluid.val for e in ATOMS[f]})
            for e in els:
                def n(c):
                    return c.m.val_SI * cons.total(
                        [f for f in sorted(c.fluid.val) if e in ATOMS[f]],
                        lambda f: c.fluid.val[f] * (ATOMS[f][e] / M[f]))
                out.append(eqs.Eq(f'{e} balance of {cp.label}', cons.total(a, n), cons.total(b, n),
                                  cons.scale(a + b, n), near=(1e3 if 'Combustion' in type(cp).__name__ else 1e6) * cons.total(a, cons.stream_mass)))
            if 'Combustion' in type(cp).__name__:
                o = b[0]
                for f in sorted(o.fluid.val):
                    if f in ('N2', 'Ar'):
                        def m(c):
                            return c.m.val_SI * cons.frac(c, f)
                        out.append(eqs.Eq(f'{f} passes {cp.label}', cons.total(a, m), cons.total(b, m),
                                          cons.scale(a + b, m)))
        for ins, outs in flows(cp):
            a, b = [cp.inl[i] for i in ins], [cp.outl[i] for i in outs]
            if react and len(ins) + len(outs) > 2:
                continue
            fls = sorted({f for c in a + b for f in c.fluid.val})
            for f in fls:
                if len(a) == len(b) == 1:
                    out.append(eqs.Eq(f'fraction of {f} through {cp.label}', cons.frac(a[0], f), cons.frac(b[0], f), 1.0))
                    continue

                def m(c):
                    return c.m.val_SI * cons.frac(c, f)
                out.append(eqs.Eq(f'{f} balance of {cp.label}', cons.total(a, m), cons.total(b, m),
                                  cons.scale(a + b, m)))
            if type(cp).__name__ in ('Splitter', 'DropletSeparator', 'Drum'):
                for f in fls:
                    for o in b:
                        out.append(eqs.Eq(f'fraction of {f} at {o.label}', cons.frac(o, f), cons.frac(a[0], f), 1.0))
    return out


FUELS = {
    'CH4': dict(AIR={'N2': 0.75, 'O2': 0.25}, FUEL={'CH4': 0.9, 'N2': 0.1}),
    'H2': dict(AIR={'N2': 0.75, 'O2': 0.25}, FUEL={'H2': 0.9, 'N2': 0.1}),
    'CH4 + H2': dict(AIR={'N2': 0.75, 'O2': 0.25}, FUEL={'CH4': 0.6, 'H2': 0.3, 'CO2': 0.1}),
    'CH4 + C2H6 + C3H8': dict(AIR={'N2': 0.75, 'O2': 0.2, 'Ar': 0.05}, FUEL={'CH4': 0.6, 'ethane': 0.3, 'propane': 0.1}),
    'CH4 in both inlets': dict(AIR={'N2': 0.7, 'O2': 0.2, 'CH4': 0.1}, FUEL={'CH4': 0.6, 'H2': 0.4}),
    'humid air': dict(AIR={'N2': 0.7, 'O2': 0.2, 'H2O': 0.1}, FUEL={'CH4': 1}),
}


def builds():
    for n in K.PURE:
        yield n, comp_net(lambda n=n: K.get_class(n)('c'), [K.WATER] * K.n_in(n))
        if n not in ('Condenser', 'Desuperheater', 'SteamTurbine'):
            yield n + ' mixture', comp_net(lambda n=n: K.get_class(n)('c'), [K.MIX] * K.n_in(n), mixing='ideal')
    for nm, mk, fl, kw, _ in K.plain():
        if ('.' in nm and not nm.endswith('.-')) or 'Combustion' in nm:
            continue
        yield nm, comp_net(mk, fl, **kw)
    for nm, b in nets.NETS.items():
        yield nm, b
    for fn, d in FUELS.items():
        sp = sorted(set(d['AIR']) | set(d['FUEL']) | {'CO2', 'H2O', 'O2', 'N2'})
        kw = {'variable_fluids': sp, 'mixing': 'ideal', 'x_range': (0.0, 0.95)}
        for n in REACT[:3]:
            pre = [{'H2O': 1}] * 2 if n == 'CombustionEngine' else []
            for lam in (False, True):
                k2 = {'lamb': 2.0} if lam else {}
                yield f'{n} {fn}' + (', lamb' if lam else ''), comp_net(
                    lambda n=n, k2=k2: K.get_class(n)('c', **k2), pre + [d['AIR'], d['FUEL']], **kw)


def cases(tier):
    return [Case(nm, lambda nm=nm, b=b: cons.case(nm, b, species, cross=1, max_paths=24), limit=200)
            for nm, b in builds()]
