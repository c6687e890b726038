"""C03: energy conservation."""
from run import Case

from .. import catalog as K
from .. import net
from .. import sym as S
from . import cons, eqs, nets
from .c02 import ATOMS, FUELS, REACT, reaction
from .jac import comp_net

META = {
    'bounds': 'every component on its own (nodes with 2 and 3 ports), combustion of one to three fuels lean and rich, '
              'and the networks of vs/props/nets.py; m, p, h, compositions in the ranges of vs/net.py; every feasible path',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties uninterpreted',
                    'reference enthalpies as returned by the library (M01), heats of formation of the documentation',
                    'finite differences exact, no zero denominators'],
    'outside': 'the separator (it equates temperatures, documented)',
}
HF = {'H2': 0, 'CH4': -74.6, 'ethane': -84.0, 'propane': -103.8}      # kJ/mol
TURBO = ('Turbomachine', 'Compressor', 'Pump', 'Turbine', 'SteamTurbine')
SIMPLE = ('SimpleHeatExchanger', 'Pipe', 'ParabolicTrough', 'SolarCollector')
HX = ('HeatExchanger', 'Condenser', 'Desuperheater', 'MovingBoundaryHeatExchanger')


def flow(c):
    return c.m.val_SI * c.h.val_SI


def href(c, rule):
    from tespy.tools.fluid_properties import h_mix_pT
    c.build_fluid_data()
    return h_mix_pT(1e5, 298.15, c.fluid_data, rule)


def lhv(f, M):
    a = ATOMS[f]
    return (HF[f] - a.get('H', 0) / 2 * -241.826 - a.get('C', 0) * -393.51) * 1e3 / M


def energy(nw, env):
    out = []
    ext = {}
    for cp in nw.comps['object']:
        if not cp.inl or not cp.outl:
            continue
        n = type(cp).__name__
        if n == 'Separator':
            continue
        e_in, e_out = cons.total(cp.inl, flow), cons.total(cp.outl, flow)
        sc = cons.scale(cp.inl + cp.outl, flow)
        add = 0
        near = None
        if n in TURBO:
            add = cp.P.val
        elif n in SIMPLE:
            add = cp.Q.val
        elif n in HX:
            out.append(eqs.Eq(f'heat of {cp.label}, hot side', flow(cp.outl[0]) - flow(cp.inl[0]), cp.Q.val, sc))
            out.append(eqs.Eq(f'heat of {cp.label}, cold side', flow(cp.inl[1]) - flow(cp.outl[1]), cp.Q.val, sc))
        elif n in ('Valve', 'CycleCloser', 'SubsystemInterface', 'Splitter'):
            for k, o in enumerate(cp.outl):
                i = cp.inl[0 if n == 'Splitter' else k]
                out.append(eqs.Eq(f'enthalpy of {cp.label} {k}', i.h.val_SI, o.h.val_SI, abs(o.h.val_SI)))
            if n != 'Splitter':
                continue
        elif n in REACT:
            a, b = reaction(cp)
            near = 1e6 * cons.total(a, cons.stream_mass)
            if 'Combustion' in n:
                fuels = sorted({f for c in a + b for f in c.fluid.val if f in HF})
                ti = cons.total(a, lambda c: c.m.val_SI * cons.total(
                    fuels, lambda f: cons.frac(c, f) * lhv(f, c.fluid.wrapper[f]._molar_mass)))
                ti = ti - cons.total(b, lambda c: c.m.val_SI * cons.total(
                    fuels, lambda f: cons.frac(c, f) * lhv(f, c.fluid.wrapper[f]._molar_mass)))
                out.append(eqs.Eq(f'thermal input of {cp.label}', cp.ti.val, ti, sc, near=near))
                h0 = cons.total(a, lambda c: c.m.val_SI * href(c, 'forced-gas')) \
                    - cons.total(b, lambda c: c.m.val_SI * href(c, 'forced-gas'))
                add = ti - h0
                if n.startswith('Dia'):
                    add = add + cp.Q_loss.val
                if n == 'CombustionEngine':
                    P, Ql = nw.solved[cp.label]
                    out.append(eqs.Eq(f'power of {cp.label}', cp.P.val, P, sc))
                    out.append(eqs.Eq(f'heat loss of {cp.label}', cp.Qloss.val, Ql, sc))
                    add = add + P + Ql
                    for i in (0, 1):
                        out.append(eqs.Eq(f'heat {i + 1} of {cp.label}', cp.get_attr(f'Q{i + 1}').val,
                                          flow(cp.inl[i]) - flow(cp.outl[i]), sc))
            else:
                h0 = cons.total(a, lambda c: c.m.val_SI * href(c, c.mixing_rule)) \
                    - cons.total(b, lambda c: c.m.val_SI * href(c, c.mixing_rule))
                H2 = a[1] if n == 'FuelCell' else b[1]
                e0 = 286000 / H2.fluid.wrapper['H2']._molar_mass
                add = (H2.m.val_SI if n == 'FuelCell' else -H2.m.val_SI) * e0 - h0 + cp.P.val
                out.append(eqs.Eq(f'heat of {cp.label}', cp.Q.val, flow(cp.inl[0]) - flow(cp.outl[0]), sc))
        ext[cp.label] = add
        out.append(eqs.Eq(f'energy balance of {cp.label}', e_out, e_in + add, sc, near=near))
    if len(ext) > 1:
        a = [c for c in nw.conns['object'] if type(c.source).__name__ == 'Source']
        b = [c for c in nw.conns['object'] if type(c.target).__name__ == 'Sink']
        out.append(eqs.Eq('energy balance of the network', cons.total(b, flow),
                          cons.total(a, flow) + cons.total(list(ext.values()), lambda x: x),
                          cons.scale(nw.conns['object'], flow)))
    return out


def results(nw, env):
    for c in nw.conns['object']:
        if c.T.is_set and env.symbolic:
            env.assume(c.T.val_SI == c.calc_T())
        c.T.val_SI = c.calc_T()
        c.s.val_SI = c.calc_s()
        c.vol.val_SI = c.calc_vol()
        c.v.val_SI = c.vol.val_SI * c.m.val_SI
    nw.solved = {}
    for cp in nw.comps['object']:
        if type(cp).__name__ == 'CombustionEngine':
            nw.solved[cp.label] = cp.P.val, cp.Qloss.val
        if type(cp).__name__.startswith('Moving'):     # its report has too many paths: balance only
            cp.Q.val = flow(cp.outl[0]) - flow(cp.inl[0])
            continue
        cp.calc_parameters()


def builds():
    for n in K.PURE:
        yield n, comp_net(lambda n=n: K.get_class(n)('c'), [K.WATER] * K.n_in(n))
    for nm, mk, fl, kw, _ in K.plain():
        if ('.' in nm and not nm.endswith('.-')) or 'Combustion' in nm:
            continue
        if not nm.startswith('Separator'):
            yield nm, comp_net(mk, fl, **kw)
    for nm, b in nets.NETS.items():
        yield nm, b
    for fn, d in FUELS.items():
        sp = sorted(set(d['AIR']) | set(d['FUEL']) | {'CO2', 'H2O', 'O2', 'N2'})
        kw = {'variable_fluids': sp, 'mixing': 'ideal', 'x_range': (0.0, 0.95)}
        for n in REACT[:3]:
            pre = [{'H2O': 1}] * 2 if n == 'CombustionEngine' else []
            extra = {'DiabaticCombustionChamber': {'eta': 0.9}}.get(n, {})
            yield f'{n} {fn}', comp_net(
                lambda n=n, extra=extra: K.get_class(n)('c', **extra), pre + [d['AIR'], d['FUEL']], **kw)


def cases(tier):
    return [Case(nm, lambda nm=nm, b=b: cons.case(nm, b, energy, after=results, cross=1, max_paths=64,
                                                rows=lambda r: 'stoich' not in r), limit=200)
            for nm, b in builds()]
