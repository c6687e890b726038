"""C04: states coupled across nodes, phase separators and reactors."""
from run import Case

from .. import catalog as K
from . import cons, eqs, nets
from .jac import comp_net

META = {
    'bounds': 'every node (2 and 3 ports), phase separator, condenser, desuperheater, reactor and pass-through '
              'component on its own, and the networks of vs/props/nets.py; m, p, h, compositions in the ranges of '
              'vs/net.py; every feasible path',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties uninterpreted',
                    'finite differences exact, no zero denominators'],
    'outside': '',
}


def h_sat(c, Q):
    from tespy.tools.fluid_properties import h_mix_pQ
    return c.fluid.wrapper[next(iter(c.fluid.val))].h_pQ(c.p.val_SI, Q) if len(c.fluid.val) == 1 else \
        h_mix_pQ(c.p.val_SI, Q, c.fluid_data)


def coupling(nw, env):
    out = []

    def same(what, a, b, attr):
        x, y = a.get_attr(attr).val_SI, b.get_attr(attr).val_SI
        out.append(eqs.Eq(f'{what}: {attr} of {b.label}', x, y))

    for cp in nw.comps['object']:
        n = type(cp).__name__
        i, o = cp.inl, cp.outl
        if n in ('Merge', 'Splitter', 'Separator', 'DropletSeparator', 'Drum', 'CombustionChamber'):
            for c in (i + o)[1:]:
                same(n, i[0], c, 'p')
        if n == 'Splitter':
            for c in o:
                same(n, i[0], c, 'h')
        if n == 'Separator':
            for c in o:
                out.append(eqs.Eq(f'temperature of {c.label}', i[0].calc_T(), c.calc_T(), rel=1e-5))
        if n in ('DropletSeparator', 'Drum'):
            out.append(eqs.Eq('liquid outlet is saturated', o[0].h.val_SI, h_sat(o[0], 0)))
            out.append(eqs.Eq('vapour outlet is saturated', o[1].h.val_SI, h_sat(o[1], 1)))
        if n == 'Condenser':
            out.append(eqs.Eq('condensate is saturated', o[0].h.val_SI, h_sat(o[0], 0)))
        if n == 'Desuperheater':
            out.append(eqs.Eq('hot outlet is saturated vapour', o[0].h.val_SI, h_sat(o[0], 1)))
        if n in ('CycleCloser', 'SubsystemInterface'):
            for a, b in zip(i, o):
                same(n, a, b, 'p')
                same(n, a, b, 'h')
        if n == 'Valve':
            same(n, i[0], o[0], 'h')
        if n == 'CombustionEngine':
            same(n, o[2], i[2], 'p')
            same(n, o[2], i[3], 'p')
        if n == 'FuelCell':
            same(n, o[1], i[1], 'p')
            same(n, o[1], i[2], 'p')
        if n == 'WaterElectrolyzer':
            same(n, i[1], o[1], 'p')
            same(n, i[1], o[2], 'p')
            out.append(eqs.Eq('product gases have one temperature', o[1].calc_T(), o[2].calc_T(), rel=1e-5))
    return out


def builds():
    C = K.get_class
    for n in ('Valve', 'Condenser', 'Desuperheater'):
        yield n, comp_net(lambda n=n: C(n)('c'), [K.WATER] * K.n_in(n))
    for nm, mk, fl, kw, _ in K.plain():
        if '.' in nm and not nm.endswith('.-') or nm.startswith('Dia'):
            continue
        if 'Combustion' in nm:
            kw = dict(kw, x_range=(0.0, 0.95))
        yield nm, comp_net(mk, fl, **kw)
    yield 'Condenser with subcooling of a pure fluid off', comp_net(
        lambda: C('Condenser')('c', subcooling=False), [K.WATER] * 2)
    for nm, b in nets.NETS.items():
        yield nm, b


def cases(tier):
    return [Case(nm, lambda nm=nm, b=b: cons.case(nm, b, coupling, cross=1), limit=150) for nm, b in builds()]
