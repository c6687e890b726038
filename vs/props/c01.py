"""C01: mass conservation."""
from run import Case

from .. import catalog as K
from .. import net
from . import cons, eqs, nets
from .jac import comp_net

META = {
    'bounds': 'every component on its own with all connections symbolic (nodes with 2 and 3 ports), and the networks '
              'of vs/props/nets.py; m, p, h, compositions in the ranges of vs/net.py; every feasible path',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties uninterpreted',
                    'finite differences exact, no zero denominators'],
    'outside': 'residual tolerance of a converged solution (see V02)',
}

# component -> list of (inlets, outlets) between which mass is conserved
FLOWS = {
    'Merge': 'all', 'Splitter': 'all', 'Separator': 'all', 'DropletSeparator': 'all', 'Drum': 'all',
    'CombustionChamber': 'all', 'DiabaticCombustionChamber': 'all',
    'CombustionEngine': [((0,), (0,)), ((1,), (1,)), ((2, 3), (2,))],
    'FuelCell': [((0,), (0,)), ((1, 2), (1,))],
    'WaterElectrolyzer': [((0,), (0,)), ((1,), (1, 2))],
}


def flows(cp):
    f = FLOWS.get(type(cp).__name__)
    if f == 'all':
        return [(tuple(range(len(cp.inl))), tuple(range(len(cp.outl))))]
    if f is None:
        return [((i,), (i,)) for i in range(len(cp.inl))]
    return f


def near(nw, conns):
    """Stoichiometric constants of the reactors are floats."""
    if any(type(c).__name__ in ('FuelCell', 'WaterElectrolyzer') for c in nw.comps['object']):
        return cons.total(conns, cons.stream_mass)


def mass(nw, env):
    out = []
    for cp in nw.comps['object']:
        if not cp.inl or not cp.outl:
            continue
        for k, (ins, outs) in enumerate(flows(cp)):
            a, b = [cp.inl[i] for i in ins], [cp.outl[i] for i in outs]
            out.append(eqs.Eq(f'mass balance {k} of {cp.label}', cons.total(a, cons.stream_mass),
                              cons.total(b, cons.stream_mass), cons.scale(a + b, cons.stream_mass), near=near(nw, a)))
    ext_in = [c for c in nw.conns['object'] if type(c.source).__name__ == 'Source']
    ext_out = [c for c in nw.conns['object'] if type(c.target).__name__ == 'Sink']
    if ext_in and ext_out:
        out.append(eqs.Eq('mass balance of the network', cons.total(ext_in, cons.stream_mass),
                          cons.total(ext_out, cons.stream_mass), cons.scale(ext_in + ext_out, cons.stream_mass), near=near(nw, ext_in)))
    return out


def builds():
    for n in K.PURE:
        yield n, comp_net(lambda n=n: K.get_class(n)('c'), [K.WATER] * K.n_in(n))
    for nm, mk, fl, kw, _ in K.plain():
        if '.' in nm and not nm.endswith('.-'):
            continue
        if 'Combustion' in nm:
            kw = dict(kw, x_range=(0.0, 0.95))            # burnt completely
        yield nm, comp_net(mk, fl, **kw)
        n = len(mk().inlets()) + len(mk().outlets())
        for i in range(n):
            yield f'{nm}, m of connection {i} given', comp_net(
                mk, fl, specs=lambda c, i=i: c[i].set_attr(m=1.0), **kw)
    for nm, b in nets.NETS.items():
        yield nm, b


def cases(tier):
    return [Case(nm, lambda nm=nm, b=b: cons.case(nm, b, mass, cross=1), limit=150) for nm, b in builds()]
