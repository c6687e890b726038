"""J03: bus equations."""
from run import Case

from .. import catalog as K
from .. import net
from .. import sym as S
from . import eqs
from .jac import comp_net, jac_case

META = {
    'bounds': 'one or two busses with one to three components; bus power, reference power, states symbolic '
              '(|reference| in [1e3, 1e8] W); component based and bus based efficiency; reference value unset, '
              'or set; any characteristic',
    'assumptions': [
        'the characteristic of a bus is an arbitrary positive differentiable function with values in [0.05, 5]',
        'for bus based efficiencies the internal Newton search is replaced by a value that satisfies its '
        'equation exactly', 'fluid properties uninterpreted, finite differences exact, no zero denominators',
    ],
    'outside': 'convergence of the internal Newton search for the bus value',
}


def _dh(c, k=0):
    return c.inl[k].m.val_SI * (c.outl[k].h.val_SI - c.inl[k].h.val_SI)


# energy flow a component adds to a bus: independent statement of the convention
VALUE = {
    'Turbomachine': {None: _dh}, 'Pump': {None: _dh}, 'Turbine': {None: _dh}, 'Compressor': {None: _dh},
    'SimpleHeatExchanger': {None: _dh}, 'Pipe': {None: _dh}, 'SolarCollector': {None: _dh},
    'ParabolicTrough': {None: _dh},
    'HeatExchanger': {None: _dh}, 'Condenser': {None: _dh}, 'Desuperheater': {None: _dh},
    'MovingBoundaryHeatExchanger': {None: _dh},
    'CombustionChamber': {None: lambda c: c.calc_ti()},
    'DiabaticCombustionChamber': {None: lambda c: c.calc_ti()},
    'CombustionEngine': {'TI': lambda c: c.calc_ti(), 'P': lambda c: c.calc_P(),
                         'Q': lambda c: -_dh(c, 0) - _dh(c, 1), 'Q1': lambda c: -_dh(c, 0),
                         'Q2': lambda c: -_dh(c, 1), 'Qloss': lambda c: c.calc_Qloss()},
    'WaterElectrolyzer': {'P': lambda c: c.calc_P(), 'Q': lambda c: -_dh(c, 0)},
}
H2O = {'H2O': 1}
PORTS = {
    'CombustionChamber': ([K.AIR, K.FUEL], {'variable_fluids': K.FLUE, 'mixing': 'ideal'}),
    'DiabaticCombustionChamber': ([K.AIR, K.FUEL], {'variable_fluids': K.FLUE, 'mixing': 'ideal'}),
    'CombustionEngine': ([H2O, H2O, K.AIR, K.FUEL], {'variable_fluids': K.FLUE, 'mixing': 'ideal'}),
    'WaterElectrolyzer': ([H2O, H2O], {'engines': ['O2', 'H2']}),
}


def with_bus(base, param, ref, nbus=1):
    def f(nw, comp):
        from tespy.connections import Bus
        bs = []
        for i in range(nbus):
            b = Bus(f'bus{i}', P=1.0)
            d = {'comp': comp, 'base': base}
            if param:
                d['param'] = param
            b.add_comps(d)
            bs.append(b)
        nw.add_busses(*bs)
    return f


def prep(n, base, param, ref, nbus=1):
    fl, kw = PORTS.get(n, ([K.WATER] * K.n_in(n), {}))
    b = comp_net(lambda: K.get_class(n)('c'), fl, busses=with_bus(base, param, ref, nbus), **kw)

    def build():
        nw, inp = b()
        for bus in nw.busses.values():
            inp.add(f'{bus.label}.P', net._setter(bus.P, 'val'), -1e8, 1e8)
            bus.comps = bus.comps.astype(object)
            for cp in bus.comps.index:
                if ref == 0:
                    bus.comps.at[cp, 'P_ref'] = 0.0
                elif ref:
                    inp.add(f'{bus.label}.{cp.label}.P_ref', _at(bus, cp), *ref)
        return nw, inp
    return build


def _at(bus, cp):
    def f(v):
        bus.comps.at[cp, 'P_ref'] = v
    return f


def balance(vals, mode='offdesign'):
    """residual = P - sum of bus values; results table; bus total."""
    def run(o, env):
        nw, inp = o
        net.warm_up(nw)
        if env.symbolic:
            net.to_object(nw)
        env.assign(inp)
        net.rebuild_fluid_data(nw)
        P0 = {b.label: b.P.val for b in nw.busses.values()}
        res, _ = net.evaluate(nw, env.symbolic)
        out = []
        rows = net.row_names(nw)
        from ..table import Table
        cols = ['component value', 'bus value', 'efficiency', 'design value']
        refs = {}
        for b in nw.busses.values():
            nw.results[b.label] = Table(cols)
            for cp in b.comps.index:
                refs[b.label, cp.label] = b.comps.at[cp, 'P_ref']
        nw.mode = mode
        nw.process_busses()
        for b in nw.busses.values():
            want = 0
            for cp in b.comps.index:
                row = b.comps.loc[cp]
                v = vals(cp, row['param'])
                P_ref = refs[b.label, cp.label]
                ch = row['char'].evaluate
                tab = nw.results[b.label].loc[cp.label]
                bv, eff = tab['bus value'], tab['efficiency']
                env.roots(bv, eff)
                noref = not S.is_sym(P_ref) and (P_ref != P_ref or P_ref == 0)
                want += bv
                kept = b.comps.at[cp, 'P_ref']
                if mode == 'design':
                    d = v if row['base'] == 'component' else bv
                    out.append(eqs.Eq(f'{b.label}: reference value of {cp.label}', kept, d, 1.0, rel=1e-5))
                    out.append(eqs.Eq(f'{b.label}: design value of {cp.label}', tab['design value'], d, 1.0, rel=1e-5))
                else:
                    out.append(eqs.Eq(f'{b.label}: reference value of {cp.label}', kept, P_ref))
                    out.append(eqs.Eq(f'{b.label}: design value of {cp.label}', tab['design value'], P_ref))
                out.append(eqs.Eq(f'{b.label}: component value of {cp.label}', tab['component value'], v, 1.0))
                if row['base'] == 'component':
                    e = ch(1.0) if noref else ch(abs(v / P_ref))
                    out.append(eqs.Eq(f'{b.label}: efficiency of {cp.label}', eff, e, rel=1e-5))
                    out.append(eqs.Eq(f'{b.label}: bus value of {cp.label}', bv, v * e, 1.0, rel=1e-5))
                else:
                    e = ch(1.0) if noref else ch(bv / P_ref)
                    out.append(eqs.Eq(f'{b.label}: efficiency of {cp.label}', eff, e, rel=1e-3))
                    out.append(eqs.Eq(f'{b.label}: bus value of {cp.label}', bv * e, v, 1.0, rel=1e-3))
            out.append(eqs.Eq(f'{b.label}: total', b.P.val, want, 1.0, rel=1e-5))
            r = [i for i, x in enumerate(rows) if x == f'bus {b.label}'][0]
            out.append(eqs.Eq(f'{b.label}: residual', res[r], P0[b.label] - want,
                              abs(P0[b.label]), rel=1e-5))
        return out
    return run


def chain(n, base):
    """n heat exchangers in one branch (shared mass flow) on two busses."""
    def build():
        from tespy.components import SimpleHeatExchanger, Sink, Source, Turbine, Valve
        from tespy.connections import Bus, Connection
        from .. import fluids
        eng = fluids.StubFluid()
        nw = net.new_network()
        cs = [SimpleHeatExchanger('a'), Turbine('b'), SimpleHeatExchanger('d')][:n]
        path = [Source('s')] + cs + [Sink('t')]
        conns = [Connection(x, 'out1', y, 'in1', label=f'k{i}') for i, (x, y) in enumerate(zip(path, path[1:]))]
        for c in conns:
            c.set_attr(fluid_engines={'water': eng})
        conns[0].set_attr(fluid={'water': 1})
        nw.add_conns(*conns)
        b1, b2 = Bus('b1', P=1.0), Bus('b2', P=2.0)
        for i, c in enumerate(cs):
            b1.add_comps({'comp': c, 'base': base})
            if i != 1:
                b2.add_comps({'comp': c, 'base': 'component' if base == 'bus' else 'bus'})
        nw.add_busses(b1, b2)
        net.initialise(nw)
        net.char_stubs(nw)
        inp = net.state_inputs(nw)
        for bus in nw.busses.values():
            inp.add(f'{bus.label}.P', net._setter(bus.P, 'val'), -1e8, 1e8)
            bus.comps = bus.comps.astype(object)
            for cp in bus.comps.index:
                inp.add(f'{bus.label}.{cp.label}.P_ref', _at(bus, cp), 1e3, 1e8)
        return nw, inp
    return build


def cases(tier):
    out = []
    for n, ps in VALUE.items():
        for p, val in ps.items():
            for base in ('component', 'bus'):
                nm = f'{n} {p or ""} base {base}, design mode'
                b = prep(n, base, p, None)
                out.append(Case('balance ' + nm, lambda nm=nm, b=b, val=val: eqs.case(
                    'balance ' + nm, balance(lambda cp, p, val=val: val(cp), 'design'), b, cross=1), limit=120))
                for rn, ref in (('no reference', None), ('zero reference', 0.0), ('reference', (1e3, 1e8)), ('negative reference', (-1e8, -1e3))):
                    if rn in ('negative reference', 'zero reference') and n not in ('Turbine', 'SimpleHeatExchanger', 'CombustionEngine'):
                        continue
                    nm = f'{n} {p or ""} base {base}, {rn}'
                    b = prep(n, base, p, ref)
                    out.append(Case('jacobian ' + nm, lambda nm=nm, b=b: jac_case(
                        'jacobian ' + nm, b, cross=1, rows=lambda r: r.startswith('bus'),
                        cols=lambda r, v: not v.startswith('x_')), limit=120))
                    out.append(Case('balance ' + nm, lambda nm=nm, b=b, val=val: eqs.case(
                        'balance ' + nm, balance(lambda cp, p, val=val: val(cp)), b, cross=1), limit=120))
    for k in (2, 3):
        for base in ('component', 'bus'):
            nm = f'{k} components on two busses, base {base}'
            b = chain(k, base)
            out.append(Case('jacobian ' + nm, lambda nm=nm, b=b: jac_case(
                'jacobian ' + nm, b, rows=lambda r: r.startswith('bus'), cross=1), limit=120))
            out.append(Case('balance ' + nm, lambda nm=nm, b=b: eqs.case(
                'balance ' + nm, balance(lambda cp, p: _dh(cp)), b, cross=1), limit=120))
    return out
