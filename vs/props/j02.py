"""J02: Jacobian entries of connection specifications and references."""
from run import Case

from .. import catalog as K
from .. import net
from .jac import comp_net, jac_case

META = {
    'bounds': 'two connections of one branch, or four of two branches; one specification per case; pure fluid, '
              'two-component mixture with fixed and with variable composition; every feasible path; '
              f'm {net.M_RANGE}, p {net.P_RANGE}, h {net.H_RANGE}, mass fractions {net.X_RANGE}, '
              'reference factor [0.1, 10], difference [-1000, 1000]',
    'assumptions': [
        'fluid properties are uninterpreted functions (vs/fluids.py)',
        'finite differences of fluid properties are replaced by exact derivatives (N01), the temperature '
        'inversion by an uninterpreted function (N02)',
        'no denominator is zero; real arithmetic',
    ],
    'outside': 'composition columns of volumetric flow specifications (no composition derivative in the code)',
}

MIX = {'N2': 0.7, 'O2': 0.3}


def _cols(row, var):
    return not (var.startswith('x_') and row.endswith((':v', ':v_ref')))


def one(name, fl, spec, two=False, **kw):
    mk = (lambda: K.get_class('HeatExchanger')('c')) if two else (lambda: K.get_class('SimpleHeatExchanger')('c'))
    b = comp_net(mk, fl, specs=spec, **kw)
    return Case(name, lambda: jac_case(name, b, cross=1, cols=_cols,
                                       rows=lambda r: not r.startswith('c:')), limit=120)


def cases(tier):
    from tespy.connections import Ref
    out = []
    W = K.WATER
    kinds = {
        'pure': (lambda n: dict(fl=[W] * n)),
        'mixture': (lambda n: dict(fl=[MIX] * n, mixing='ideal')),
        'mixture ideal-cond': (lambda n: dict(fl=[MIX] * n, mixing='ideal-cond')),
    }
    for kn, kf in kinds.items():
        for p in ('T', 'v', 'x', 'Td_bp'):
            if p in ('x', 'Td_bp') and kn != 'pure':
                continue
            out.append(one(f'{p} set, {kn}', spec=lambda c, p=p: c[0].set_attr(**{p: 1.0}), **kf(1)))
        for p in ('m', 'p', 'h', 'T', 'v'):
            if p != 'm':
                out.append(one(f'{p} = Ref in the same branch, {kn}', spec=lambda c, p=p: c[1].set_attr(
                    **{p: Ref(c[0], 1.5, 0.1)}), **kf(1)))
            out.append(one(f'{p} = Ref to another branch, {kn}', two=True, spec=lambda c, p=p: c[3].set_attr(
                **{p: Ref(c[0], 1.5, 0.1)}), **kf(2)))
    def v(name, spec):
        b = merged(spec)
        out.append(Case(name, lambda: jac_case(name, b, cross=1, cols=_cols, rows=lambda r: not r.startswith(
            ('m:', 'c:'))), limit=120))
    for p in ('T', 'v'):
        v(f'{p} set, variable mixture', lambda c, p=p: c[2].set_attr(**{p: 1.0}))
    for p in ('p', 'h', 'T', 'v'):
        v(f'{p} = Ref in the same branch, variable mixture',
          lambda c, p=p: c[3].set_attr(**{p: Ref(c[2], 1.5, 0.1)}))
    for p in ('m', 'p', 'h', 'T', 'v'):
        v(f'{p} = Ref to a variable mixture', lambda c, p=p: c[0].set_attr(**{p: Ref(c[2], 1.5, 0.1)}))
        v(f'{p} of a variable mixture = Ref', lambda c, p=p: c[2].set_attr(**{p: Ref(c[0], 1.5, 0.1)}))
    v('fluid balance of a variable mixture', lambda c: c[2].set_attr(fluid_balance=True))
    return out


def merged(spec):
    """Two sources of different composition -> merge -> heat exchanger."""
    def build():
        from tespy.components import Merge, SimpleHeatExchanger, Sink, Source
        from tespy.connections import Connection
        from .. import fluids
        eng = fluids.StubFluid()
        nw = net.new_network()
        m, c = Merge('m'), SimpleHeatExchanger('c')
        conns = [Connection(Source('a'), 'out1', m, 'in1', label='i0'),
                 Connection(Source('b'), 'out1', m, 'in2', label='i1'),
                 Connection(m, 'out1', c, 'in1', label='v0'),
                 Connection(c, 'out1', Sink('s'), 'in1', label='v1')]
        comp = [{'N2': 0.7, 'O2': 0.3}, {'O2': 0.5, 'CO2': 0.5}, None, None]
        for x, f in zip(conns, comp):
            kw = {'fluid': f} if f else {}
            x.set_attr(mixing_rule='ideal', fluid_engines={f: eng for f in ('N2', 'O2', 'CO2')}, **kw)
        spec(conns)
        nw.add_conns(*conns)
        net.initialise(nw)
        inp = net.state_inputs(nw)
        return nw, inp
    return build
