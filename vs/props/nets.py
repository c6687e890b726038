"""Small networks of several components."""
from .. import net

NETS = {}
W = {'water': 1}


def network(f):
    def build():
        from .. import fluids
        from tespy import components as C
        from tespy.components.component import component_registry
        from tespy.connections import Connection
        eng = fluids.StubFluid()
        nw = net.new_network()
        conns = []

        def K(cls, label, **kw):
            return getattr(C, cls)(label, **kw)

        def con(a, ao, b, bi, **kw):
            c = Connection(a, ao, b, bi, label=f'k{len(conns)}')
            eng_f = {f: eng for f in ('water', 'H2O', 'N2', 'O2', 'CO2', 'CH4', 'H2', 'Ar', 'R134a', 'CO', 'C2H6',
                                      'C3H8', 'air')}
            c.set_attr(fluid_engines=eng_f, **kw)
            conns.append(c)
            return c
        bus = f(K, con)
        nw.add_conns(*conns)
        if bus:
            nw.add_busses(*bus)
        net.initialise(nw)
        net.char_stubs(nw)
        inp = net.state_inputs(nw)
        net.param_inputs(nw, inp, design=False)
        return nw, inp
    NETS[f.__doc__] = build
    return build


@network
def heat_pump(K, con):
    """closed heat pump cycle"""
    cc, ev, cp, cd, va = K('CycleCloser', 'cc'), K('SimpleHeatExchanger', 'ev'), K('Compressor', 'cp'), \
        K('SimpleHeatExchanger', 'cd'), K('Valve', 'va')
    con(cc, 'out1', ev, 'in1', fluid={'R134a': 1})
    con(ev, 'out1', cp, 'in1')
    con(cp, 'out1', cd, 'in1')
    con(cd, 'out1', va, 'in1')
    con(va, 'out1', cc, 'in1')


@network
def split_merge(K, con):
    """splitter and merge in parallel branches"""
    s, m, a, b = K('Splitter', 's', num_out=3), K('Merge', 'm', num_in=3), K('SimpleHeatExchanger', 'a'), K('Valve', 'b')
    con(K('Source', 'so'), 'out1', s, 'in1', fluid=W)
    con(s, 'out1', a, 'in1')
    con(s, 'out2', b, 'in1')
    con(a, 'out1', m, 'in1')
    con(b, 'out1', m, 'in2')
    con(s, 'out3', m, 'in3')
    con(m, 'out1', K('Sink', 'si'), 'in1')


@network
def drum_loop(K, con):
    """evaporator drum with natural circulation"""
    d, e = K('Drum', 'd'), K('HeatExchanger', 'e')
    con(K('Source', 'fg'), 'out1', e, 'in1', fluid={'N2': 1})
    con(e, 'out1', K('Sink', 'fgo'), 'in1')
    con(K('Source', 'fw'), 'out1', d, 'in1', fluid=W)
    con(d, 'out1', e, 'in2')
    con(e, 'out2', d, 'in2')
    con(d, 'out2', K('Sink', 'st'), 'in1')


@network
def recirculation(K, con):
    """recirculation through a merge and a splitter"""
    m, s, p, h = K('Merge', 'm'), K('Splitter', 's'), K('Pump', 'p'), K('SimpleHeatExchanger', 'h')
    con(K('Source', 'so'), 'out1', m, 'in1', fluid=W)
    con(m, 'out1', p, 'in1')
    con(p, 'out1', h, 'in1')
    con(h, 'out1', s, 'in1')
    con(s, 'out1', K('Sink', 'si'), 'in1')
    con(s, 'out2', m, 'in2')


@network
def mixed_gas(K, con):
    """gas mixing with heat recovery"""
    m, h, s = K('Merge', 'm'), K('HeatExchanger', 'h'), K('Splitter', 's')
    con(K('Source', 'a'), 'out1', m, 'in1', fluid={'N2': 0.7, 'O2': 0.3}, mixing_rule='ideal')
    con(K('Source', 'b'), 'out1', m, 'in2', fluid={'CO2': 0.6, 'O2': 0.4}, mixing_rule='ideal')
    con(m, 'out1', h, 'in1')
    con(h, 'out1', s, 'in1')
    con(s, 'out1', K('Sink', 'c'), 'in1')
    con(s, 'out2', K('Sink', 'd'), 'in1')
    con(K('Source', 'w'), 'out1', h, 'in2', fluid=W)
    con(h, 'out2', K('Sink', 'wo'), 'in1')


@network
def rankine(K, con):
    """steam cycle with condenser and feed heating"""
    cc, b, t, sp, t2, c, p, mg, pu2 = K('CycleCloser', 'cc'), K('SimpleHeatExchanger', 'b'), K('Turbine', 't'), \
        K('Splitter', 'sp'), K('Turbine', 't2'), K('Condenser', 'c'), K('Pump', 'p'), K('Merge', 'mg'), K('Pump', 'p2')
    con(cc, 'out1', b, 'in1', fluid=W)
    con(b, 'out1', t, 'in1')
    con(t, 'out1', sp, 'in1')
    con(sp, 'out1', t2, 'in1')
    con(sp, 'out2', mg, 'in2')
    con(t2, 'out1', c, 'in1')
    con(c, 'out1', p, 'in1')
    con(p, 'out1', mg, 'in1')
    con(mg, 'out1', pu2, 'in1')
    con(pu2, 'out1', cc, 'in1')
    con(K('Source', 'cw'), 'out1', c, 'in2', fluid=W)
    con(c, 'out2', K('Sink', 'cwo'), 'in1')
