"""A01: exergy analysis of a network."""
import warnings

from run import Case

from .. import net
from .. import sym as S
from . import eqs, r02, v02

META = {
    'bounds': 'complete networks (pump, heater, turbine between source and sink; cycle with heat exchanger, condenser, internal power '
              'bus and functional groups; merge, splitter, valve, compressor; combustion with chemical exergy and two kinds of streams '
              'between the same groups) with symbolic exergies of all streams, power, heat and bus efficiencies, all streams above '
              'ambient temperature; Network results of analyse() on these values',
    'assumptions': ['exergies of the streams as decided by E01, balances of the components by E02', 'splitter: exergy conserved',
                    'internal busses balanced', 'bus efficiencies symbolic'],
    'outside': 'exergy flows that are exactly zero; plots and printed tables; streams below ambient temperature (see E02)',
}


def raw(x):
    return x.v if isinstance(x, Box) else x


class Box:
    """A symbolic value in an object column (pandas stores plain symbolic
    values as float)."""

    def __init__(self, v):
        self.v = v

    assume = None

    def __bool__(self):                                   # zero is excluded (stated bound)
        Box.assume(self.v != 0)
        return True

    def __round__(self, n=None):
        return self

    def __abs__(self):
        return box(abs(self.v))

    def __neg__(self):
        return box(-self.v)

    def __pos__(self):
        return self

    __hash__ = object.__hash__


def box(v):
    return Box(v) if S.is_sym(v) else v


COMPARE = ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__')


def _op(n):
    def f(self, o):
        o = raw(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        if not S.is_sym(o) and o != o and n[2:4] not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            return float('nan')
        d = o if n == '__truediv__' else self.v if n == '__rtruediv__' else None
        if S.is_sym(d):
            Box.assume(d != 0)
        if n in ('__eq__', '__ne__') and not S.is_sym(o) and o == 0:
            Box.assume(self.v != 0)
            return n == '__ne__'
        r = getattr(self.v, n)(o)
        if r is NotImplemented:
            return r
        return bool(r) if n in COMPARE else box(r)
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'pow'):
    setattr(Box, f'__{_n}__', _op(f'__{_n}__'))
    setattr(Box, f'__r{_n}__', _op(f'__r{_n}__'))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Box, f'__{_n}__', _op(f'__{_n}__'))


W, AIR, GAS = {'H2O': 1.0}, {'N2': 0.77, 'O2': 0.23}, {'CH4': 1.0}


class Plant:
    def __init__(self, build):
        from tespy.connections import Bus
        from tespy.networks import Network
        import tespy.components as C
        self.C, self.Bus = C, Bus
        self.nw = Network(iterinfo=False)
        self.comps, self.conns, self.busses = {}, {}, {}
        self.E_F, self.E_P, self.E_L, self.internal = [], [], [], []
        self.chem = False
        self.keep = []
        build(self)
        self.nw.check_network()

    def add(self, cls, label, group=None, **kw):
        if group:
            kw['fkt_group'] = group
        self.comps[label] = getattr(self.C, cls)(label, **kw)

    def con(self, a, out, b, inl, fluid):
        from tespy.connections import Connection
        c = Connection(self.comps[a], out, self.comps[b], inl, label=f'{a}-{b}')
        c.set_attr(**net.fluid_kw(fluid))
        c.fluid.val = dict(fluid)
        self.conns[c.label] = c
        self.nw.add_conns(c)
        return c

    def bus(self, label, kind, *comps):
        b = self.Bus(label)
        for c, base in comps:
            b.add_comps({'comp': self.comps[c], 'base': base})
        self.busses[label] = b
        getattr(self, kind).append(b)


def heater(p):
    p.add('Source', 'so')
    p.add('Pump', 'pu')
    p.add('SimpleHeatExchanger', 'he')
    p.add('Turbine', 'tu')
    p.add('Sink', 'si')
    for a, b in zip(('so', 'pu', 'he', 'tu'), ('pu', 'he', 'tu', 'si')):
        p.con(a, 'out1', b, 'in1', W)
    p.sign = {'Q': {'he': 1}}
    p.bus('fuel', 'E_F', ('so', 'bus'), ('he', 'bus'))
    p.bus('power', 'E_P', ('tu', 'component'), ('pu', 'bus'))
    p.bus('loss', 'E_L', ('si', 'component'))


def cooler(p):
    """Heat as product and as loss."""
    p.add('Source', 'so')
    p.add('Compressor', 'co', group='machine')
    p.add('SimpleHeatExchanger', 'he', group='consumer')
    p.add('SimpleHeatExchanger', 'am', group='ambient', dissipative=False)
    p.add('Valve', 'va', group='machine')
    p.add('Sink', 'si')
    p.comps['he'].set_attr(dissipative=False)
    for a, b in zip(('so', 'co', 'he', 'am', 'va'), ('co', 'he', 'am', 'va', 'si')):
        p.con(a, 'out1', b, 'in1', W)
    p.sign = {'Q': {'he': -1, 'am': -1}}
    p.bus('power', 'E_F', ('co', 'bus'), ('so', 'bus'))
    p.bus('heat', 'E_P', ('he', 'component'))
    p.bus('loss', 'E_L', ('si', 'component'), ('am', 'component'))


def cycle(p):
    for cls, l, g in (('CycleCloser', 'cc', None), ('Pump', 'pu', 'feed'), ('HeatExchanger', 'sg', 'boiler'), ('Turbine', 'tu', 'machine'),
                      ('Condenser', 'cd', 'cooling'), ('Source', 'hot', 'boiler'), ('Sink', 'stack', 'boiler'), ('Source', 'cw', 'cooling'),
                      ('Sink', 'cwr', 'cooling')):
        p.add(cls, l, g)
    p.con('cc', 'out1', 'pu', 'in1', W)
    p.con('pu', 'out1', 'sg', 'in2', W)
    p.con('sg', 'out2', 'tu', 'in1', W)
    p.con('tu', 'out1', 'cd', 'in1', W)
    p.con('cd', 'out1', 'cc', 'in1', W)
    p.con('hot', 'out1', 'sg', 'in1', AIR)
    p.con('sg', 'out1', 'stack', 'in1', AIR)
    p.con('cw', 'out1', 'cd', 'in2', W)
    p.con('cd', 'out2', 'cwr', 'in1', W)
    p.equal = [('cc-pu', 'cd-cc')]
    p.bus('heat', 'E_F', ('hot', 'bus'), ('stack', 'component'))
    p.bus('power', 'E_P', ('tu', 'component'), ('pu', 'bus'))
    p.bus('cooling water', 'E_L', ('cwr', 'component'), ('cw', 'bus'))


def shaft(p):
    """Turbine drives the compressor (internal bus)."""
    p.add('Source', 'so')
    p.add('Compressor', 'co', 'machine')
    p.add('Splitter', 'sp', 'pipes')
    p.add('Valve', 'va', 'pipes')
    p.add('SimpleHeatExchanger', 'he')
    p.add('Merge', 'me', 'pipes')
    p.add('Turbine', 'tu', 'machine')
    p.add('Sink', 'si')
    p.con('so', 'out1', 'co', 'in1', AIR)
    p.con('co', 'out1', 'sp', 'in1', AIR)
    p.con('sp', 'out1', 'he', 'in1', AIR)
    p.con('sp', 'out2', 'va', 'in1', AIR)
    p.con('he', 'out1', 'me', 'in1', AIR)
    p.con('va', 'out1', 'me', 'in2', AIR)
    p.con('me', 'out1', 'tu', 'in1', AIR)
    p.con('tu', 'out1', 'si', 'in1', AIR)
    p.sign = {'Q': {'he': 1}}
    p.split = ('co-sp', ('sp-he', 'sp-va'))
    p.merge = (('he-me', 'va-me'), 'me-tu')
    p.bus('fuel', 'E_F', ('so', 'bus'), ('he', 'bus'))
    p.bus('shaft', 'internal', ('tu', 'component'), ('co', 'bus'))
    p.bus('exhaust', 'E_P', ('si', 'component'))
    p.balance = 'tu', 'co'


def combustion(p):
    """Two kinds of streams between the same groups, chemical exergy."""
    p.add('Source', 'air', 'supply')
    p.add('Source', 'fuel', 'supply')
    p.add('CombustionChamber', 'cb', 'burner')
    p.add('Turbine', 'tu')
    p.add('Sink', 'si')
    p.con('air', 'out1', 'cb', 'in1', AIR)
    p.con('fuel', 'out1', 'cb', 'in2', GAS)
    p.con('cb', 'out1', 'tu', 'in1', AIR)
    p.con('tu', 'out1', 'si', 'in1', AIR)
    p.chem = True
    p.composition = ('cb-tu', 'tu-si')
    p.bus('input', 'E_F', ('air', 'bus'), ('fuel', 'bus'))
    p.bus('power', 'E_P', ('tu', 'component'))
    p.bus('exhaust', 'E_L', ('si', 'component'))


def engine(p):
    """Power and heat of an engine with cooling water."""
    for l in ('air', 'fuel', 'w1', 'w2'):
        p.add('Source', l)
    for l in ('ex', 's1', 's2'):
        p.add('Sink', l)
    p.add('CombustionEngine', 'en')
    for a, i, f in (('w1', 'in1', W), ('w2', 'in2', W), ('air', 'in3', AIR), ('fuel', 'in4', GAS)):
        p.con(a, 'out1', 'en', i, f)
    for a, o, f in (('s1', 'out1', W), ('s2', 'out2', W), ('ex', 'out3', AIR)):
        p.con('en', o, a, 'in1', f)
    p.chem = True
    p.keep = ['w1-en', 'w2-en', 'en-s1', 'en-s2']         # no chemical exergy: composition does not change
    p.bus('input', 'E_F', ('air', 'bus'), ('fuel', 'bus'))
    p.bus('output', 'E_P', ('en', 'component'), ('w1', 'bus'), ('w2', 'bus'), ('s1', 'component'), ('s2', 'component'))
    p.bus('exhaust', 'E_L', ('ex', 'component'))


PLANTS = {'heater': heater, 'cooler': cooler, 'cycle': cycle, 'shaft': shaft, 'combustion': combustion, 'engine': engine}


def fill(p, env):
    """Symbolic exergies, power, heat, efficiencies."""
    data = {}
    for k, c in p.conns.items():
        c.T.val_SI = 400.0
        m = env.var('m ' + k, 0.1, 10.0)
        t, me = env.var('e_T ' + k, -1e6, 1e6), env.var('e_M ' + k, -1e6, 1e6)
        ch = env.var('e_CH ' + k, 0.0, 1e7) if p.chem and k not in p.keep else 0.0
        data[k] = [m, t, me, ch]
    for a, b in getattr(p, 'equal', []):
        data[b] = data[a]
    if hasattr(p, 'composition'):
        a, b = p.composition
        data[b][0], data[b][3] = data[a][0], data[a][3]
    if hasattr(p, 'split'):
        a, bs = p.split
        for b in bs:
            data[b][1:] = data[a][1:]
        data[bs[1]][0] = data[a][0] - data[bs[0]][0]
    if hasattr(p, 'merge'):
        (a, b), c = p.merge
        data[c][0] = data[a][0] + data[b][0]
        p.conns[a].T.val_SI, p.conns[b].T.val_SI = 500.0, 350.0
    for k, c in p.conns.items():
        m, t, me, ch = data[k]
        c.m.val_SI = m
        c.fluid_data = {f: {'wrapper': None, 'mass_fraction': x} for f, x in c.fluid.val.items()}
        v = {'therm': t, 'mech': me, 'physical': t + me, 'chemical': ch}
        for n, x in v.items():
            setattr(c, 'ex_' + n, box(x))
            setattr(c, 'Ex_' + n, box(m * x))
        c.get_physical_exergy = c.get_chemical_exergy = lambda *a: None
    p.eta = {}
    for lb, b in p.busses.items():
        for cp in b.comps.index:
            p.eta[cp.label] = e = env.var(f'eta {cp.label}', 0.5, 1.0)
            cp.calc_bus_efficiency = lambda bus, e=e: box(e)
    for k, cp in p.comps.items():
        if 'P' in cp.parameters:
            pw = env.var('P ' + k, 1.0, 1e6)
            cp.P.val = pw if k in ('pu', 'co') else -pw
        if 'Q' in cp.parameters:
            q = env.var('Q ' + k, 1.0, 1e6)
            cp.Q.val = q * getattr(p, 'sign', {}).get('Q', {}).get(k, 1)
    if hasattr(p, 'balance'):
        a, b = (p.comps[x] for x in p.balance)
        b.P.val = -a.P.val * p.eta[a.label] * p.eta[b.label]
    for cp in p.comps.values():
        cp.exergy_balance = boxed(cp, cp.exergy_balance)


def boxed(cp, f):
    """The balance works on plain symbolic values."""
    names = [a + k for a in ('ex_', 'Ex_') for k in ('therm', 'mech', 'physical', 'chemical')]

    def g(T0):
        cs = set(cp.inl + cp.outl)
        for c in cs:
            for n in names:
                setattr(c, n, raw(getattr(c, n)))
        f(T0)
        for n in ('E_F', 'E_P', 'E_D', 'epsilon'):
            setattr(cp, n, box(getattr(cp, n)))
        if isinstance(cp.E_bus, dict):
            cp.E_bus = {k: box(v) for k, v in cp.E_bus.items()}
        for c in cs:
            for n in names:
                setattr(c, n, box(getattr(c, n)))
    return g


def absent(x):
    x = raw(x)
    return not S.is_sym(x) and x != x


def num(x):
    x = raw(x)
    return 0 if not S.is_sym(x) and x != x else x


def eq(out, name, a, b, scale=1e6):
    out.append(eqs.Eq(name, raw(a), raw(b), rel=1e-7, scale=scale))


def analyse(p, pamb=1.0e5, Tamb=298.15, lib=None):
    from tespy.tools import analyses
    shim = analyses.__dict__.get('float')
    if shim is not None:                                  # a column type here
        analyses.float = float
    try:
        ea = analyses.ExergyAnalysis(p.nw, E_F=p.E_F, E_P=p.E_P, E_L=p.E_L, internal_busses=p.internal)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ea.analyse(pamb=pamb, Tamb=Tamb, Chem_Ex=({} if lib is None else lib) if p.chem else None)
    finally:
        if shim is not None:
            analyses.float = shim
    return ea


def ambient(units):
    """Streams and components are evaluated at the ambient state given in the
    units of the network."""
    def run(p, env):
        import inspect
        Box.assume = env.assume
        fill(p, env)
        p.nw.set_attr(p_unit=units[0], T_unit=units[1])
        pamb, Tamb = env.var('pamb', *[r02.user('p', v, units[0]) for v in (8e4, 1.2e5)]), \
            env.var('Tamb', *[r02.user('T', v, units[1]) for v in (260.0, 310.0)])
        lib = {} if p.chem else None
        rec = []

        def record(o, name, inner=None):
            sig = inspect.signature(getattr(type(o), name))

            def f(*a, **k):
                rec.append((f'{name} of {o.label}', sig.bind(o, *a, **k).arguments))
                return inner(*a, **k) if inner else None
            setattr(o, name, f)
        for c in p.conns.values():
            record(c, 'get_physical_exergy')
            record(c, 'get_chemical_exergy')
        for c in p.comps.values():
            record(c, 'exergy_balance', c.exergy_balance)
        analyse(p, pamb, Tamb, lib)
        out, seen = [], set()
        for nm, a in rec:
            seen.add(nm)
            for k, v in a.items():
                if k in ('pamb', 'p0'):
                    out.append(eqs.Close(f'ambient pressure: {nm}', v, r02.to_si('p', pamb, units[0])))
                elif k in ('Tamb', 'T0'):
                    out.append(eqs.Close(f'ambient temperature: {nm}', v, r02.to_si('T', Tamb, units[1])))
        for c in p.conns.values():
            out.append(eqs.Holds(f'physical exergy of {c.label} evaluated', f'get_physical_exergy of {c.label}' in seen))
            out.append(eqs.Holds(f'chemical exergy of {c.label} evaluated', f'get_chemical_exergy of {c.label}' in seen))
        for c in p.comps.values():
            out.append(eqs.Holds(f'balance of {c.label} evaluated', f'exergy_balance of {c.label}' in seen))
        return out
    return run


def goals(which):
    def run(p, env):
        Box.assume = env.assume
        fill(p, env)
        ea = analyse(p)
        out = []
        nd, cd, bd, ad, gd, cn = (ea.network_data, ea.component_data, ea.bus_data, ea.aggregation_data, ea.group_data, ea.connection_data)
        comps = list(p.comps.values())
        E = {'E_F': 0, 'E_P': 0, 'E_L': 0}
        ED = 0
        bus = {}
        for kind in ('E_F', 'E_P', 'E_L', 'internal'):
            for b in getattr(p, kind):
                for cp in b.comps.index:
                    e = sum(num(x) for x in cp.E_bus.values())
                    eta = p.eta[cp.label]
                    if b.comps.loc[cp, 'base'] == 'bus':
                        f, pr, s = e / eta, e, e / eta
                    else:
                        f, pr, s = e, e * eta, -e * eta
                    bus[cp.label] = f, pr, b.comps.loc[cp, 'base'], b.label
                    ED = ED + f - pr
                    if kind != 'internal':                # E_F: into the network, others: out of it
                        E[kind] = E[kind] + (s if kind == 'E_F' else -s)
        for cp in comps:
            ED = ED + num(cp.E_D)
        if which == 'network':
            for k in ('E_F', 'E_P'):
                eq(out, f'network {k}', nd[k], abs(raw(E[k])))
            eq(out, 'network E_L', nd['E_L'], E['E_L'])
            eq(out, 'network E_D = sum of components and busses', nd['E_D'], ED)
            eq(out, 'exergy balance of the network', raw(E['E_F']) - raw(E['E_P']) - raw(nd['E_L']), nd['E_D'], 1e7)
            eq(out, 'network efficiency', raw(nd['epsilon']) * raw(nd['E_F']), nd['E_P'])
        elif which == 'tables':
            for cp in comps:
                l = cp.label
                for k in ('E_F', 'E_P', 'E_D'):
                    if not absent(getattr(cp, k)):
                        eq(out, f'component data {k} of {l}', cd.loc[l, k], getattr(cp, k))
                f, pr, base, _ = bus.get(l, (0, 0, None, None))
                if base:
                    eq(out, f'bus data E_F of {l}', bd.loc[l, 'E_F'], f)
                    eq(out, f'bus data E_P of {l}', bd.loc[l, 'E_P'], pr)
                    eq(out, f'bus data E_D of {l}', bd.loc[l, 'E_D'], f - pr)
                if absent(cp.E_D) or absent(cp.E_F):
                    continue
                eq(out, f'aggregated E_D of {l}', ad.loc[l, 'E_D'], num(cp.E_D) + f - pr)
                eq(out, f'aggregated E_F of {l}', ad.loc[l, 'E_F'], num(cp.E_F) + (f - pr if base == 'bus' else 0))
                if not absent(cp.E_P):
                    eq(out, f'aggregated E_P of {l}', ad.loc[l, 'E_P'], num(cp.E_P) - (f - pr if base == 'component' else 0))
                    eq(out, f'aggregated efficiency of {l}', raw(ad.loc[l, 'epsilon']) * raw(ad.loc[l, 'E_F']), ad.loc[l, 'E_P'])
                eq(out, f'y_Dk of {l}', raw(cd.loc[l, 'y_Dk']) * raw(nd['E_F']), cp.E_D)
                eq(out, f'y*_Dk of {l}', raw(cd.loc[l, 'y*_Dk']) * raw(nd['E_D']), cp.E_D)
                eq(out, f'aggregated y_Dk of {l}', raw(ad.loc[l, 'y_Dk']) * raw(nd['E_F']), ad.loc[l, 'E_D'])
            for k, c in p.conns.items():
                for col, a in (('e_PH', 'ex_physical'), ('e_T', 'ex_therm'), ('e_M', 'ex_mech'), ('E_PH', 'Ex_physical'),
                               ('E_T', 'Ex_therm'), ('E_M', 'Ex_mech')) + ((('e_CH', 'ex_chemical'), ('E_CH', 'Ex_chemical')) if p.chem else ()):
                    eq(out, f'connection data {col} of {k}', cn.loc[k, col], getattr(c, a))
        else:
            groups = {}
            for cp in comps:
                groups.setdefault(cp.fkt_group, []).append(cp)
            tot = 0
            for g, cs in groups.items():
                inp = 0
                for c in p.conns.values():
                    if c.target in cs and c.source not in cs:
                        inp = inp + raw(c.Ex_physical) + raw(c.Ex_chemical)
                d = sum(num(cp.E_D) for cp in cs)
                for cp in cs:
                    if cp.label in bus:
                        f, pr, base, _ = bus[cp.label]
                        if base == 'bus':
                            inp = inp + f
                        if not absent(cp.E_D):
                            d = d + f - pr
                eq(out, f'exergy entering group {g}', gd.loc[g, 'E_in'], inp, 1e7)
                if not any(absent(cp.E_D) and cp.label in bus for cp in cs):
                    eq(out, f'exergy destruction of group {g}', gd.loc[g, 'E_D'], d, 1e7)
                eq(out, f'exergy balance of group {g}', raw(gd.loc[g, 'E_in']) - raw(gd.loc[g, 'E_out']), gd.loc[g, 'E_D'], 1e7)
                eq(out, f'y_Dk of group {g}', raw(gd.loc[g, 'y_Dk']) * raw(nd['E_F']), gd.loc[g, 'E_D'], 1e7)
                sk = ea.sankey_data[g]
                flow = sum(num(x) for col in ('chemical', 'physical', 'massless') for x in sk[col])
                if not any(type(cp).__name__ in ('Sink', 'Source') for cp in cs):
                    eq(out, f'flow diagram: exergy leaving group {g} = entering', flow, inp, 1e7)
            diagram(p, ea, groups, bus, E, ED, out)
        return out
    return run


def diagram(p, ea, groups, bus, E, ED, out):
    """Exergy flows between groups, busses and the totals."""
    flows = {}
    for a, t in ea.sankey_data.items():
        for idx in t.index:
            b = idx[0] if isinstance(idx, tuple) else idx
            x = sum(num(t.loc[idx, col]) for col in ('chemical', 'physical', 'massless'))
            flows[a, b] = flows.get((a, b), 0) + x
    want = {}

    def add(a, b, x):
        want[a, b] = want.get((a, b), 0) + x
    of = {cp: g for g, cs in groups.items() for cp in cs}
    for c in p.conns.values():
        if of[c.source] != of[c.target]:
            add(of[c.source], of[c.target], raw(c.Ex_physical) + raw(c.Ex_chemical))
    for lb, (f, pr, base, b) in bus.items():
        g = of[p.comps[lb]]
        if base == 'bus':
            add(b, g, f)
        else:
            add(g, b, pr)
    for ab, x in want.items():
        eq(out, f'flow diagram: from {ab[0]} to {ab[1]}', flows.get(ab, 0), x, 1e7)
    kinds = {'E_F': p.E_F, 'E_P': p.E_P, 'E_L': p.E_L}
    for k, bs in kinds.items():
        for b in bs:
            net_in = sum((x for ab, x in want.items() if ab[1] == b.label), 0) - sum((x for ab, x in want.items() if ab[0] == b.label), 0)
            if k == 'E_F':
                eq(out, f'flow diagram: fuel exergy of {b.label}', flows.get(('E_F', b.label), 0), -net_in, 1e7)
            else:
                eq(out, f'flow diagram: {k} of {b.label}', flows.get((b.label, k), 0), net_in, 1e7)
    for ab, x in flows.items():
        if ab not in want and ab[0] not in kinds and ab[1] not in kinds and ab[1] != 'E_D':
            eq(out, f'flow diagram: nothing from {ab[0]} to {ab[1]}', x, 0, 1e7)


def C(nm, plant, which):
    return Case(nm, lambda: eqs.case(nm, goals(which), lambda: Plant(plant), vacuity=True, max_paths=300, stubs=lambda: []), limit=400)


def cases(tier):
    out = []
    for k, pl in PLANTS.items():
        for w in ('network', 'tables', 'groups'):
            out.append(C(f'{k}: {w}', pl, w))
    for k in ('heater', 'shaft', 'combustion'):
        for u in (('bar', 'C'), ('psi', 'F')):
            nm = f'{k}: ambient state in {u[0]}, {u[1]}'
            out.append(Case(nm, lambda nm=nm, k=k, u=u: eqs.case(nm, ambient(u), lambda: Plant(PLANTS[k]), vacuity=True, max_paths=300,
                                                                 stubs=lambda: []), limit=400))
    return out
