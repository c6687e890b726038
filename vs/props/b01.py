"""B01: a calculation starts exactly if the problem is determined, and every
equation is part of the system once."""
import contextlib
import io
import re
import warnings

import numpy as np

from run import Case

from .. import catalog, net, pipe
from .. import sym as S
from . import eqs, t01

META = {
    'bounds': 'every component class with all ports connected, compositions of pure fluids and mixtures, names of the fluids (aliases) in different '
              'flow paths; complete specifications, every one of them left out, every further specification of the component (single parameters, '
              'groups, characteristics) and of its connections added (symbolic choice); several networks of several components with busses, references and '
              'user defined equations; values symbolic',
    'assumptions': ['mass flow is specified for at most all but one of the connections of a node or reactor'],
    'outside': 'whether a determined system has a solution; specifications that leave an equation without any unknown',
}
W = {'water': 1.0}
AIR, FUEL, AIR3 = catalog.AIR, catalog.FUEL, catalog.AIR3
FLUE = {f: 0.2 for f in catalog.FLUE}
RANGE = {'m': (1.0, 20.0), 'p': (1.0, 10.0), 'h': (200.0, 3000.0), 'T': (20.0, 300.0), 'x': (0.1, 0.9), 'v': (0.01, 10.0), 'Td_bp': (1.0, 10.0)}
ENGINES = ('water', 'N2', 'O2', 'CO2', 'CH4', 'H2O', 'H2', 'R134a', 'Ar', 'air')


def plant(cls, fluids, fixed={}, **kw):
    """The component between sources and sinks."""
    def build(w):
        C = catalog.get_class(cls)
        o = w.o['c'] = C('c', **kw)
        for i, f in zip(o.inlets(), fluids):
            w.comp('Source', f'so {i}')
            w.con(i, f'so {i}', 'out1', 'c', i)
            w.o[i].set_attr(fluid=dict(f))
            if len(f) > 1:
                w.o[i].set_attr(mixing_rule='ideal')
        for k in o.outlets():
            w.comp('Sink', f'si {k}')
            w.con(k, 'c', k, f'si {k}', 'in1')
            if k in fixed:
                w.o[k].set_attr(fluid=dict(fixed[k]))
    return build


def outcome(nw, env, inside):
    """Degrees of freedom left: 0 if the calculation starts."""
    from tespy.tools.helpers import TESPyNetworkError
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), pipe.tables(env):
            warnings.simplefilter('ignore')
            nw.solve_loop = lambda *a, **k: start(inside)
            nw.solve('design')
    except Started:
        return 0
    except TESPyNetworkError as e:
        n = re.search(r'(\d+) required, (\d+) supplied', str(e))
        if n:
            return int(n.group(1)) - int(n.group(2))
        return f'{e}'
    finally:
        nw.__dict__.pop('solve_loop', None)
    return 'not started'


class Started(Exception):
    pass


def start(inside):
    inside()
    raise Started()


def value(env, lb, k):
    if k in RANGE:
        return env.var(f'{k} {lb}', *RANGE[k])
    lo, hi = net.PARAM_RANGE.get(k, (0.1, 10.0))
    return env.var(f'{k} {lb}', lo, hi)


def impose(w, env, items):
    for lb, k in items:
        o = w.o.get(lb)
        if callable(k):
            k(w)
        elif isinstance(k, tuple):
            t01.World.set(w, lb, **{k[0]: k[1]})
        else:
            o.set_attr(**{k: value(env, lb, k)})


def once(nw, env):
    """Every row of the system is filled by an equation, every column belongs
    to a variable of its own."""
    out = []
    vs = net.variables(nw)
    n = nw.num_vars
    out.append(eqs.Holds('a column per variable', sorted(vs) == list(range(n)), f'{sorted(vs)} / {n}'))
    ids = set()
    for d in nw.variables_dict.values():
        o = d['obj']
        key = (id(o.fluid), d['fluid']) if d['variable'] == 'fluid' else (id(o.get_attr(d['variable'])),) if d['variable'] in 'mph' else (id(o),)
        ids.add(key)
    out.append(eqs.Holds('no variable twice', len(ids) == n, f'{len(ids)} / {n}'))
    mark = object()
    nw.residual = np.full(n, mark, dtype=object)
    nw.jacobian = np.zeros((n, n), dtype=object)
    nw.increment = np.ones(n)
    nw.increment_filter = np.zeros(n, dtype=bool)
    net.char_stubs(nw)
    if env.symbolic:
        for col, (nm, g, st) in vs.items():
            k = nm.split('@')[0]
            lo, hi = pipe.RANGE.get(k, net.X_RANGE if k.startswith('x_') else net.PARAM_RANGE.get(k, (0.1, 10.0)))
            st(env.var(f'var {nm}', lo, hi))
        net.rebuild_fluid_data(nw)
        net.to_object(nw)
    nw.solve_components()
    nw.solve_busses()
    nw.solve_connections()
    nw.solve_user_defined_eq()
    left = [i for i in range(n) if nw.residual[i] is mark]
    out.append(eqs.Holds('every row holds an equation', not left, f'{left}'))
    return out


def counts(build, full, extra=(), rows=True):
    """full: specifications that determine the problem; extra: further ones,
    (label, key) or (label, key, number of equations)."""
    def run(_, env):
        w = t01.World(build)
        kinds = ['complete'] + [('without', i) for i in range(len(full))] + [('with', e) for e in extra]
        what = kinds[t01.choose(env, 'specification', len(kinds))]
        items, want = list(full), 0
        if what != 'complete':
            if what[0] == 'without':
                del items[what[1]]
                want = 1
            else:
                items.append(what[1][:2])
                want = -(what[1][2] if len(what[1]) > 2 else 1)
        impose(w, env, items)
        found = []
        got = outcome(w.nw, env, lambda: found.extend(once(w.nw, env) if rows and want == 0 else []))
        ok = got == want or (want and isinstance(got, str) and got != 'not started')
        out = [eqs.Holds(f'{"determined" if want == 0 else "refused"}: {label(what, full)}', ok, f'{got} / {want}')]
        return out + found
    return dict(run=run)


def label(what, full):
    if what == 'complete':
        return what
    x = full[what[1]] if what[0] == 'without' else what[1]
    return f'{what[0]} {x[1] if isinstance(x[1], str) else x[1][0] if isinstance(x[1], tuple) else x[1].__name__} of {x[0]}'


def group(spec):
    """The specification of the catalogue entry, applied to component c."""
    def f(w):
        from tespy.tools.data_containers import (ComponentCharacteristics as dc_cc, ComponentProperties as dc_cp,
                                                  GroupedComponentCharacteristics as dc_gcc)
        o = spec.make()
        if isinstance(o.parameters[spec.param], dc_gcc):
            w.o['c'].parameters[spec.param].set_attr(is_set=True)
        for k, d in o.parameters.items():
            t = w.o['c'].parameters[k]
            if isinstance(d, dc_cp) and (d.is_set or d.is_var):
                w.o['c'].set_attr(**{k: 'var' if d.is_var else d.val})
            elif getattr(d, 'is_set', False) and not hasattr(d, 'elements') and k not in ('num_in', 'num_out'):
                t.set_attr(is_set=True)
                if isinstance(d, dc_cc):
                    t.param = d.param
    f.__name__ = spec.name
    return f


def extras(cls, without=()):
    out = []
    for s in catalog.specs(cls, with_var=False):
        if s.param in without:
            continue
        out.append(('c', group(s)))
    return out


LINE = [('in1', 'm'), ('in1', 'p'), ('in1', 'T'), ('out1', 'p'), ('out1', 'T')]
LINE2 = LINE + [('in2', 'm'), ('in2', 'p'), ('in2', 'T'), ('out2', 'p')]


def C(nm, kw):
    return Case(nm, lambda: eqs.case(nm, max_paths=2000, budget=120, vacuity=False, **kw), limit=240)


def cases(tier):
    out = []

    def add(nm, build, full, extra=(), **kw):
        out.append(C(nm, counts(build, full, extra, **kw)))
    for cls in ('SimpleHeatExchanger', 'Pipe', 'ParabolicTrough', 'SolarCollector', 'Turbomachine', 'Compressor', 'Pump', 'Turbine', 'SteamTurbine'):
        add(cls, plant(cls, [W]), LINE, extras(cls))
        add(f'{cls} with a mixture', plant(cls, [AIR3]), LINE, extras(cls))
    # pure fluids only
    out[:] = [c for c in out if c.name != 'SteamTurbine with a mixture']
    add('Valve', plant('Valve', [W]), LINE[:4], extras('Valve'))
    for cls in ('HeatExchanger', 'MovingBoundaryHeatExchanger'):
        add(cls, plant(cls, [W, W]), LINE2, extras(cls))
        add(f'{cls} with a mixture', plant(cls, [AIR3, {'H2O': 1.0}]), LINE2, extras(cls))
    sat = [x for x in LINE2 if x != ('out1', 'T')]
    for cls in ('Condenser', 'Desuperheater'):
        add(cls, plant(cls, [W, W]), sat, extras(cls, ('subcooling',)))
    add('Condenser with subcooling', plant('Condenser', [W, W], subcooling=True), LINE2, extras('Condenser', ('subcooling',)))
    conn = [('in1', 'h'), ('out1', 'v'), ('in1', 'v'), ('out1', ('T', ('in1', 1.0, -5.0))), ('in1', ('m', ('out1', 2.0, 0.0)))]

    # nodes
    two = [{'N2': 0.7, 'O2': 0.3}, {'N2': 0.5, 'O2': 0.2, 'CO2': 0.3}]
    more = [('out1', k) for k in ('h', 'T', 'p')]
    for nm, fl in (('pure', [W, W]), ('mixtures', two)):
        add(f'Merge, {nm}', plant('Merge', fl), [('in1', 'm'), ('in2', 'm'), ('in1', 'T'), ('in2', 'T'), ('out1', 'p')], more[:2])
    add('Merge of three', plant('Merge', two + [{'CO2': 1.0}], num_in=3),
        [(f'in{i}', k) for i in (1, 2, 3) for k in 'mT'] + [('in2', 'p')], more)
    add('Splitter', plant('Splitter', [W]), [('in1', 'm'), ('out1', 'm'), ('in1', 'p'), ('in1', 'T')], more)
    add('Splitter of three', plant('Splitter', [AIR3], num_out=3), [('out3', 'm'), ('out1', 'm'), ('out2', 'm'), ('out2', 'p'), ('in1', 'T')],
        more + [('in1', 'p')])
    add('Drum', plant('Drum', [W, W]), [('in1', 'm'), ('in2', 'm'), ('in1', 'p'), ('in1', 'T'), ('in2', 'x')], [('out1', 'p'), ('in2', 'h')])
    add('DropletSeparator', plant('DropletSeparator', [W]), [('in1', 'm'), ('in1', 'p'), ('in1', 'x')], [('out1', 'p'), ('out1', 'm'), ('out2', 'm')])
    add('Separator', plant('Separator', [AIR], fixed={'out1': {'N2': 0.9, 'O2': 0.1}, 'out2': {'N2': 0.2}}), [('in1', 'm'), ('in1', 'p'), ('in1', 'T')],
        [('out1', 'p'), ('out1', 'T'), ('in1', 'h'), ('out2', 'T')])
    add('SubsystemInterface', plant('SubsystemInterface', [W, AIR], num_inter=2), [(i, k) for i in ('in1', 'in2') for k in 'mpT'],
        [('out1', 'p'), ('out2', 'h')])
    # reactors
    comb = [('in1', 'm'), ('in1', 'T'), ('in2', 'm'), ('in2', 'T'), ('out1', 'p')]
    for i, (air, fuel) in enumerate(((AIR, FUEL), (AIR3, {'CH4': 1.0}), (dict(AIR3, Ar=0.0), {'CH4': 0.5, 'H2': 0.5}))):
        nm = ('', ', pure fuel', ', two fuels')[i]
        add(f'CombustionChamber{nm}', plant('CombustionChamber', [air, fuel]), comb, [('out1', 'T'), ('c', 'lamb'), ('c', 'ti')])
        add(f'CombustionChamber{nm}, lamb', plant('CombustionChamber', [air, fuel]), [x for x in comb if x != ('in1', 'm')] + [('c', 'lamb')],
            [('out1', 'T'), ('c', 'ti')])
        add(f'DiabaticCombustionChamber{nm}', plant('DiabaticCombustionChamber', [air, fuel]), comb + [('in1', 'p'), ('in2', 'p'), ('out1', 'T')],
            [('c', 'lamb'), ('c', 'ti'), ('c', 'pr'), ('c', 'eta')])
        for cool in ('H2O', 'water', 'N2', 'R134a', 'H2'):
            add(f'CombustionEngine{nm}, cooled by {cool}', plant('CombustionEngine', [{cool: 1.0}, {cool: 1.0}, air, fuel]), ENGINE,
                [('c', k) for k in ('lamb', 'ti', 'P', 'Q1', 'Q2', 'pr1', 'pr2', 'zeta1', 'zeta2')])
    for nm, fl in (('', H2O), (' cooled by water', {'water': 1.0})):
        add(f'FuelCell{nm}', plant('FuelCell', [fl, {'O2': 1.0}, {'H2': 1.0}]), [('in1', 'm'), ('in1', 'p'), ('in1', 'T'), ('out1', 'p'), ('out1', 'T'),
            ('in2', 'T'), ('in3', 'T'), ('out2', 'T'), ('out2', 'p'), ('c', 'P')], [('c', k) for k in ('Q', 'pr', 'zeta', 'eta', 'e')] + [('in3', 'm')])
        add(f'WaterElectrolyzer{nm}', plant('WaterElectrolyzer', [fl, H2O]), [('in1', 'm'), ('in1', 'p'), ('in1', 'T'), ('out1', 'p'), ('out1', 'T'),
            ('in2', 'T'), ('in2', 'p'), ('out3', 'T'), ('c', 'P')], [('c', k) for k in ('Q', 'pr', 'zeta', 'eta', 'e')] + [('out3', 'm')])
    # networks
    add('heat pump', heat_pump, [('2', 'm'), ('ev', 'pr'), ('cd', 'pr'), ('cp', 'eta_s'), ('2', 'x'), ('4', 'x'), ('4', 'p'), ('2', 'p')], PUMP)
    add('heat pump with a bus', heat_pump, [('bus', total), ('ev', 'pr'), ('cd', 'pr'), ('cp', 'eta_s'), ('2', 'Td_bp'), ('4', 'Td_bp'), ('4', 'T'), ('2', 'T')], PUMP[:-1])
    add('heat pump with a user defined equation', heat_pump, [('ude', ude), ('ev', 'pr'), ('cd', 'pr'), ('cp', 'P'), ('2', 'x'), ('4', 'x'), ('4', 'T'),
                                                              ('2', 'p')], [x for x in PUMP if x[1] is not ude])
    add('heat pump with references', heat_pump, [('3', 'm'), ('ev', 'zeta'), ('cd', 'zeta'), ('cp', 'eta_s'), ('2', 'x'), ('4', 'x'),
                                                 ('4', ('p', ('2', 4.0, 0.0))), ('2', 'p')], PUMP[1:])
    add('drum with circulation', drum_loop, [('1', 'm'), ('1', 'p'), ('1', 'T'), ('2', 'm')], [('e', 'pr'), ('4', 'T'), ('3', 'p'), ('e', 'Q'), ('3', 'x')])
    add('drum with circulation and bleed', drum_bleed, [('1', 'm'), ('1', 'p'), ('1', 'T'), ('2', 'm'), ('5', 'm')], [('e', 'pr'), ('4', 'm'), ('e', 'Q')])
    add('parallel branches', branches, [('1', 'm'), ('1', 'p'), ('1', 'T'), ('2', ('m', ('1', 0.5, 0.0))), ('a', 'pr'), ('a', 'Q')],
        [('7', 'T'), ('7', 'h'), ('7', 'p'), ('5', 'T'), ('b', 'zeta'), ('bus', total)])
    add('mixing of gases', mixing, [('1', 'm'), ('1', 'p'), ('1', 'T'), ('2', 'm'), ('2', 'T'), ('h', 'pr1'), ('h', 'pr2'), ('6', 'T'), ('6', 'p'),
                                    ('7', 'T'), ('4', 'T')], [('h', 'kA'), ('h', 'ttd_u'), ('3', 'T'), ('4', 'v'), ('bus', total)])
    return out


H2O = {'H2O': 1.0}


def total(w):
    with t01.real_float():
        from tespy.connections import Bus
        b = Bus('b')
        b.add_comps(*[{'comp': w.o[c], 'char': 0.9, 'base': 'component'} for c in ('cp', 'cd', 'a', 'b', 'h') if c in w.o])
    w.nw.add_busses(b)
    b.set_attr(P=1e5)


def ude(w):
    from tespy.tools.helpers import UserDefinedEquation

    def deriv(u):
        u.jacobian = {}
    w.nw.add_ude(UserDefinedEquation('u', lambda u: u.conns[0].m.val_SI - 2 * u.conns[1].h.val_SI, deriv, [w.o['1'], w.o['2']]))


def heat_pump(w):
    for cls, lb in (('CycleCloser', 'cc'), ('SimpleHeatExchanger', 'ev'), ('Compressor', 'cp'), ('SimpleHeatExchanger', 'cd'), ('Valve', 'va')):
        w.comp(cls, lb)
    for i, (a, b) in enumerate((('cc', 'ev'), ('ev', 'cp'), ('cp', 'cd'), ('cd', 'va'), ('va', 'cc'))):
        w.con(str(i + 1), a, 'out1', b, 'in1')
    w.o['1'].set_attr(fluid={'R134a': 1.0})


PUMP = [('3', 'T'), ('3', 'v'), ('3', ('T', ('4', 1.0, 10.0))), ('ev', 'Q'), ('cd', 'Q'), ('cp', 'pr'), ('va', 'pr'), ('ude', ude), ('bus', total)]


def drum_loop(w):
    for cls, lb in (('Source', 'so'), ('Drum', 'd'), ('SimpleHeatExchanger', 'e'), ('Sink', 'si')):
        w.comp(cls, lb)
    for lb, a, o, b, i in (('1', 'so', 'out1', 'd', 'in1'), ('2', 'd', 'out1', 'e', 'in1'), ('3', 'e', 'out1', 'd', 'in2'), ('4', 'd', 'out2', 'si', 'in1')):
        w.con(lb, a, o, b, i)
    w.o['1'].set_attr(fluid={'water': 1.0})


def drum_bleed(w):
    for cls, lb in (('Source', 'so'), ('Drum', 'd'), ('SimpleHeatExchanger', 'e'), ('Sink', 'si'), ('Splitter', 's'), ('Sink', 'bl')):
        w.comp(cls, lb)
    for lb, a, o, b, i in (('1', 'so', 'out1', 'd', 'in1'), ('2', 'd', 'out1', 's', 'in1'), ('6', 's', 'out1', 'e', 'in1'), ('5', 's', 'out2', 'bl', 'in1'),
                           ('3', 'e', 'out1', 'd', 'in2'), ('4', 'd', 'out2', 'si', 'in1')):
        w.con(lb, a, o, b, i)
    w.o['1'].set_attr(fluid={'water': 1.0})


def branches(w):
    for cls, lb in (('Source', 'so'), ('Splitter', 's'), ('SimpleHeatExchanger', 'a'), ('Valve', 'b'), ('Merge', 'm'), ('Sink', 'si')):
        w.comp(cls, lb)
    for lb, a, o, b, i in (('1', 'so', 'out1', 's', 'in1'), ('2', 's', 'out1', 'a', 'in1'), ('3', 's', 'out2', 'b', 'in1'), ('4', 'a', 'out1', 'm', 'in1'),
                           ('5', 'b', 'out1', 'm', 'in2'), ('7', 'm', 'out1', 'si', 'in1')):
        w.con(lb, a, o, b, i)
    w.o['1'].set_attr(fluid={'water': 1.0})


def mixing(w):
    for cls, lb in (('Source', 'a'), ('Source', 'b'), ('Merge', 'm'), ('HeatExchanger', 'h'), ('Sink', 'c'), ('Source', 'w'), ('Sink', 'wo')):
        w.comp(cls, lb)
    for lb, a, o, b, i in (('1', 'a', 'out1', 'm', 'in1'), ('2', 'b', 'out1', 'm', 'in2'), ('3', 'm', 'out1', 'h', 'in1'), ('4', 'h', 'out1', 'c', 'in1'),
                           ('6', 'w', 'out1', 'h', 'in2'), ('7', 'h', 'out2', 'wo', 'in1')):
        w.con(lb, a, o, b, i)
    w.o['1'].set_attr(fluid={'N2': 0.7, 'O2': 0.3}, mixing_rule='ideal')
    w.o['2'].set_attr(fluid={'CO2': 0.6, 'O2': 0.4}, mixing_rule='ideal')
    w.o['6'].set_attr(fluid={'water': 1.0})


ENGINE = [(f'in{i}', k) for i in (1, 2, 3, 4) for k in 'mT'] + [(k, 'p') for k in ('in1', 'in2', 'out1', 'out2', 'out3')]
