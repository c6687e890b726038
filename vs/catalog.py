"""Catalogue of single-component harness networks, generated from the
components' own parameter declarations (so a parameter added to a component is
picked up by itself)."""
import re

from tespy.components.component import component_registry

from .props.jac import WATER

R = component_registry.items

PURE = ['SimpleHeatExchanger', 'Pipe', 'ParabolicTrough', 'SolarCollector',
        'HeatExchanger', 'Condenser', 'Desuperheater', 'Valve',
        'Turbomachine', 'Compressor', 'Pump', 'Turbine', 'SteamTurbine',
        'MovingBoundaryHeatExchanger']
MIX = {'N2': 0.7, 'O2': 0.3}


def get_class(n):
    if n == 'MovingBoundaryHeatExchanger':
        from tespy.components.heat_exchangers.movingboundary import MovingBoundaryHeatExchanger
        return MovingBoundaryHeatExchanger
    return R[n]


def documented_vars(cls):
    """Parameters whose documentation offers "var"."""
    doc = cls.__doc__ or ''
    return set(re.findall(r'^\s*(\w+)\s*:\s*float, dict, :code:`"var"`', doc, re.M))


class Spec:
    def __init__(self, name, cls, make, param=None, var=None, group=None):
        self.name = name
        self.cls = cls
        self.make = make
        self.param = param
        self.var = var
        self.group = group


def specs(n, with_var=True):
    """All single-equation specifications of component class ``n``."""
    from tespy.tools.data_containers import (
        ComponentCharacteristics as dc_cc, ComponentProperties as dc_cp,
        GroupedComponentCharacteristics as dc_gcc, GroupedComponentProperties as dc_gcp,
        ComponentCharacteristicMaps as dc_cm, SimpleDataContainer as dc_s)
    C = get_class(n)
    o = C('c')
    dv = documented_vars(C) if with_var else set()
    out = []
    for k, d in o.parameters.items():
        if isinstance(d, dc_gcp):
            def mk(C=C, k=k, d=d, v=None):
                c = C('c')
                for e in d.elements:
                    x = c.get_attr(e)
                    if isinstance(x, dc_cp):
                        c.set_attr(**{e: 'var' if e == v else 1.0})
                    else:
                        x.set_attr(is_set=True)
                return c
            out.append(Spec(f'{n}.{k}', C, mk, k, group=True))
            for e in d.elements:
                if e in dv:
                    out.append(Spec(f'{n}.{k}[{e}=var]', C, (lambda mk=mk, e=e: mk(v=e)), k, e, True))
        elif isinstance(d, dc_gcc):
            def mk(C=C, k=k, d=d):
                c = C('c')
                for e in d.elements:
                    c.get_attr(e).set_attr(is_set=True)
                return c
            out.append(Spec(f'{n}.{k}', C, mk, k, group=True))
        elif isinstance(d, dc_cm) and d.num_eq:
            def mk(C=C, k=k, v=None):
                c = C('c', igva='var' if v else 5.0)
                c.get_attr(k).set_attr(is_set=True)
                return c
            out.append(Spec(f'{n}.{k}', C, mk, k))
            if 'igva' in dv:
                out.append(Spec(f'{n}.{k}[igva=var]', C, (lambda mk=mk: mk(v=1)), k, 'igva'))
        elif isinstance(d, dc_cc) and d.num_eq:
            for par in char_params(d, k):
                def mk(C=C, k=k, par=par):
                    c = C('c')
                    c.get_attr(k).set_attr(is_set=True)
                    if par:
                        c.get_attr(k).param = par
                    return c
                out.append(Spec(f'{n}.{k}' + (f'({par})' if par else ''), C, mk, k))
        elif isinstance(d, dc_cp) and d.num_eq:
            out.append(Spec(f'{n}.{k}', C, (lambda C=C, k=k: C('c', **{k: 1.0})), k))
            if k in dv:
                out.append(Spec(f'{n}.{k}=var', C, (lambda C=C, k=k: C('c', **{k: 'var'})), k, k))
        elif isinstance(d, dc_s) and d.num_eq:
            out.append(Spec(f'{n}.{k}', C, (lambda C=C, k=k: C('c', **{k: True})), k))
    return out


CHAR_PARAMS = ('m', 'm_out', 'v', 'pr', None)


def char_params(d, k):
    if k == 'dp_char':
        return ('m', 'm_out', 'v')
    if d.param in ('m', 'v', 'pr'):
        return ('m', 'm_out', 'v', 'pr')
    return (None,)


def n_in(n):
    return len(get_class(n)('c').inlets())


# ------------------------------------------------------------------ specials
AIR = {'N2': 0.75, 'O2': 0.25}
AIR3 = {'N2': 0.74, 'O2': 0.24, 'CO2': 0.02}
FUEL = {'CH4': 0.9, 'N2': 0.1}
FLUE = ['N2', 'O2', 'CO2', 'H2O', 'CH4']


def plain():
    """(name, make, inlet fluids, comp_net keywords, composition columns?)"""
    C = get_class
    H2O = {'H2O': 1}
    two = [{'N2': 0.7, 'O2': 0.3}, {'N2': 0.5, 'O2': 0.2, 'CO2': 0.3}]
    out = [
        ('Merge 2 pure', lambda: C('Merge')('c'), [WATER] * 2, {}, True),
        ('Merge 3 pure', lambda: C('Merge')('c', num_in=3), [WATER] * 3, {}, True),
        ('Merge 2 mixtures', lambda: C('Merge')('c'), two, {'mixing': 'ideal'}, True),
        ('Merge 3 mixtures', lambda: C('Merge')('c', num_in=3), two + [{'CO2': 1}], {'mixing': 'ideal'}, True),
        ('Splitter 2', lambda: C('Splitter')('c'), [WATER], {}, True),
        ('Splitter 3 mixture', lambda: C('Splitter')('c', num_out=3), [AIR3], {'mixing': 'ideal'}, True),
        ('Separator 2', lambda: C('Separator')('c'), [AIR], {'variable_fluids': ['N2', 'O2'], 'mixing': 'ideal'}, 'sep'),
        ('Separator 3', lambda: C('Separator')('c', num_out=3), [AIR3],
         {'variable_fluids': ['N2', 'O2', 'CO2'], 'mixing': 'ideal'}, 'sep'),
        ('DropletSeparator', lambda: C('DropletSeparator')('c'), [WATER], {}, True),
        ('Drum', lambda: C('Drum')('c'), [WATER, WATER], {}, True),
        ('SubsystemInterface 2', lambda: C('SubsystemInterface')('c', num_inter=2), [WATER, AIR], {'mixing': 'ideal'}, True),
    ]
    for k, kw in {'-': {}, 'Q': {'Q': -1.0}, 'pr': {'pr': 1.0}, 'zeta': {'zeta': 1.0}, 'eta': {'eta': 0.5},
                  'e': {'e': -1.0}, 'P': {'P': -1.0}}.items():
        out.append((f'FuelCell.{k}', lambda kw=kw: C('FuelCell')('c', **kw),
                    [H2O, {'O2': 1}, {'H2': 1}], {}, True))
    for k, kw in {'-': {}, 'Q': {'Q': -1.0}, 'pr': {'pr': 1.0}, 'zeta': {'zeta': 1.0}, 'eta': {'eta': 0.5},
                  'e': {'e': 1.0}, 'e var': {'e': 'var'}, 'P': {'P': 1.0}}.items():
        out.append((f'WaterElectrolyzer.{k}', lambda kw=kw: C('WaterElectrolyzer')('c', **kw),
                    [H2O, H2O], {'engines': ['O2', 'H2']}, True))

    def etachar(c):
        c.get_attr('eta_char').set_attr(is_set=True)
        return c
    out.append(('WaterElectrolyzer.eta_char', lambda: etachar(C('WaterElectrolyzer')('c')), [H2O, H2O], {'engines': ['O2', 'H2']}, True))
    for n, ks in (('CombustionChamber', {'-': {}, 'lamb': {'lamb': 2.0}, 'ti': {'ti': 1e5}}),
                  ('DiabaticCombustionChamber', {'-': {}, 'lamb': {'lamb': 2.0}, 'ti': {'ti': 1e5},
                                                 'pr': {'pr': 0.9}, 'eta': {'eta': 0.9}})):
        for k, kw in ks.items():
            out.append((f'{n}.{k}', lambda n=n, kw=kw: C(n)('c', **kw), [AIR, FUEL],
                        {'variable_fluids': FLUE, 'mixing': 'ideal'}, 'comb'))
    for k, kw in {'-': {}, 'lamb': {'lamb': 2.0}, 'ti': {'ti': 1e5}, 'P': {'P': -1.0}, 'Q1': {'Q1': -1.0},
                  'Q2': {'Q2': -1.0}, 'Qloss': {'Qloss': -1.0}, 'pr1': {'pr1': 0.9}, 'pr2': {'pr2': 0.9},
                  'zeta1': {'zeta1': 1.0}, 'zeta2': {'zeta2': 1.0},
                  'vars': {'P': 'var', 'Qloss': 'var'}}.items():
        out.append((f'CombustionEngine.{k}', lambda kw=kw: C('CombustionEngine')('c', **kw),
                    [{'H2O': 1}, {'H2O': 1}, AIR, FUEL], {'variable_fluids': FLUE, 'mixing': 'ideal'}, 'comb'))
    return out
