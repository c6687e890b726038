"""D01: design and off-design mode use the specifications and design data they document."""
import contextlib
import json
import os
import shutil
import tempfile

import numpy as np
import pandas

from run import Case

from .. import net, pipe
from .. import sym as S
from . import eqs, r02, t01

META = {
    'bounds': 'networks of four kinds (pressure losses and efficiencies, connection properties and references, heat exchanger, '
              'bus); every value of the design files and of the specifications symbolic; files and networks in different units; '
              'earlier calculations: none, off-design with the same or another design path, design, and sequences of them '
              '(symbolic choice); individual design paths, local_design and local_offdesign',
    'assumptions': ['the design files have the layout Network.save writes'],
    'outside': 'reading csv files by pandas',
}
FILE = object()
RANGE = dict(r02.RANGE, vol=(1e-4, 1e2), s=(100.0, 1e4))


class Files:
    """Contents of the design folders A, B, C: symbolic tables."""

    def __init__(self, env, w, units):
        self.env, self.w, self.units = env, w, units
        self.dir = tempfile.mkdtemp(prefix='d01_')
        self.bus = {}
        for i, f in enumerate('ABC'):
            os.mkdir(os.path.join(self.dir, f))
            self.bus[f] = 1e5 * (i + 1)
            with open(os.path.join(self.dir, f, 'busses.json'), 'w') as fh:
                json.dump({b: {c.label: self.bus[f] for c in w.bus[b].comps.index} for b in w.bus}, fh)

    def path(self, f):
        return os.path.join(self.dir, f)

    def conn(self, f, label, prop):
        """Value in the unit of the file."""
        u = self.units[f].get(prop, 'K')
        lo, hi = RANGE[prop]
        if prop == 'm':                                   # one mass flow per branch
            label = self.w.branch.get(label, '')
        return self.env.var(f'file {f}: {label}.{prop}', r02.user(prop, lo, u), r02.user(prop, hi, u))

    def conn_si(self, f, label, prop):
        return r02.to_si(prop, self.conn(f, label, prop), self.units[f].get(prop, 'K'))

    def comp(self, f, label, key):
        lo, hi = net.PARAM_RANGE.get(key, (0.1, 10.0))
        return self.env.var(f'file {f}: {label}.{key}', lo, hi)

    def read_csv(self, path, *a, **k):
        from tespy.tools.data_containers import ComponentProperties as dc_cp
        rel = os.path.relpath(str(path), self.dir).split(os.sep)
        f = rel[0]
        num = lambda x: int(x) if x.isdigit() else x
        if rel[-1] == 'connections.csv':
            rows, cols = {}, None
            for c in self.w.nw.conns['object']:
                r = {}
                for p in r02.SI:
                    r[p] = self.conn(f, c.label, p)
                    r[p + '_unit'] = self.units[f].get(p, 'K')
                for fl in sorted({x for k in self.w.nw.conns['object'] for x in k.fluid.val}):
                    r[fl] = 1.0 if fl in c.fluid.val else float('nan')
                rows[c.label], cols = list(r.values()), list(r)
        else:
            cls = rel[-1][:-4]
            rows, cols = {}, None
            for c in self.w.nw.comps['object']:
                if c.__class__.__name__ == cls:
                    cols = [k for k, d in c.parameters.items() if isinstance(d, dc_cp)]
                    rows[c.label] = [self.comp(f, c.label, k) for k in cols]
            if not rows:
                raise FileNotFoundError(path)
        idx = [num(l) for l in rows]
        if not all(isinstance(i, int) for i in idx):
            idx = list(rows)
        return pandas.DataFrame(list(rows.values()), index=idx, columns=cols, dtype=object)

    @contextlib.contextmanager
    def mounted(self):
        import tespy.networks.network as N
        old = N.pd
        files = self

        class PD:
            def __getattr__(self, k):
                return getattr(old, k)

            @staticmethod
            def read_csv(*a, **k):
                return files.read_csv(*a, **k)
        N.pd = PD()
        try:
            yield
        finally:
            N.pd = old


def scramble(w, units, n):
    """Results of a calculation: all values that are not specified change."""
    for i, c in enumerate(w.nw.conns['object']):
        for p in r02.SI:
            d = c.get_attr(p)
            if not d.is_set:
                lo, hi = RANGE[p]
                d.val_SI = (lo * hi) ** 0.5 * (1.1 + 0.1 * n + (0.01 * i if p != 'm' else 0)) if lo > 0 else 0.01 * n + 0.001 * i
                d.val = r02.user(p, d.val_SI, units.get(p, 'K'))
    for cp in w.nw.comps['object']:
        for k, d in cp.parameters.items():
            if hasattr(d, 'val') and isinstance(d.val, float) and not d.is_set:
                d.val = 0.37 + 0.01 * n


HIST = {
    'none': '', 'off-design, same path': 'A', 'off-design, other path': 'B', 'design': 'd', 'off-design, design': 'Ad',
    'design, other path, design': 'dBd', 'same path twice': 'AA', 'other path, same path': 'BA',
}


class Spec:
    """Specifications of a world in both modes."""

    def __init__(self, build, design, lists, off, local=None):
        self.build, self.design, self.lists, self.off = build, design, lists, off
        self.local = local or {}


def si_world(spec, values):
    """The same network in SI units with explicit specifications."""
    f = t01.World(spec.build)
    f.become(values)
    return f


def expected(env, files, w, spec, mode, own):
    """Specifications (SI) and design data that apply in ``mode``."""
    out = {}
    src = {}
    for lb, o in w.o.items():
        loc = spec.local.get(lb, {})
        off = (mode == 'offdesign' and not loc.get('local_design')) or (mode == 'design' and loc.get('local_offdesign'))
        src[lb] = (loc.get('design_path', 'A')) if off else None
        d = dict(own.get(lb, {}))
        li = spec.lists.get(lb, {})
        if off:
            for k in li.get('design', []):
                d.pop(k, None)
            for k in li.get('offdesign', []):
                if hasattr(o, 'property_data'):
                    d[k] = files.conn_si(src[lb], lb, k)
                else:
                    from tespy.tools.data_containers import ComponentProperties as dc_cp
                    d[k] = files.comp(src[lb], lb, k) if isinstance(o.get_attr(k), dc_cp) else {'is_set': True}
        out[lb] = d
    for k in ('busses', 'ude'):
        if k in own:
            out[k] = own[k]
    return out, src


def to_si(w, spec, units):
    """Specification in network units -> SI."""
    out = {}
    for lb, kw in spec.items():
        if lb in ('busses', 'ude'):
            out[lb] = kw
            continue
        d = out[lb] = {}
        for k, v in kw.items():
            if hasattr(w.o[lb], 'property_data') and k in r02.SI and not isinstance(v, tuple):
                v = r02.to_si(k, v, units.get(k, 'K'))
            elif isinstance(v, tuple):
                k0 = 'Td_bp' if k == 'T' else k
                v = (v[0], v[1], r02.to_si(k0, v[2], units.get(k, 'K')))
            d[k] = v
    return out


UNITS = {'A': r02.OTHER, 'B': r02.DEFAULT, 'C': dict(r02.OTHER, T='K', p='kPa', m='kg / s')}
NW_UNITS = r02.OTHER


def scenario(spec, mode, hist=tuple(HIST), moved=None):
    def first(env):
        t01_net = net.new_network
        net.new_network = lambda **kw: t01_net(**{f'{k}_unit': u for k, u in NW_UNITS.items()}, **kw)
        try:
            w = t01.World(spec.build)
        finally:
            net.new_network = t01_net
        w.order = HIST[hist[t01.choose(env, 'earlier calculations', len(hist))]]
        return w

    def run(w, env):
        own = t01.symbolic(units_of(w, spec.design), env)
        w.become(own)
        files = Files(env, w, UNITS)
        try:
            return check(w, env, own, files)
        finally:
            shutil.rmtree(files.dir)

    def check(w, env, own, files):
        for lb, li in spec.lists.items():
            w.o[lb].set_attr(**li)
        for lb, li in spec.local.items():
            w.o[lb].set_attr(**{k: files.path(v) if k == 'design_path' else v for k, v in li.items()})
        out = []
        with pipe.tables(env), files.mounted():
            for n, m in enumerate(w.order):
                if m == 'd':
                    w.nw.solve('design', init_only=True)
                else:
                    w.nw.solve('offdesign', design_path=files.path(m), init_only=True)
                scramble(w, NW_UNITS, n)
            if w.order and (mode == 'design' or any(l.get('local_design') for l in spec.local.values())):
                # values of parameters that were free: the results, unless specified again
                again = env.var('specified again', 0, 1) < 0.5
                own = {k: dict(v) if isinstance(v, dict) else v for k, v in own.items()}
                for lb, li in spec.lists.items():
                    for k in li.get('design', []):
                        if isinstance(own[lb][k], tuple):
                            continue
                        if again:
                            own[lb][k] = env.var(f'{k} {lb} (again)', *again_range(w, lb, k))
                            w.set(lb, **{k: own[lb][k]})
                        elif 'A' in w.order or 'B' in w.order:
                            own[lb][k] = w.o[lb].get_attr(k).val
            if moved:                                     # a specification moves to another connection
                a, b, k = moved
                own = {l: dict(v) if isinstance(v, dict) else v for l, v in own.items()}
                own.setdefault(b, {})[k] = own[a].pop(k)
                w.set(a, **{k: None})
                w.set(b, **{k: own[b][k]})
            kw = {'design_path': files.path('A')} if mode == 'offdesign' else {}
            net.initialise(w.nw, mode, allow_count=False, **kw)
        exp, src = expected(env, files, w, spec, mode, to_si(w, own, NW_UNITS))
        f = si_world(spec, exp)
        with pipe.tables(env):
            net.initialise(f.nw, allow_count=False)
        from tespy.tools.data_containers import ComponentProperties as dc_cp
        for lb, o in w.o.items():
            if hasattr(o, 'property_data'):
                for p in r02.SI:
                    d = o.get_attr(p).design
                    if src[lb] and p != 'vol':
                        want = files.conn_si(src[lb], lb, p)
                        ok = S.is_sym(d) or d == d
                        out.append(eqs.Eq(f'design value {p} of {lb}', d, want, near=scale(p)) if ok
                                   else eqs.Holds(f'design value {p} of {lb}', False, 'there is none'))
                        f.o[lb].get_attr(p).design = d if ok else want
                    elif src[lb]:
                        want = files.conn_si(src[lb], lb, 'v') / files.conn_si(src[lb], lb, 'm')
                        out.append(eqs.Eq(f'design value vol of {lb}', d, want))
                        f.o[lb].get_attr(p).design = d
                    elif mode == 'design' and p in 'mph' and not (p == 'm' and shares(w, lb, spec)):
                        out.append(eqs.Holds(f'no design value {p} of {lb}', not S.is_sym(d) and np.isnan(d)))
            else:
                for k, d in o.parameters.items():
                    if isinstance(d, dc_cp):
                        if src[lb]:
                            out.append(eqs.Eq(f'design value {k} of {lb}', d.design, files.comp(src[lb], lb, k)))
                            f.o[lb].get_attr(k).design = d.design
                        else:
                            out.append(eqs.Holds(f'no design value {k} of {lb}', not S.is_sym(d.design) and np.isnan(d.design)))
        for b in w.bus:
            for c in w.bus[b].comps.index:
                d = w.bus[b].comps.loc[c, 'P_ref']
                if mode == 'offdesign':
                    out.append(eqs.Eq(f'design value of {c.label} on bus {b}', d, files.bus['A']))
                    f.bus[b].comps.loc[f.o[c.label], 'P_ref'] = d
                else:
                    out.append(eqs.Holds(f'no design value of {c.label} on bus {b}', np.isnan(d)))
        va, ra = values(w, env)
        vb, rb = values(f, env)
        out.append(eqs.Holds('same variables', va == vb, f'{sorted(set(va) ^ set(vb))}'))
        if va == vb:
            compare(ra, rb, out)
        # specifications afterwards
        w.nw.reset_topology_reduction_specifications()
        f.nw.reset_topology_reduction_specifications()
        a, b = t01.snapshot(w), t01.snapshot(f)
        for k in b:
            if isinstance(b[k], bool) and a.get(k) != b[k]:
                out.append(eqs.Holds(f'specification {k} afterwards', False, f'{a.get(k)} / {b[k]}'))
        out.append(eqs.Holds('specifications afterwards', True))
        return out
    return dict(first=first, run=run)


def shares(w, lb, spec):
    """The mass flow data are those of a connection with individual off-design mode."""
    own = w.branch.get(lb)
    return any(l.get('local_offdesign') and hasattr(w.o[x], 'property_data') and w.branch.get(x) == own for x, l in spec.local.items())


def scale(p):
    return max(abs(x) for x in RANGE[p]) or 1.0


def again_range(w, lb, k):
    if hasattr(w.o[lb], 'property_data'):
        u = NW_UNITS.get(k, 'K')
        return tuple(r02.user(k, x, u) for x in RANGE[k])
    return net.PARAM_RANGE.get(k, (0.1, 10.0))


def units_of(w, spec):
    """Numbers of the specification given in SI -> network units."""
    out = {}
    for lb, kw in spec.items():
        if lb in ('busses', 'ude'):
            out[lb] = kw
            continue
        out[lb] = {k: r02.user(k, v, NW_UNITS.get(k, 'K')) if hasattr(w.o[lb], 'property_data') and k in r02.SI and isinstance(v, float)
                   else v for k, v in kw.items()}
    return out


def values(w, env):
    nw = w.nw
    net.char_stubs(nw)
    vs = net.variables(nw)
    names = {}
    for col in sorted(vs):
        nm, g, st = vs[col]
        k = nm.split('@')[0]
        lo, hi = pipe.RANGE.get(k, net.X_RANGE if k.startswith('x_') else net.PARAM_RANGE.get(k, (0.1, 10.0)))
        st(env.var(f'var {nm}', lo, hi))
        names[nm] = names.get(nm, 0) + 1
    net.rebuild_fluid_data(nw)
    if env.symbolic:
        net.to_object(nw)
    rows = {}
    for n, r in zip(net.row_names(nw), net.evaluate(nw, env.symbolic)[0]):
        rows.setdefault(n, []).append(r)
    return names, rows


def compare(a, b, out):
    out.append(eqs.Holds('same equations', set(a) == set(b), f'{sorted(set(a) ^ set(b))}'))
    for k in b:
        for x, y in zip(a.get(k, []), b[k]):
            out.append(eqs.Eq(f'equation {k}', x, y, scale=abs(x) if not S.is_sym(x) else 0, rel=1e-6))


# -- networks
def plant(w):
    w.branch = {}
    for c, l in (('Source', 'so'), ('Valve', '7'), ('SimpleHeatExchanger', 'hx'), ('Compressor', 'cp'), ('Sink', 'si')):
        w.comp(c, l)
    w.con('1', 'so', 'out1', '7', 'in1')
    w.con('2', '7', 'out1', 'hx', 'in1')
    w.con('3', 'hx', 'out1', 'cp', 'in1')
    w.con('4', 'cp', 'out1', 'si', 'in1')


WATER = {'water': 1.0}
LOSSES = dict(
    design={'1': dict(m=2.0, p=5e5, T=300.0, fluid=WATER), '2': dict(p=4e5), '3': {}, 'hx': dict(pr=0.9, Q=1e5), 'cp': dict(eta_s=0.8),
            '4': dict(p=2e6), '7': {}},
    lists={'1': dict(design=['m'], offdesign=['v']), '2': dict(design=['p']), '7': dict(offdesign=['zeta']),
           'hx': dict(design=['pr'], offdesign=['zeta']), 'cp': dict(design=['eta_s'], offdesign=['eta_s_char'])})
CONNS = dict(
    design={'1': dict(p=5e5, T=300.0, fluid=WATER), '3': dict(m=2.0, T=350.0), '2': dict(p=('1', 0.8, 0.0)), '4': dict(p=2e6),
            'hx': dict(pr=0.9), 'cp': dict(eta_s=0.8), '7': {}},
    lists={'3': dict(design=['m', 'T'], offdesign=['x']), '4': dict(design=['p'], offdesign=['m']), '2': dict(design=['p'], offdesign=['v']),
           'cp': dict(offdesign=['pr'])})
NOREF = dict(CONNS, design=dict(CONNS['design'], **{'2': dict(p=4e5)}))


def exchanger(w):
    w.branch = {'3': 'b', '4': 'b'}
    for c, l in (('Source', 's1'), ('Source', 's2'), ('HeatExchanger', 'hx'), ('Sink', 'k1'), ('Sink', 'k2')):
        w.comp(c, l)
    w.con('1', 's1', 'out1', 'hx', 'in1')
    w.con('2', 'hx', 'out1', 'k1', 'in1')
    w.con('3', 's2', 'out1', 'hx', 'in2')
    w.con('4', 'hx', 'out2', 'k2', 'in1')


HX = dict(
    design={'1': dict(m=2.0, p=5e5, T=500.0, fluid=WATER), '3': dict(m=5.0, p=4e5, T=300.0, fluid={'R134a': 1.0}),
            'hx': dict(ttd_u=20.0, pr1=0.9, pr2=0.95), '2': {}, '4': {}},
    lists={'hx': dict(design=['ttd_u', 'pr1', 'pr2'], offdesign=['kA', 'zeta1', 'zeta2']), '4': dict(offdesign=[])})


def C(nm, spec, mode, hist=tuple(HIST), moved=None):
    return Case(nm, lambda: eqs.case(nm, max_paths=400, budget=250, vacuity=False, **scenario(spec, mode, hist, moved)), limit=600)


def cases(tier):
    out = []
    LOC = {'hx': dict(design_path='C'), '3': dict(design_path='C'), '1': dict(design_path='B')}
    worlds = {
        'losses and efficiencies': Spec(plant, local={}, off=None, **LOSSES),
        'losses and efficiencies, individual paths': Spec(plant, local=LOC, off=None, **LOSSES),
        'losses and efficiencies, local design': Spec(plant, local={'hx': dict(local_design=True), '1': dict(local_design=True)}, off=None, **LOSSES),
        'connection properties': Spec(plant, local={}, off=None, **NOREF),
        'connection properties and references': Spec(plant, local={}, off=None, **CONNS),
        'heat exchanger': Spec(exchanger, local={}, off=None, **HX),
    }
    for k, s in worlds.items():
        for mode in ('offdesign', 'design'):
            if 'local' in k and mode == 'design' or 'individual' in k and mode == 'design':
                continue
            for h in HIST:
                out.append(C(f'{k}, {mode} after {h}', s, mode, (h,)))
    loff = {'hx': dict(local_offdesign=True, design_path='C'), '1': dict(local_offdesign=True, design_path='B'),
            '7': {}}
    for h in HIST:
        out.append(C(f'local off-design after {h}', Spec(plant, local=loff, off=None, **LOSSES), 'design', (h,)))
    loff = {'7': dict(local_offdesign=True, design_path='C'), '2': dict(local_offdesign=True, design_path='C')}
    for h in HIST:
        out.append(C(f'local off-design of a component and its outlet after {h}', Spec(plant, local=loff, off=None, **LOSSES), 'design', (h,)))
    plain = dict(LOSSES, lists={k: v for k, v in LOSSES['lists'].items() if k != '1'})
    for b in '234':
        for h in HIST:
            out.append(C(f'mass flow specification moved to {b} after {h}', Spec(plant, local={}, off=None, **plain), 'offdesign', (h,), ('1', b, 'm')))
    bus = dict(LOSSES, design=dict(LOSSES['design'], busses={'b': (5e4, [('cp', 'component')])}, hx=dict(pr=0.9)))
    for mode in ('offdesign', 'design'):
        for h in HIST:
            out.append(C(f'bus, {mode} after {h}', Spec(plant, local={}, off=None, **bus), mode, (h,)))
    return out
