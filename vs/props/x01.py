"""X01: an exported network, loaded again, is the same network."""
import contextlib
import json
import shutil
import tempfile

import numpy as np

from run import Case

from .. import catalog, fluids, net
from .. import sym as S
from . import eqs, r02, t01

META = {
    'bounds': 'networks of four kinds after an earlier set of specifications and calculation (symbolic choice), every component class with every '
              'specification it offers, connections with all attributes, busses, characteristic lines and maps; all values symbolic',
    'assumptions': ['json writes and reads numbers without loss'],
    'outside': 'user defined equations and callables (not exported by design), custom classes, results tables',
}


# -- files that keep symbolic values
class Json:
    def __init__(self):
        self.vals = []

    def enc(self, o):
        if S.is_sym(o):
            self.vals.append(o)
            return f'@symbolic {len(self.vals) - 1}'
        if isinstance(o, dict):
            return {k: self.enc(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [self.enc(v) for v in o]
        return o

    def dec(self, o):
        if isinstance(o, str) and o.startswith('@symbolic '):
            return self.vals[int(o.split()[1])]
        if isinstance(o, dict):
            return {k: self.dec(v) for k, v in o.items()}
        if isinstance(o, list):
            return [self.dec(v) for v in o]
        return o

    def dump(self, o, f, **kw):
        json.dump(self.enc(o), f, **kw)

    def dumps(self, o, **kw):
        return json.dumps(self.enc(o), **kw)

    def load(self, f, **kw):
        return self.dec(json.load(f, **kw))

    def loads(self, s, **kw):
        return self.dec(json.loads(s, **kw))

    def __getattr__(self, k):
        return getattr(json, k)


@contextlib.contextmanager
def files():
    import tespy.networks.network as N
    import tespy.networks.network_reader as R
    from tespy.tools.fluid_properties.wrappers import wrapper_registry
    eng = fluids.StubFluid()
    j = Json()
    old = [(m, m.__dict__['json']) for m in (N, R) if 'json' in m.__dict__]
    known = dict(wrapper_registry.items)
    wrapper_registry.items[eng.__name__] = eng
    d = tempfile.mkdtemp(prefix='x01_')
    for m, _ in old:
        m.json = j
    try:
        yield d
    finally:
        for m, o in old:
            m.json = o
        wrapper_registry.items.clear()
        wrapper_registry.items.update(known)
        shutil.rmtree(d)


def copy_of(nw):
    from tespy.networks import load_network
    with files() as d:
        nw.export(d)
        with t01.real_float():
            r = load_network(d)
    r.iterinfo = False
    return r


# -- everything a user specifies
def chars(out, nm, f):
    out[f'{nm} kind'] = type(f).__name__
    for a in 'xyz':
        if hasattr(f, a):
            v = np.asarray(getattr(f, a), dtype=object)
            out[f'{nm} {a} shape'] = v.shape
            for i, x in enumerate(v.ravel()):
                out[f'{nm} {a}{i}'] = x
    if hasattr(f, 'extrapolate'):
        out[f'{nm} extrapolate'] = bool(f.extrapolate)


def describe(nw):
    out = {}
    for u in ('m', 'p', 'h', 'T', 'x', 'v', 's', 'vol'):
        out[f'unit {u}'] = getattr(nw, f'{u}_unit')
    for k in 'mph':
        for i in (0, 1):
            out[f'{k}_range {i}'] = getattr(nw, f'{k}_range')[i]
    for c in nw.conns['object']:
        n = c.label
        out[f'{n} from'] = (c.source.label, c.source_id)
        out[f'{n} to'] = (c.target.label, c.target_id)
        common(out, c, n)
        out[f'{n} mixing rule'] = c.mixing_rule
        out[f'{n} state'] = (bool(c.state.is_set), c.state.val if c.state.is_set else None)
        for k in c.property_data:
            d = c.get_attr(k)
            if k == 'fluid':
                out[f'{n} fluid fixed'] = tuple(sorted(d.is_set))
                for f in sorted(d.is_set):
                    out[f'{n} fluid {f}'] = d.val[f]
                    out[f'{n} fluid {f} back end'] = d.back_end.get(f)
                for f, e in d.engine.items():
                    out[f'{n} fluid {f} engine'] = e.__name__
            else:
                out[f'{n} {k} set'] = bool(d.is_set)
                if k.endswith('_ref'):
                    if d.is_set:
                        out[f'{n} {k} of'] = d.ref.obj.label
                        out[f'{n} {k} factor'] = d.ref.factor
                        out[f'{n} {k} delta'] = d.ref.delta
                elif k != 'fluid_balance':
                    if d.is_set:
                        out[f'{n} {k}'] = d.val
                    if k in 'mph':
                        out[f'{n} {k}0'] = d.val0
    for cp in nw.comps['object']:
        n = cp.label
        out[f'{n} class'] = type(cp).__name__
        common(out, cp, n)
        out[f'{n} group'] = cp.fkt_group
        out[f'{n} warnings'] = bool(cp.char_warnings)
        for k, d in cp.parameters.items():
            if hasattr(d, 'elements'):
                continue
            out[f'{n} {k} set'] = bool(d.is_set)
            var = bool(getattr(d, 'is_var', False))
            out[f'{n} {k} variable'] = var
            if hasattr(d, 'val') and (d.is_set or var):
                out[f'{n} {k}'] = d.val
            if var:
                for a in ('min_val', 'max_val', 'd'):
                    out[f'{n} {k} {a}'] = getattr(d, a)
            if hasattr(d, 'char_func'):
                out[f'{n} {k} param'] = d.param
                if hasattr(d, 'char_params'):
                    out[f'{n} {k} char_params'] = tuple(str(x) for x in d.char_params.items())
                if d.char_func is not None:
                    chars(out, f'{n} {k}', d.char_func)
    for b in nw.busses.values():
        n = f'bus {b.label}'
        out[f'{n} set'] = bool(b.P.is_set)
        if b.P.is_set:
            out[f'{n} P'] = b.P.val
        for cp in b.comps.index:
            r = b.comps.loc[cp]
            out[f'{n} {cp.label} param'] = r['param']
            out[f'{n} {cp.label} base'] = r['base']
            chars(out, f'{n} {cp.label}', r['char'])
    return out


def common(out, o, n):
    for k in ('design', 'offdesign'):
        out[f'{n} {k}'] = tuple(getattr(o, k))
    for k in ('local_design', 'local_offdesign', 'printout'):
        out[f'{n} {k}'] = bool(getattr(o, k))
    out[f'{n} design path'] = o.design_path


def nothing(x):
    return x is None or not S.is_sym(x) and isinstance(x, float) and x != x


def same(a, b, out):
    out.append(eqs.Holds('same objects', set(a) == set(b), f'{sorted(set(a) ^ set(b))}'))
    for k in b:
        if k not in a:
            continue
        x, y = a[k], b[k]
        num = lambda v: S.is_sym(v) or isinstance(v, (int, float)) and not isinstance(v, bool) and v == v
        if num(x) and num(y):
            out.append(eqs.Eq(k, x, y))
        elif not (x == y or nothing(x) and nothing(y)):
            out.append(eqs.Holds(k, False, f'{x!r} instead of {y!r}'))


def world(w, nw):
    """The loaded network as a world of the same kind."""
    r = t01.World.__new__(t01.World)
    r.nw = nw
    r.o = {c.label: c for c in nw.conns['object']}
    r.o.update({c.label: c for c in nw.comps['object']})
    r.bus = dict(nw.busses)
    r.ude = {}
    r.spec = {k: dict(v) for k, v in w.spec.items() if k not in ('busses', 'ude')}
    return r


def systems(a, b, env, out, what):
    for w in (a, b):
        net.char_stubs(w.nw)
    va, ra, xa = t01.system(a, env)
    vb, rb, xb = t01.system(b, env)
    out.append(eqs.Holds(f'{what}: same variables', va == vb, f'{set(va) ^ set(vb)}'))
    t01.compare(f'{what}: equation', ra, rb, out)
    for w in (a, b):
        w.nw.reset_topology_reduction_specifications()


def history(build, specs, firsts, final, then):
    def first(env):
        w = t01.World(build)
        if firsts:
            w.become(specs[firsts[t01.choose(env, 'first specification', len(firsts))]])
            t01.calculate(w, env, 'calculation 1')
        return w

    def run(w, env):
        if any(c.fluid.val and sum(c.fluid.val.values()) == 0 for c in w.nw.conns['object']):
            return [eqs.Holds('no composition left as starting value', True)]
        w.become(t01.symbolic(specs[final], env))
        w.nw.check_network()
        out = []
        before = describe(w.nw)
        l = world(w, copy_of(w.nw))
        same(describe(w.nw), before, out)
        same(describe(l.nw), before, out)
        systems(l, w, env, out, 'loaded')
        for s in then:
            new = specs[s]
            w.become(new)
            l.become(new)
            systems(l, w, env, out, 'specified again')
        return out
    return dict(first=first, run=run)


def component(spec, n):
    """Every specification of a component class."""
    def run(_, env):
        return build(spec[0](), env)

    def build(comp, env):
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        from tespy.tools.data_containers import ComponentProperties as dc_cp
        eng = fluids.StubFluid()
        nw = net.new_network()
        in_f, kw = spec[1], spec[2]
        conns = [Connection(Source(f'src{i}'), 'out1', comp, p, label=f'i{i}') for i, p in enumerate(comp.inlets())]
        m = len(conns)
        conns += [Connection(comp, p, Sink(f'snk{i}'), 'in1', label=f'o{i}') for i, p in enumerate(comp.outlets())]
        allf = sorted({f for d in in_f for f in (d or {})} | set(kw.get('variable_fluids') or ()) | set(kw.get('engines', ())))
        for i, c in enumerate(conns):
            c.set_attr(fluid_engines={f: eng for f in allf})
            if i < m and in_f[i]:
                c.set_attr(fluid=in_f[i])
            if kw.get('mixing'):
                c.set_attr(mixing_rule=kw['mixing'])
        nw.add_conns(*conns)
        for k, d in comp.parameters.items():
            if isinstance(d, dc_cp):
                lo, hi = RANGE.get(k, net.PARAM_RANGE.get(k, (0.1, 10.0)))
                if d.is_set or d.is_var:
                    d.val = env.var(f'c.{k}', lo, hi)
                if d.is_var:
                    d.min_val = env.var(f'c.{k} min', lo / 2 if lo > 0 else 2 * lo, lo)
                    d.max_val = env.var(f'c.{k} max', hi, 2 * hi)
                    d.d = env.var(f'c.{k} d', 1e-6, 1e-2)
            f = getattr(d, 'char_func', None)
            if f is not None and hasattr(f, 'y'):
                for a in 'yz':
                    if hasattr(f, a):
                        v = np.array(getattr(f, a), dtype=object)
                        for i in np.ndindex(v.shape):
                            if sum(i) % 3 == 0:
                                v[i] = env.var(f'c.{k}.{a}{i}', 0.1, 2.0)
                        setattr(f, a, v if env.symbolic else v.astype(float))
        nw.check_network()
        out = []
        before = describe(nw)
        l = copy_of(nw)
        same(describe(nw), before, out)
        same(describe(l), before, out)
        rows = []
        for x in (nw, l):
            net.initialise(x)
            net.char_stubs(x)
            inp = net.state_inputs(x)
            net.param_inputs(x, inp, design=True)
            inp.items = {k: v for k, v in inp.items.items() if not k.startswith('c.') or k.endswith('.design')}
            env.assign(inp)
            net.rebuild_fluid_data(x)
            if env.symbolic:
                net.to_object(x)
            c = [k for k in x.comps['object'] if k.label == 'c'][0]
            if 'Tamb' in c.parameters and c.Tamb.is_set:  # no exchange at exactly equal temperatures
                for k in (c.inl[0], c.outl[0]):
                    env.assume(k.calc_T() > 301)
            r = {}
            for nm, v in zip(net.row_names(x), net.evaluate(x, env.symbolic)[0]):
                r.setdefault(nm, []).append(v)
            rows.append((sorted(v[0] for v in net.variables(x).values()), r))
        out.append(eqs.Holds('same variables', rows[0][0] == rows[1][0], f'{set(rows[0][0]) ^ set(rows[1][0])}'))
        t01.compare('equation', rows[1][1], rows[0][1], out)
        return out
    return dict(run=run)


def attributes(units, variant):
    """All attributes of connections, components, busses and the network."""
    def run(_, env):
        from tespy.connections import Bus, Ref
        from tespy.tools.characteristics import CharLine, CharMap
        t = net.new_network
        net.new_network = lambda **kw: t(**{f'{k}_unit': u for k, u in units.items()}, **kw)
        try:
            w = t01.World(t01.cycle)
        finally:
            net.new_network = t
        u = lambda k, si: r02.user(k, si, units.get(k, 'K'))
        V = lambda nm, k, lo, hi: env.var(f'{nm}.{k}', u(k, lo), u(k, hi))
        o = w.o
        pattern = t01.choose(env, 'pattern of flags', 4)
        count = [0]

        def flag(nm):
            count[0] += 1
            return (False, True, count[0] % 2 == 0, count[0] % 4 < 2)[pattern]
        w.nw.set_attr(p_range=[V('range', 'p', 1e4, 2e4), V('range max', 'p', 1e7, 2e7)],
                      h_range=[V('range', 'h', 1e4, 2e4), V('range max', 'h', 1e6, 2e6)],
                      m_range=[V('range', 'm', -100.0, -1.0), V('range max', 'm', 100.0, 200.0)])
        o['1'].set_attr(m=V('1', 'm', 1.0, 9.0), p=V('1', 'p', 1e5, 3e5), T=V('1', 'T', 300.0, 350.0), fluid={'R134a': 1.0})
        o['7'].set_attr(p=V('7', 'p', 1e5, 2e5), T=V('7', 'T', 300.0, 310.0), fluid={'HEOS::water': 1.0}, h0=V('7', 'h', 1e5, 2e5), state='l')
        o['2'].set_attr(design=['p', 'T'], offdesign=['v'], p0=V('2', 'p', 5e5, 9e5), state='g')
        o['3'].set_attr(p=Ref(o['2'], env.var('factor', 0.5, 0.9), V('3', 'm', 0.0, 1.0)), x=V('3', 'x', 0.0, 1.0))
        if variant == 'temperature reference':
            o['8'].set_attr(T=Ref(o['7'], env.var('factor T', 0.5, 2.0), env.var('delta T', 1.0, 30.0)))
        else:
            o['8'].set_attr(Td_bp=env.var('superheating', 1.0, 30.0), v=V('8', 'v', 0.1, 1.0))
        o['5'].set_attr(m=Ref(o['1'], env.var('factor m', 0.5, 0.9), 0), h=V('5', 'h', 1e5, 2e5), fluid_balance=flag('balance'))
        o['5'].set_attr(m=None)
        o['4'].set_attr(state='l', mixing_rule='ideal')
        o['4'].set_attr(state=None)
        if variant == 'unspecified':
            o['1'].set_attr(T=None, fluid={'R134a': None})
            o['3'].set_attr(p=None)
        for c, nm in (('6', 'connection 6'), ('hx', 'component hx'), ('cp', 'component cp')):
            o[c].set_attr(local_design=flag(f'{nm} local design'), local_offdesign=flag(f'{nm} local off-design'),
                          printout=flag(f'{nm} printout'), design_path='some/path')
        o['hx'].set_attr(design=['pr1', 'ttd_u'], offdesign=['zeta1', 'kA_char'], pr1=env.var('pr1', 0.5, 1.0), fkt_group='group',
                         char_warnings=flag('warnings'), ttd_u=env.var('ttd_u', 1.0, 9.0))
        from tespy.tools.data_containers import ComponentCharacteristics as dc_cc
        y = [env.var(f'char {i}', 0.1, 2.0) for i in range(4)]
        o['cp'].set_attr(eta_s_char={'char_func': CharLine(x=[0.0, 1.0, 2.0, 3.0], y=y, extrapolate=flag('extrapolate')), 'is_set': flag('char set'),
                                     'param': 'v'})
        y = np.array([[env.var(f'map y {i}{j}', 0.1, 2.0) for i in range(3)] for j in range(2)], dtype=object if env.symbolic else float)
        z = np.array([[env.var(f'map z {i}{j}', 0.1, 2.0) for i in range(3)] for j in range(2)], dtype=object if env.symbolic else float)
        o['cp'].set_attr(char_map_pr={'char_func': CharMap(x=[0.8, 1.0], y=y, z=z), 'is_set': flag('map set')}, igva='var')
        with t01.real_float():
            b, b2 = Bus('b'), Bus('without total')
        b.set_attr(P=env.var('bus', -1e5, 1e5))
        b.add_comps({'comp': o['cp'], 'base': 'bus', 'char': CharLine(x=[0.0, 1.0], y=[env.var('bus char', 0.5, 1.0), 0.9])}, {'comp': o['ev'], 'char': 0.8})
        b2.add_comps({'comp': o['hx']})
        w.nw.add_busses(b, b2)
        w.nw.check_network()
        before = describe(w.nw)
        l = copy_of(w.nw)
        out = []
        same(describe(w.nw), before, out)
        same(describe(l), before, out)
        # the copy of the copy, and what a user specifies on the copy
        same(describe(copy_of(l)), before, out)
        c = {x.label: x for x in l.conns['object']}
        for x in (c['1'], o['1']):
            x.set_attr(fluid={'N2': 0.5, 'R134a': 0.5}, p=V('again', 'p', 1e5, 3e5), m=None)
        same(describe(l), describe(w.nw), out)
        return out
    return dict(run=run)


INVALID = [x for x in t01.INVALID]
BUDGET = 200
RANGE = {'Tamb': (250.0, 300.0)}


def C(nm, kw):
    return Case(nm, lambda: eqs.case(nm, max_paths=3000, budget=BUDGET, vacuity=False, **kw), limit=2 * BUDGET)


def cases(tier):
    out = []
    for k, (b, sp) in t01.WORLDS.items():
        specs = {n: s for n, s in sp().items() if 'ude' not in s}
        names = list(specs)
        valid = [n for n in names if n not in t01.INVALID]
        for i, fin in enumerate(valid):
            if tier == 'quick':
                groups = [[names[(i * 3 + 1) % len(names)], names[(i * 5 + 2) % len(names)]]]
            else:
                groups = [names[j:j + 3] for j in range(0, len(names), 3)]
            for g in groups:
                th = [valid[(i + 1) % len(valid)]]
                nm = f'{k}: {" / ".join(g)}, then {fin}, loaded, then {th[0]}'
                out.append(C(nm, history(b, specs, g, fin, th)))
            nm = f'{k}: {fin}, not calculated'
            out.append(C(nm, history(b, specs, [], fin, [])))
    for n in catalog.PURE:
        if n == 'MovingBoundaryHeatExchanger':
            continue
        m = catalog.n_in(n)
        fl = [dict(catalog.WATER) for _ in range(m)]
        for s in catalog.specs(n):
            out.append(C(f'component {s.name}', component((s.make, fl, {}), n)))
    for nm, make, fl, kw, _ in catalog.plain():
        out.append(C(f'component {nm}', component((make, [dict(f) for f in fl], kw), nm)))
    for u, un in (('default units', r02.DEFAULT), ('other units', r02.OTHER)):
        for v in ('plain', 'temperature reference', 'unspecified'):
            out.append(C(f'attributes, {v}, {u}', attributes(un, v)))
    return out
