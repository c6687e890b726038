"""T01: the equations of a network depend on its specifications only, not on
the history of calculations and changes."""
import contextlib
import io
import warnings

from run import Case

from .. import fluids, net, pipe
from .. import sym as S
from . import eqs

META = {
    'bounds': 'networks of four kinds (line, mixing, combustion, cycle with variable parameters); histories: one (thorough: two) earlier sets of '
              'specifications (symbolic choice among all listed, including invalid ones), followed by a calculation that '
              'converges, is not converged, is initialised only or is aborted by an error (symbolic choice), then the final '
              'specifications with symbolic values',
    'assumptions': ['values in earlier calculations concrete'],
    'outside': 'starting values (they follow earlier results by design); design data of off-design calculations (D01)',
}


def choose(env, name, n):
    v = env.var(name, 0.0, float(n))
    for i in range(n - 1):
        if v < i + 1:
            return i
    return n - 1


@contextlib.contextmanager
def real_float():
    import tespy.connections.bus as B
    had = 'float' in B.__dict__
    old = B.__dict__.get('float')
    B.float = float
    try:
        yield
    finally:
        if had:
            B.float = old
        else:
            del B.float


class World:
    """A network, its objects by name and the last specification of each."""

    def __init__(self, build):
        self.o = {}
        self.nw = net.new_network()
        self.build = build
        build(self)
        self.spec = {}
        self.bus = {}
        self.ude = {}

    def comp(self, cls, label, **kw):
        import tespy.components as C
        self.o[label] = getattr(C, cls)(label, **kw)
        return self.o[label]

    def con(self, label, a, out, b, inl):
        from tespy.connections import Connection
        c = Connection(self.o[a], out, self.o[b], inl, label=label)
        eng = fluids.StubFluid()
        c.set_attr(fluid_engines={f: eng for f in ('water', 'N2', 'O2', 'CO2', 'CH4', 'H2O', 'H2', 'R134a', 'Ar')})
        self.o[label] = c
        self.nw.add_conns(c)

    # -- specifications
    def value(self, v):
        from tespy.connections import Ref
        if isinstance(v, tuple):
            return Ref(self.o[v[0]], *v[1:])
        return dict(v) if isinstance(v, dict) else v

    def set(self, label, **kw):
        self.o[label].set_attr(**{k: self.value(v) for k, v in kw.items()})

    def change(self, new):
        """From the current specification to ``new``."""
        new = {k: dict(v) for k, v in new.items()}
        for b, (tot, comps) in new.pop('busses', {}).items():
            from tespy.connections import Bus
            if b not in self.bus:
                with real_float():
                    self.bus[b] = Bus(b)
                    self.bus[b].add_comps(*[{'comp': self.o[c], 'char': 0.9, 'base': base} for c, base in comps])
                self.nw.add_busses(self.bus[b])
            self.bus[b].set_attr(P=tot)
        for b in [b for b in self.bus if b not in (self.new_busses)]:
            self.nw.del_busses(self.bus.pop(b))
        for u, (conns, f) in new.pop('ude', {}).items():
            if u not in self.ude:
                from tespy.tools.helpers import UserDefinedEquation
                self.ude[u] = UserDefinedEquation(u, f, lambda ude: None, [self.o[c] for c in conns])
                self.nw.add_ude(self.ude[u])
        for u in [u for u in self.ude if u not in self.new_ude]:
            self.nw.del_ude(self.ude.pop(u))
        for lb, old in self.spec.items():
            for k in old:
                if k == 'fluid':
                    gone = set(old[k]) - set(new.get(lb, {}).get('fluid', {}))
                    if gone:
                        self.o[lb].set_attr(fluid={f: None for f in gone})
                elif k == 'fluid_balance':
                    if k not in new.get(lb, {}):
                        self.o[lb].set_attr(fluid_balance=False)
                elif k not in new.get(lb, {}) or isinstance(old[k], tuple) != isinstance(new[lb][k], tuple):
                    self.o[lb].set_attr(**{k: None})
        for lb, kw in new.items():
            if kw:
                self.set(lb, **kw)
        self.spec = new

    def become(self, new):
        self.new_busses = list(new.get('busses', {}))
        self.new_ude = list(new.get('ude', {}))
        self.change(new)


def calculate(w, env, name):
    """One calculation with symbolic outcome."""
    k = choose(env, name, 4)
    nw = w.nw
    kw = {}
    if k == 1:
        kw['init_only'] = True
    elif k == 2:
        kw.update(max_iter=1, min_iter=1)
    elif k == 3:
        n = [0]
        real = nw.solve_connections

        def crash():
            n[0] += 1
            if n[0] == 2:
                raise RuntimeError('crash')
            real()
        nw.solve_connections = crash
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            nw.solve('design', **kw)
    except Exception:                                     # invalid specification or crash
        pass
    finally:
        nw.__dict__.pop('solve_connections', None)


def system(w, env):
    with pipe.tables(env):
        net.initialise(w.nw, allow_count=False)
    net.char_stubs(w.nw)
    nw = w.nw
    fixed = snapshot(w, only_fixed=True)
    vs = net.variables(nw)
    names = {}
    for col in sorted(vs):
        nm, g, st = vs[col]
        k = nm.split('@')[0]
        lo, hi = pipe.RANGE.get(k, net.X_RANGE if k.startswith('x_') else net.PARAM_RANGE.get(k, (0.1, 10.0)))
        st(env.var(f'var {nm}', lo, hi))
        names[nm] = names.get(nm, 0) + 1
    net.rebuild_fluid_data(nw)
    if env.symbolic:
        net.to_object(nw)
    rows = {}
    for n, r in zip(net.row_names(nw), net.evaluate(nw, env.symbolic)[0]):
        rows.setdefault(n, []).append(r)
    return names, rows, fixed


def symbolic(spec, env):
    """Numbers of the final specification become symbolic."""
    out = {}
    for lb, kw in spec.items():
        if lb in ('busses', 'ude'):
            out[lb] = kw
            continue
        d = out[lb] = {}
        for k, v in kw.items():
            if isinstance(v, float) and v == v:
                d[k] = env.var(f'{k} {lb}', v * 0.8, v * 1.2) if v > 0 else env.var(f'{k} {lb}', v * 1.2, v * 0.8)
            else:
                d[k] = v
    return out


def snapshot(w, only_fixed=False):
    """Every specification as the user sees it."""
    out = {}
    for lb, o in w.o.items():
        if hasattr(o, 'property_data'):
            for k in o.property_data:
                d = o.get_attr(k)
                if k == 'fluid':
                    if not only_fixed:
                        out[f'{lb}.fluid fixed'] = tuple(sorted(d.is_set))
                        out.update({f'{lb}.{f}': d.val[f] for f in sorted(d.is_set)})
                elif only_fixed and k == 'm':
                    continue
                else:
                    out[f'{lb}.{k} set'] = bool(d.is_set)
                    if d.is_set and k not in ('fluid_balance',) and 'ref' not in k:
                        out[f'{lb}.{k}'] = d.val
        else:
            for k, d in o.parameters.items():
                if hasattr(d, 'elements'):             # groups follow from their elements
                    continue
                if hasattr(d, 'is_set'):
                    out[f'{lb}.{k} set'] = bool(d.is_set)
                if getattr(d, 'is_var', False):
                    out[f'{lb}.{k} variable'] = True
                elif getattr(d, 'is_set', False) and isinstance(getattr(d, 'val', None), float):
                    out[f'{lb}.{k}'] = d.val
    return out


def compare(what, a, b, out):
    out.append(eqs.Holds(f'{what}: the same ones', set(a) == set(b), f'{sorted(set(a) ^ set(b))}'))
    for k in b:
        if k in a:
            if isinstance(b[k], (bool, tuple)):
                if a[k] != b[k]:
                    out.append(eqs.Holds(f'{what} {k}', False, f'{a[k]} / {b[k]}'))
            elif isinstance(b[k], list):
                equations(f'{what} {k}', a[k], b[k], out)
            else:
                out.append(eqs.Eq(f'{what} {k}', a[k], b[k]))


def equations(what, a, b, out):
    """Equations of one kind, in any order."""
    same = lambda x, y: S.lift(x) is S.lift(y) if S.is_sym(x) or S.is_sym(y) else abs(x - y) <= 1e-9 * (abs(x) + abs(y))
    a, rest = list(a), []
    for y in b:
        for i, x in enumerate(a):
            if same(x, y):
                out.append(eqs.Eq(what, a.pop(i), y))
                break
        else:
            rest.append(y)
    out.append(eqs.Holds(f'{what}: their number', len(a) == len(rest)))
    out += [eqs.Eq(f'{what}', x, y) for x, y in zip(a, rest)]


def history(build, specs, firsts, seconds, final):
    """firsts, seconds: the earlier specifications (symbolic choice)."""
    def first(env):
        w = World(build)
        w.become(specs[firsts[choose(env, 'first specification', len(firsts))]])
        calculate(w, env, 'calculation 1')
        if seconds:
            w.become(specs[seconds[choose(env, 'second specification', len(seconds))]])
            calculate(w, env, 'calculation 2')
        return w

    def run(w, env):
        if any(c.fluid.val and sum(c.fluid.val.values()) == 0 for c in w.nw.conns['object']):
            return [eqs.Holds('no composition left as starting value', True)]
        last = symbolic(specs[final], env)
        w.become(last)
        f = World(build)
        f.become(last)
        out = []
        before = snapshot(w)
        compare('specification', before, snapshot(f), out)
        va, ra, xa = system(w, env)
        vb, rb, xb = system(f, env)
        out.append(eqs.Holds('same variables', va == vb, f'{set(va) ^ set(vb)}'))
        compare('specification during the calculation', xa, xb, out)
        compare('equation', ra, rb, out)
        # the calculation leaves the specifications as they were
        w.nw.reset_topology_reduction_specifications()
        compare('specification after the calculation', snapshot(w), before, out)
        return out
    return dict(first=first, run=run)


# -- networks and specifications
def line(w):
    for c, l in (('Source', 'so'), ('Valve', 'va'), ('SimpleHeatExchanger', 'hx'), ('Sink', 'si')):
        w.comp(c, l)
    w.con('1', 'so', 'out1', 'va', 'in1')
    w.con('2', 'va', 'out1', 'hx', 'in1')
    w.con('3', 'hx', 'out1', 'si', 'in1')


def upd(base, *changes):
    r = {k: dict(v) for k, v in base.items()}
    for lb, kw in changes:
        d = r.setdefault(lb, {})
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
    return r


def line_specs():
    W = {'water': 1.0}
    b = {'1': dict(m=2.0, p=5e5, T=300.0, fluid=W), '2': dict(p=3e5), 'hx': dict(pr=0.9, Q=1e5)}
    U = lambda *c: upd(b, *c)
    s = {
        'base': b,
        'mass flow at the outlet': U(('1', dict(m=None)), ('3', dict(m=1.0))),
        'volumetric flow': U(('1', dict(m=None, v=0.5))),
        'enthalpy': U(('1', dict(T=None, h=1e5)), ('hx', dict(Q=None)), ('3', dict(T=350.0))),
        'saturated': U(('1', dict(T=None, x=0.3))),
        'saturated without pressure': U(('1', dict(p=None, x=0.3))),
        'superheated': U(('1', dict(T=None, Td_bp=5.0))),
        'two mass flows': U(('3', dict(m=1.0))),
        'too many': U(('3', dict(p=1e5))),
        'not enough': U(('hx', dict(Q=None))),
        'four on a connection': U(('1', dict(h=1e5))),
        'fluid at the outlet': U(('1', dict(fluid=None)), ('3', dict(fluid=W))),
        'fraction above one': U(('1', dict(fluid={'water': 1.2}))),
        'pressure loss of the valve': U(('2', dict(p=None)), ('va', dict(pr=0.5))),
        'reference': U(('hx', dict(Q=None)), ('3', dict(h=('1', 1.1, 100.0)))),
        'reference of mass flow in the branch': U(('1', dict(m=None)), ('3', dict(m=('1', 1.1, 100.0)))),
        'pipe': U(('hx', dict(pr=None, D=0.1, L=10.0, ks=1e-4))),
        'pipe diameter variable': U(('hx', dict(D='var', L=10.0, ks=1e-4))),
        'heat transfer': U(('hx', dict(Q=None, kA=100.0, Tamb=290.0))),
        'bus': dict(U(('hx', dict(Q=None))), busses={'b': (1e5, [('hx', 'component')])}),
        'user defined equation': dict(U(('hx', dict(Q=None))), ude={'u': (['1', '3'], lambda u: u.conns[1].h.val_SI - 2 * u.conns[0].h.val_SI)}),
    }
    return s


def mix(w):
    for c, l in (('Source', 'a'), ('Source', 'b'), ('Merge', 'me'), ('Splitter', 'sp'), ('Sink', 'c'), ('Sink', 'd')):
        w.comp(c, l)
    w.con('1', 'a', 'out1', 'me', 'in1')
    w.con('2', 'b', 'out1', 'me', 'in2')
    w.con('3', 'me', 'out1', 'sp', 'in1')
    w.con('4', 'sp', 'out1', 'c', 'in1')
    w.con('5', 'sp', 'out2', 'd', 'in1')


def mix_specs():
    b = {'1': dict(m=2.0, p=2e5, T=320.0, fluid={'N2': 1.0}), '2': dict(m=1.0, T=400.0, fluid={'O2': 1.0}), '4': dict(m=1.5)}
    U = lambda *c: upd(b, *c)
    return {
        'base': b,
        'composition of the outlet': U(('2', dict(m=None)), ('3', dict(fluid={'N2': 0.6}))),
        'composition after the splitter': U(('2', dict(m=None)), ('5', dict(fluid={'O2': 0.4}))),
        'mixtures': U(('1', dict(fluid={'N2': 0.8, 'O2': 0.2})), ('2', dict(fluid={'N2': 0.1, 'O2': 0.9}))),
        'unknown inlet composition': U(('2', dict(fluid=None)), ('4', dict(fluid={'N2': 0.5, 'O2': 0.5}))),
        'composition balance': U(('1', dict(fluid={'N2': 0.8, 'O2': 0.2})), ('2', dict(m=None, fluid=None, fluid_balance=True)), ('3', dict(fluid={'N2': 0.5, 'O2': 0.5}))),
        'fractions above one': U(('1', dict(fluid={'N2': 0.7, 'O2': 0.5}))),
        'mass flow split': U(('4', dict(m=None)), ('5', dict(m=('4', 0.5, 0.0)))),
        'temperature of the mixture': U(('2', dict(T=None)), ('3', dict(T=350.0))),
        'not enough': U(('4', dict(m=None))),
        'too many': U(('5', dict(m=0.5))),
        'twice in a branch': U(('3', dict(fluid={'N2': 0.5})), ('4', dict(fluid={'N2': 0.4}))),
    }


def comb(w):
    for c, l in (('Source', 'air'), ('Source', 'fuel'), ('DiabaticCombustionChamber', 'cb'), ('SimpleHeatExchanger', 'hx'), ('Sink', 'si')):
        w.comp(c, l)
    w.con('1', 'air', 'out1', 'cb', 'in1')
    w.con('2', 'fuel', 'out1', 'cb', 'in2')
    w.con('3', 'cb', 'out1', 'hx', 'in1')
    w.con('4', 'hx', 'out1', 'si', 'in1')
    for c in '1234':
        w.o[c].set_attr(mixing_rule='ideal')


def comb_specs():
    b = {'1': dict(m=2.0, p=2e5, T=320.0, fluid={'N2': 0.76, 'O2': 0.24}), '2': dict(T=300.0, p=2e5, fluid={'CH4': 0.9, 'H2': 0.1}),
         'cb': dict(lamb=2.0, pr=0.95, eta=0.9), 'hx': dict(Q=-1e5), '4': dict(p=1e5)}
    U = lambda *c: upd(b, *c)
    return {
        'base': b,
        'thermal input': U(('cb', dict(lamb=None, ti=1e6))),
        'fuel mixture': U(('2', dict(fluid={'CH4': 0.5, 'H2': 0.5}))),
        'fuel mixture, one fraction': U(('2', dict(fluid={'CH4': 0.4}))),
        'flue gas temperature': U(('cb', dict(lamb=None)), ('3', dict(T=1200.0))),
        'pressure ratio': U(('4', dict(p=None)), ('hx', dict(pr=0.5))),
        'fuel mass flow': U(('cb', dict(lamb=None)), ('2', dict(m=0.03))),
        'not enough': U(('cb', dict(lamb=None))),
        'too many': U(('2', dict(m=0.03))),
        'heat': dict(U(('hx', dict(Q=None))), busses={'b': (-1e5, [('hx', 'component')])}),
        'losses': U(('cb', dict(eta=None)), ('3', dict(T=1200.0))),
    }


def cycle(w):
    for c, l in (('CycleCloser', 'cc'), ('Compressor', 'cp'), ('HeatExchanger', 'hx'), ('Pipe', 'pi'), ('Valve', 'va'),
                 ('SimpleHeatExchanger', 'ev'), ('Source', 'so'), ('Sink', 'si')):
        w.comp(c, l)
    w.con('1', 'cc', 'out1', 'cp', 'in1')
    w.con('2', 'cp', 'out1', 'hx', 'in1')
    w.con('3', 'hx', 'out1', 'pi', 'in1')
    w.con('4', 'pi', 'out1', 'va', 'in1')
    w.con('5', 'va', 'out1', 'ev', 'in1')
    w.con('6', 'ev', 'out1', 'cc', 'in1')
    w.con('7', 'so', 'out1', 'hx', 'in2')
    w.con('8', 'hx', 'out2', 'si', 'in1')


def cycle_specs():
    b = {'1': dict(m=2.0, p=2e5, T=320.0, fluid={'R134a': 1.0}), 'cp': dict(eta_s=0.8, pr=4.0), 'hx': dict(pr1=0.98, pr2=0.97),
         '3': dict(T=330.0), 'pi': dict(pr=0.99, Q=-100.0), 'ev': dict(pr=0.99), '7': dict(p=1e5, T=300.0, fluid={'water': 1.0}),
         '8': dict(T=310.0)}
    U = lambda *c: upd(b, *c)
    return {
        'base': b,
        'heat transfer coefficient': U(('3', dict(T=None)), ('hx', dict(kA=500.0))),
        'temperature difference': U(('3', dict(T=None)), ('hx', dict(ttd_u=10.0))),
        'mass flow outside': U(('1', dict(m=None)), ('7', dict(m=3.0))),
        'power': U(('1', dict(m=None)), ('cp', dict(P=5e4))),
        'pressure after the compressor': U(('cp', dict(pr=None)), ('2', dict(p=9e5))),
        'pressure at the end of the pipe': U(('pi', dict(pr=None)), ('4', dict(p=7e5))),
        'pipe': U(('pi', dict(pr=None, D=0.1, L=10.0, ks=1e-4))),
        'variable roughness': U(('pi', dict(D=0.1, L=10.0, ks='var'))),
        'variable ambient': U(('pi', dict(Tamb='var', kA=10.0))) if False else U(('pi', dict(D='var', L=10.0, ks=1e-4))),
        'efficiency characteristic': U(('cp', dict(eta_s=None, eta_s_char=True))) if False else U(('cp', dict(eta_s=None)), ('2', dict(T=380.0))),
        'not enough': U(('ev', dict(pr=None))),
        'too many': U(('7', dict(m=3.0))),
    }


WORLDS = {'line': (line, line_specs), 'mixing': (mix, mix_specs), 'combustion': (comb, comb_specs), 'cycle': (cycle, cycle_specs)}
INVALID = ('fuel mixture, one fraction', 'heat transfer', 'two mass flows', 'too many', 'not enough', 'four on a connection', 'fraction above one', 'fractions above one', 'twice in a branch',
           'reference of mass flow in the branch')


def C(k, b, specs, firsts, seconds, fin):
    nm = f'{k}: {" / ".join(firsts)}{", then any" if seconds else ""}, then {fin}'
    return Case(nm, lambda: eqs.case(nm, max_paths=3000, budget=BUDGET, vacuity=False, **history(b, specs, firsts, seconds, fin)), limit=2 * BUDGET)


BUDGET = 200


def cases(tier):
    out = []
    for k, (b, sp) in WORLDS.items():
        specs = sp()
        names = list(specs)
        valid = [n for n in names if n not in INVALID]
        for fin in valid:
            for i in range(0, len(names), 4):
                out.append(C(k, b, specs, names[i:i + 4], None, fin))
        if tier != 'quick':
            for n in names:
                out.append(C(k, b, specs, [n], names, 'base' if n != 'base' else valid[-1]))
    return out
