"""G01: a network is what was added to it and not deleted from it."""
import contextlib
import io
import warnings

from run import Case

from .. import net, pipe
from . import eqs, t01

META = {
    'bounds': 'sequences of three (thorough: four) operations (symbolic choice among adding and deleting connections, alone and several at once, with labels '
              'and ports used already, checking the network) from three initial networks; changes between every two of six topologies with a calculation in '
              'between (converged, not converged, initialised only, aborted), new connection objects with old or new labels; values of the final '
              'specifications symbolic',
    'assumptions': [],
    'outside': 'busses that still contain a deleted component',
}


# -- bookkeeping
class Model:
    def __init__(self, env):
        import tespy.components as C
        from tespy.connections import Connection
        self.nw = net.new_network()
        so, va, hx, si = C.Source('so'), C.Valve('va'), C.SimpleHeatExchanger('hx'), C.Sink('si')
        so2, si2 = C.Source('so2'), C.Sink('si2')
        va2 = C.Valve('va')                               # label of another component
        self.pool = {
            'a': Connection(so, 'out1', va, 'in1', label='1'),
            'b': Connection(va, 'out1', hx, 'in1', label='2'),
            'c': Connection(hx, 'out1', si, 'in1', label='3'),
            'direct': Connection(va, 'out1', si, 'in1', label='4'),
            'second target': Connection(so2, 'out1', va, 'in1', label='5'),
            'other network': Connection(so2, 'out1', si2, 'in1', label='6'),
            'same label': Connection(so2, 'out1', si2, 'in1', label='1'),
            'component label': Connection(so2, 'out1', va2, 'in1', label='7'),
            'twins': Connection(C.Source('twin'), 'out1', C.Sink('twin'), 'in1', label='8'),
        }
        self.here = []

    def op(self, o):
        """The documented effect; False: must be refused."""
        kind, names = o
        if kind == 'check':
            return self.valid()
        if kind == 'add':
            for n in names:
                if not self.fits(n):
                    return False
                self.here.append(n)
            return True
        for n in names:
            self.here.remove(n)
        return True

    def fits(self, n):
        c = self.pool[n]
        if any(self.pool[x].label == c.label for x in self.here):
            return False
        if c.source.label == c.target.label:
            return False
        for cp in (c.source, c.target):
            if any(x is not cp and x.label == cp.label for x in self.comps()):
                return False
        return True

    def comps(self):
        return {cp for n in self.here for cp in (self.pool[n].source, self.pool[n].target)}

    def valid(self):
        if not self.here:
            return False
        cs = [self.pool[n] for n in self.here]
        out = [(c.source, c.source_id) for c in cs]
        inl = [(c.target, c.target_id) for c in cs]
        want_o = [(cp, o) for cp in self.comps() for o in cp.outlets()]
        want_i = [(cp, i) for cp in self.comps() for i in cp.inlets()]
        key = lambda x: (x[0].label, x[1])
        return sorted(out, key=key) == sorted(want_o, key=key) and sorted(inl, key=key) == sorted(want_i, key=key)

    def do(self, o):
        """The real operation: True if it was accepted."""
        kind, names = o
        cs = [self.pool[n] for n in names]
        try:
            {'add': self.nw.add_conns, 'del': self.nw.del_conns, 'check': self.nw.check_network}[kind](*cs)
        except Exception as e:
            from tespy.tools.helpers import TESPyNetworkError
            if isinstance(e, (TESPyNetworkError, ValueError)):
                return False
            raise
        return True

    def goals(self, tag):
        nw = self.nw
        want = {self.pool[n].label: self.pool[n] for n in self.here}
        got = dict(zip(nw.conns.index, nw.conns['object']))
        out = [eqs.Holds(f'{tag}: connections are those added and not deleted', got == want, f'{sorted(got)} / {sorted(want)}')]
        wc = {c.label: c for c in self.comps()}
        gc = dict(zip(nw.comps.index, nw.comps['object']))
        out.append(eqs.Holds(f'{tag}: components are those of the connections', gc == wc, f'{sorted(gc)} / {sorted(wc)}'))
        for lb, c in want.items():
            out.append(eqs.Holds(f'{tag}: connection found by its label', nw.get_conn(lb) is c))
            r = nw.conns.loc[lb] if lb in nw.conns.index else None
            out.append(eqs.Holds(f'{tag}: ends of the connection', r is not None and r['source'] is c.source and r['target'] is c.target
                                 and r['source_id'] == c.source_id and r['target_id'] == c.target_id))
        for lb, c in wc.items():
            out.append(eqs.Holds(f'{tag}: component found by its label', nw.get_comp(lb) is c))
            out.append(eqs.Holds(f'{tag}: type of the component', lb in nw.comps.index and nw.comps.loc[lb, 'comp_type'] == type(c).__name__))
        if nw.checked:
            out.append(eqs.Holds(f'{tag}: checked network is complete', self.valid()))
            for cp in self.comps():
                i = {c.target_id: c for c in want.values() if c.target is cp}
                o = {c.source_id: c for c in want.values() if c.source is cp}
                out.append(eqs.Holds(f'{tag}: inlets and outlets of {cp.label}', cp.inl == [i.get(k) for k in cp.inlets()]
                                     and cp.outl == [o.get(k) for k in cp.outlets()]))
        return out

    def results(self, tag):
        out = []
        for t, d in self.nw.results.items():
            known = {self.pool[n].label for n in self.here} if t == 'Connection' else {c.label for c in self.comps()}
            out.append(eqs.Holds(f'{tag}: results of {t} only for objects of the network', set(d.index) <= known, f'{set(d.index)}'))
        return out


OPS = [('add', ('a',)), ('add', ('b', 'c')), ('add', ('direct',)), ('add', ('second target',)), ('add', ('other network',)), ('add', ('same label',)),
       ('add', ('component label',)), ('add', ('twins',)), ('add', ('other network', 'same label')), ('add', ('other network', 'component label')),
       ('del', ('a',)), ('del', ('b', 'c')), ('del', ('direct',)), ('del', ('c',)), ('del', ('second target',)), ('check', ())]
STARTS = {'empty': (), 'line': ('a', 'b', 'c'), 'line, checked': ('a', 'b', 'c', None)}


def bookkeeping(start, n, slots):
    def first(env):
        return Model(env)

    def run(m, env):
        out = []
        with contextlib.redirect_stdout(io.StringIO()):
            if start:
                m.op(('add', tuple(x for x in start if x)))
                m.nw.add_conns(*[m.pool[x] for x in start if x])
                if None in start:
                    m.nw.check_network()
            for i in range(n):
                if i == 0:
                    ops = [OPS[k] for k in slots]
                else:
                    ops = OPS
                ops = [o for o in ops if o[0] != 'del' or all(x in m.here for x in o[1])]
                if not ops:
                    out.append(eqs.Holds('nothing to delete', True))
                    break
                o = ops[t01.choose(env, f'operation {i}', len(ops))]
                ok = m.op(o)
                tag = f'{o[0]} {" and ".join(o[1])}'
                out.append(eqs.Holds(f'{tag}: {"accepted" if ok else "refused"}', m.do(o) == ok))
                out += m.goals(tag)
                if not ok and o[0] == 'add':
                    break
            out += m.results('finally')
        return out
    return dict(first=first, run=run)


def others(n):
    """Busses, user defined equations and subsystems."""
    ops = ['add bus', 'add bus again', 'add bus with the same label', 'delete bus', 'delete other bus', 'add equation', 'add equation again', 'delete equation',
           'add subsystem']

    def first(env):
        import tespy.components as C
        from tespy.connections import Bus, Connection
        from tespy.tools.helpers import UserDefinedEquation

        class Sub(C.Subsystem):
            def create_comps(self):
                self.comps['v'] = C.Valve(f'{self.label}_v')
                self.comps['h'] = C.SimpleHeatExchanger(f'{self.label}_h')

            def create_conns(self):
                self.conns['vh'] = Connection(self.comps['v'], 'out1', self.comps['h'], 'in1', label=f'{self.label}_vh')
        with t01.real_float():
            return net.new_network(), Bus('b'), Bus('b'), UserDefinedEquation('u', lambda u: 0, lambda u: None, []), \
                UserDefinedEquation('u', lambda u: 0, lambda u: None, []), Sub('s')

    def run(w, env):
        nw, b, b2, u, u2, sub = w
        from tespy.tools.helpers import TESPyNetworkError
        bus, ude, con = [], [], []
        out = []
        with contextlib.redirect_stdout(io.StringIO()):
            for i in range(n):
                here = [o for o in ops if not (o == 'delete bus' and not bus) and not (o == 'delete equation' and not ude)]
                o = here[t01.choose(env, f'operation {i}', len(here))]
                ok = True
                if o in ('add bus', 'add bus again', 'add bus with the same label'):
                    x = b2 if 'label' in o else b
                    ok = not bus
                    bus = bus or [x]
                    f = lambda: nw.add_busses(x)
                elif o == 'delete bus':
                    x = bus.pop()
                    f = lambda: nw.del_busses(x)
                elif o == 'delete other bus':
                    x = b2 if bus != [b2] else b
                    f = lambda: nw.del_busses(x)
                elif o in ('add equation', 'add equation again'):
                    x = u if o == 'add equation' else u2
                    ok = not ude
                    ude = ude or [x]
                    f = lambda: nw.add_ude(x)
                elif o == 'delete equation':
                    x = ude.pop()
                    f = lambda: nw.del_ude(x)
                else:
                    ok = not con
                    con = ['s_vh']
                    f = lambda: nw.add_subsys(sub)
                try:
                    f()
                    got = True
                except (TESPyNetworkError, ValueError):
                    got = False
                out.append(eqs.Holds(f'{o}: {"accepted" if ok else "refused"}', got == ok))
                out.append(eqs.Holds(f'{o}: busses of the network', list(nw.busses.values()) == bus))
                out.append(eqs.Holds(f'{o}: results of busses', ('b' in nw.results) == bool(bus)))
                out.append(eqs.Holds(f'{o}: equations of the network', list(nw.user_defined_eq.values()) == ude))
                out.append(eqs.Holds(f'{o}: connections of the subsystem', list(nw.conns.index) == con))
                out.append(eqs.Holds(f'{o}: components of the subsystem', sorted(nw.comps.index) == (['s_h', 's_v'] if con else [])))
        return out
    return dict(first=first, run=run)


# -- topologies
TOPO = {
    'line': {'1': ('so', 'out1', 'va', 'in1'), '2': ('va', 'out1', 'hx', 'in1'), '3': ('hx', 'out1', 'si', 'in1')},
    'without heat exchanger': {'1': ('so', 'out1', 'va', 'in1'), '9': ('va', 'out1', 'si', 'in1')},
    'without heat exchanger, same label': {'1': ('so', 'out1', 'va', 'in1'), '3': ('va', 'out1', 'si', 'in1')},
    'reversed order': {'1': ('so', 'out1', 'hx', 'in1'), '2': ('hx', 'out1', 'va', 'in1'), '3': ('va', 'out1', 'si', 'in1')},
    'split': {'1': ('so', 'out1', 'sp', 'in1'), '2': ('sp', 'out1', 'va', 'in1'), '3': ('sp', 'out2', 'si', 'in1'), '4': ('va', 'out1', 'si2', 'in1')},
    'cycle': {'0': ('cc', 'out1', 'va', 'in1'), '2': ('va', 'out1', 'hx', 'in1'), '5': ('hx', 'out1', 'cc', 'in1')},
}
COMPS = {'so': 'Source', 'va': 'Valve', 'hx': 'SimpleHeatExchanger', 'si': 'Sink', 'si2': 'Sink', 'sp': 'Splitter', 'cc': 'CycleCloser'}
SPECS = {
    'line': {'1': dict(m=2.0, p=5e5, T=300.0, fluid={'water': 1.0}), 'va': dict(pr=0.5), 'hx': dict(pr=0.9, Q=1e5)},
    'without heat exchanger': {'1': dict(m=2.0, p=5e5, T=300.0, fluid={'water': 1.0}), '9': dict(p=3e5)},
    'without heat exchanger, same label': {'1': dict(m=2.0, p=5e5, T=300.0, fluid={'water': 1.0}), '3': dict(p=3e5)},
    'reversed order': {'1': dict(p=5e5, T=300.0, fluid={'water': 1.0}), 'va': dict(pr=0.5), 'hx': dict(pr=0.9, Q=1e5), '3': dict(m=1.0)},
    'split': {'1': dict(m=3.0, p=5e5, T=300.0, fluid={'water': 1.0}), 'va': dict(pr=0.5), '4': dict(m=1.0)},
    'cycle': {'0': dict(m=2.0, p=5e5, T=300.0, fluid={'R134a': 1.0}), 'va': dict(pr=0.5)},
}


class Plant(t01.World):
    def __init__(self, topo):
        super().__init__(lambda w: None)
        self.topo = {}
        for l, c in COMPS.items():
            self.comp(c, l)
        self.arrange(topo, 0)

    def arrange(self, topo, how):
        """Delete what is not part of the topology, add what is missing; how:
        0 delete first, one at a time; 1 together; 2 keep nothing."""
        old = [l for l, e in self.topo.items() if how == 2 or topo.get(l) != e]
        cs = [self.o.pop(l) for l in old]
        for l in old:
            self.spec.pop(l, None)
            del self.topo[l]
        if how == 1 and cs:
            self.nw.del_conns(*cs)
        else:
            for c in cs:
                self.nw.del_conns(c)
        for l, e in topo.items():
            if l not in self.topo:
                self.con(l, *e)
                self.topo[l] = e


def snapshot(w):
    s = t01.snapshot(w)
    used = {x for e in w.topo.values() for x in (e[0], e[2])} | set(w.topo)
    return {k: v for k, v in s.items() if k.split('.')[0] in used}


def rearranged(a, b):
    def first(env):
        w = Plant(TOPO[a])
        w.become(SPECS[a])
        t01.calculate(w, env, 'calculation')
        return w

    def run(w, env):
        how = t01.choose(env, 'way of changing', 3)
        w.arrange(TOPO[b], how)
        last = t01.symbolic(SPECS[b], env)
        w.become(last)
        f = Plant(TOPO[b])
        f.become(last)
        out = []
        t01.compare('specification', snapshot(w), snapshot(f), out)
        va, ra, xa = t01.system(w, env)
        vb, rb, xb = t01.system(f, env)
        out.append(eqs.Holds('same variables', va == vb, f'{set(va) ^ set(vb)}'))
        t01.compare('equation', ra, rb, out)
        for t in ('conns', 'comps'):
            x, y = getattr(w.nw, t), getattr(f.nw, t)
            out.append(eqs.Holds(f'same {t}', sorted(x.index) == sorted(y.index)))
        return out
    return dict(first=first, run=run)


def C(nm, d, budget=200):
    return Case(nm, lambda: eqs.case(nm, max_paths=20000, budget=budget, vacuity=False, **d), limit=2 * budget)


def cases(tier):
    out = []
    n = 2 if tier == 'quick' else 3
    for s, names in STARTS.items():
        k = len(OPS)
        step = 3
        for i in range(0, k, step):
            sl = list(range(i, min(k, i + step)))
            out.append(C(f'{s}: operations {sl[0]} to {sl[-1]} first, then {n - 1} of any', bookkeeping(names, n, sl)))
    out.append(C(f'busses, user defined equations, subsystems: {n + 1} operations', others(n + 1)))
    for a in TOPO:
        for b in TOPO:
            out.append(C(f'{a}, then {b}', rearranged(a, b)))
    return out
