"""V02: the reported verdict of a calculation is true."""
from run import Case

from .. import net
from .. import pipe
from .. import sym as S
from . import eqs

META = {
    'bounds': 'real Network.solve including its Newton loop on a network with one or two arbitrary (user defined) equations: value and '
              'derivative of every equation in every iteration symbolic; up to 5 iterations, every minimum iteration count; '
              'stagnation: 45 iterations, the last five symbolic; networks of components with linear equations from symbolic start values',
    'assumptions': ['real arithmetic'],
    'outside': 'residuals that are not a number',
}
TOL = 1e-3


def incompressible():
    """Fluid with h = cp (T - 250 K): its enthalpy limits do not depend on the
    pressure."""
    from .. import fluids

    class F(fluids.StubFluid()):
        def h_pT(self, p, T):
            return (T - 250.0) * self.cp

        def T_ph(self, p, h):
            return 250.0 + h / self.cp
    return F


def flu():
    return dict(fluid={'water': 1}, fluid_engines={'water': incompressible()})


def line(label='k', **kw):
    from tespy.components import Sink, Source
    from tespy.connections import Connection
    c = Connection(Source('so ' + label), 'out1', Sink('si ' + label), 'in1', label=label)
    c.set_attr(**flu(), **kw)
    return c


def quiet_calc(nw, env, **kw):
    with pipe.tables(env):
        nw.solve('design', **kw)


def verdict(max_iter, min_iter, n_eq=1, singular=None, first=0, rg=(-10.0, 10.0), before=None):
    """Every equation value symbolic from iteration ``first`` on."""
    def run(o, env):
        from tespy.tools.helpers import UserDefinedEquation
        nw = net.new_network()
        cs = [line(f'k{i}', p=1e5, h=1e5, m0=2.0) for i in range(n_eq)]
        nw.add_conns(*cs)
        seen, sing = {}, {}
        hist = [before] if before else []

        def mk(i):
            k = [0]

            def f(ude):
                if hist:
                    return 1.0 if hist[0] == 'singular' else 0.0
                it = k[0]
                k[0] += 1
                r = env.var(f'r{i}.{it}', *rg) if it >= first else 1.0 + it % 3
                seen.setdefault(it, []).append(r)
                return r

            def d(ude):
                if hist:
                    ude.jacobian[ude.conns[0].m.J_col] = 0.0 if hist[0] == 'singular' else 1.0
                    return
                it = k[0] - 1
                j = env.var(f'j{i}.{it}', -5.0, 5.0) if it == singular else 1.0
                if it == singular:
                    sing.setdefault(it, []).append(j)
                ude.jacobian[ude.conns[0].m.J_col] = j
            return UserDefinedEquation(f'u{i}', f, d, [cs[i]])
        nw.add_ude(*[mk(i) for i in range(n_eq)])
        if before:
            quiet_calc(nw, env)
            hist.pop()
        quiet_calc(nw, env, max_iter=max_iter, min_iter=min_iter)
        n = len(seen)
        sq = [sum(r * r for r in seen[i]) for i in range(n)]
        small = [x < TOL ** 2 for x in sq]
        was_sing = False
        for it, js in sing.items():
            for j in js:
                was_sing = was_sing or bool(j == 0)
        out = [eqs.Holds('singular system reported', nw.lin_dep == was_sing)]
        enough = n >= min_iter
        last = [bool(b) for b in small[-2:]]
        stalled = not nw.progress
        if nw.converged:
            out += [eqs.Holds('converged: equations satisfied at the last two evaluations', all(last)),
                    eqs.Holds('converged: minimum number of iterations', enough),
                    eqs.Holds('converged: system not singular', not was_sing)]
        else:
            out += [eqs.Holds('stopped early only for a reason', n == max_iter or was_sing or stalled),
                    eqs.Holds('convergence recognised', was_sing or stalled or not (enough and all(last)))]
        if stalled and n > 3:
            a, b, c = sq[-1], sq[-2], sq[-3]
            out.append(eqs.Holds('given up only without progress', a >= 0.95 ** 2 * c and a >= 0.95 ** 2 * b))
            out.append(eqs.Holds('given up only after many iterations', n > 40))
        for k in range(1, n - 1):
            if k + 1 >= min_iter and k + 1 < n:
                out.append(eqs.Holds(f'stops when converged (iteration {k})', not (bool(small[k]) and bool(small[k - 1]))))
        try:
            nw._convergence_check()
            raised = False
        except AssertionError:
            raised = True
        out.append(eqs.Holds('convergence check raises exactly without convergence', raised == (not nw.converged)))
        tab = nw.results['Connection']
        have = 'k0' in list(tab.index)
        out.append(eqs.Holds('results available exactly if the calculation was not aborted', have == (not was_sing and not stalled)))
        if have and not env.symbolic:
            out.append(eqs.Holds('results are numbers', tab.loc['k0', 'm'] == tab.loc['k0', 'm']))
        out.append(eqs.Holds('number of iterations', n <= max_iter and nw.iter + 1 == n))
        return out
    return run


# ---------------------------------------------------------- linear networks
def linear(build, check):
    """The real loop finds the solution of a linear network."""
    def run(o, env):
        nw = net.new_network()
        cs = build(nw, env)
        quiet_calc(nw, env, max_iter=12)
        out = [eqs.Holds('converged', nw.converged)]
        return out + check(nw, cs, env)
    return run


def b_valve(nw, env):
    from tespy.components import Sink, Source, Valve
    from tespy.connections import Connection
    v = Valve('v')
    a = Connection(Source('so'), 'out1', v, 'in1', label='a')
    b = Connection(v, 'out1', Sink('si'), 'in1', label='b')
    a.set_attr(**flu(), m=3.0, h=2e5, p0=env.var('p0', 9e5, 9.5e5))
    b.set_attr(p=env.var('p', 4e5, 5e5), h0=env.var('h0', 1e5, 3e5))
    v.set_attr(pr=0.4)
    nw.add_conns(a, b)
    return a, b


def c_valve(nw, cs, env):
    a, b = cs
    return [eqs.Eq('inlet pressure', a.p.val_SI * 0.4, b.p.val_SI, rel=1e-6), eqs.Eq('enthalpy', b.h.val_SI, 2e5, rel=1e-6),
            eqs.Eq('specified pressure', b.p.val, env.var('p', 4e5, 5e5)), eqs.Eq('mass flow', b.m.val_SI, 3.0)]


def b_merge(nw, env):
    from tespy.components import Merge, Sink, Source
    from tespy.connections import Connection, Ref
    m = Merge('m')
    a = Connection(Source('s1'), 'out1', m, 'in1', label='a')
    b = Connection(Source('s2'), 'out1', m, 'in2', label='b')
    c = Connection(m, 'out1', Sink('si'), 'in1', label='c')
    a.set_attr(**flu(), m=env.var('m', 1.0, 9.0), h=1e5, p=2e5)
    b.set_attr(fluid={'water': 1}, fluid_engines=a.fluid.engine, m=Ref(a, 2.0, 0.5), m0=env.var('m0', 1.0, 20.0), h=3e5, p0=2.1e5)
    c.set_attr(m0=env.var('mc0', 1.0, 20.0), p0=2e5, h0=2e5)
    nw.add_conns(a, b, c)
    return a, b, c


def c_merge(nw, cs, env):
    a, b, c = cs
    m = env.var('m', 1.0, 9.0)
    return [eqs.Eq('specified mass flow', a.m.val, m), eqs.Eq('referenced mass flow', b.m.val_SI, 2 * m + 0.5, rel=1e-5),
            eqs.Eq('mass balance', c.m.val_SI, 3 * m + 0.5, rel=1e-5), eqs.Eq('pressure', c.p.val_SI, 2e5, rel=1e-6),
            eqs.Eq('pressure', b.p.val_SI, 2e5, rel=1e-6)]


def C(nm, run, **kw):
    return Case(nm, lambda: eqs.case(nm, run, cross=1, **kw), limit=240)


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for mx, mn in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 4), (2, 4)] + ([(5, 1), (5, 3), (5, 4), (6, 4)] if deep else []):
        out.append(C(f'verdict after at most {mx} and at least {mn} iterations', verdict(mx, mn), max_paths=6000, budget=200.0))
    for mx, mn, s in [(1, 1, 0), (3, 1, 1), (3, 2, 2), (3, 4, 1)]:
        out.append(C(f'verdict with singular system in iteration {s} of {mx}, at least {mn}', verdict(mx, mn, 1, s), max_paths=3000, budget=200.0))
    out.append(C('verdict, two equations', verdict(2, 2, 2), max_paths=6000, budget=200.0))
    for b in ('singular', 'converged'):
        out.append(C(f'verdict after a calculation that was {b}', verdict(2, 2, 1, 1, before=b), max_paths=3000, budget=200.0))
    out.append(C('stagnation', verdict(43, 4, 1, None, 38, (2e-3, 10.0)), max_paths=6000, budget=200.0))
    out.append(C('linear network with valve', linear(b_valve, c_valve), max_paths=400))
    out.append(C('linear network with merge', linear(b_merge, c_merge), max_paths=400))
    return out
