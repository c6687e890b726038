"""V01: every iteration is a Newton step within the limits."""
from run import Case

from .. import catalog as K
from .. import fluids
from .. import net
from .. import sym as S
from . import eqs
from .jac import comp_net
from .v02 import incompressible, line, quiet_calc

META = {
    'bounds': 'one to three iterations of the real Network.solve with arbitrary equations (values and derivatives of the equations symbolic, up to '
              '2 x 2 coupled), symbolic start values and limits; mass flow, pressure, enthalpy, composition (two and three variable '
              'fractions) and component variables; pure fluid and mixture; starting value correction of every component type with all '
              'states symbolic',
    'assumptions': ['real arithmetic', 'system not singular'],
    'outside': 'enthalpy limits of fluids whose limits depend on the pressure beyond the first evaluation',
}


def ude(env, name, conn, f):
    from tespy.tools.helpers import UserDefinedEquation

    def func(u):
        return u.params['r']

    def deriv(u):
        f(u)
    return UserDefinedEquation(name, func, deriv, conn, params={'r': env.var('r ' + name, -1e6, 1e6)})


def clip(x, lo, hi):
    return lo if x < lo else (hi if x > hi else x)


def scalar(env, nw, c, key):
    """One arbitrary equation for one variable; returns its Newton value."""
    j = env.var('j ' + key, -1e3, 1e3)
    env.assume(j != 0)
    if not env.symbolic:
        env.assume(abs(j) > 1e-9)

    def d(u):
        u.jacobian[u.conns[0].get_attr(key).J_col] = j
    e = ude(env, key, [c], d)
    nw.add_ude(e)
    return -e.params['r'] / j


def massflow(env_name):
    def run(o, env):
        nw = net.new_network()
        lo, hi = env.var('min', -100.0, 10.0), env.var('max', 20.0, 1e4)
        nw.set_attr(m_range=[lo, hi])
        m0 = env.var('m0', -200.0, 2e4)
        c = line('k', p=1e5, h=1e5, m0=m0)
        nw.add_conns(c)
        d = scalar(env, nw, c, 'm')
        quiet_calc(nw, env, max_iter=1)
        return [eqs.Eq('mass flow after one step', c.m.val_SI, clip(m0 + d, lo, hi), 1.0)]
    return run


def pressure(reject):
    def run(o, env):
        base = incompressible()

        class F(base):
            def T_ph(self, p, h):
                if reject and p < self._p_min:
                    raise ValueError('below minimum pressure')
                return super().T_ph(p, h)
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        nw = net.new_network()
        p0 = env.var('p0', 50.0, 2e9)
        c = Connection(Source('so'), 'out1', Sink('si'), 'in1', label='k')
        c.set_attr(fluid={'water': 1}, fluid_engines={'water': F}, m=1.0, h=1e5, p0=p0)
        nw.add_conns(c)
        d = scalar(env, nw, c, 'p')
        quiet_calc(nw, env, max_iter=1)
        p = c.p.val_SI
        new = p0 + d
        out = [eqs.Holds('pressure stays positive', p > 0), eqs.Holds('upper pressure limit of the fluid', p <= 1e9)]
        if reject:
            out.append(eqs.Holds('lower pressure limit of the fluid', p >= 100.0))
        if new >= p0 / 2 and new <= 1e9 and new >= 100.0:
            out.append(eqs.Eq('Newton step of the pressure', p, new, 1.0))
        elif new < p0 / 2:
            out.append(eqs.Holds('pressure falls by at most one half', p >= p0 / 2 * (1 - 1e-9) or p0 > 2e9))
            if p0 / 2 >= 100.0 and p0 / 2 <= 1e9:
                out.append(eqs.Holds('pressure falls', p < p0))
        return out
    return run


def enthalpy(o, env):
    nw = net.new_network()
    h0 = env.var('h0', -1e6, 9e6)
    c = line('k', p=1e5, m=1.0, h0=h0)
    nw.add_conns(c)
    d = scalar(env, nw, c, 'h')
    quiet_calc(nw, env, max_iter=1)
    h, new = c.h.val_SI, h0 + d
    w = c.fluid.wrapper['water']
    lo, hi = w.h_pT(1e5, 200.0), w.h_pT(1e5, 2500.0)
    out = [eqs.Holds('lower enthalpy limit of the fluid', h >= lo), eqs.Holds('upper enthalpy limit of the fluid', h <= hi)]
    if new >= lo + 1e4 and new <= hi - 1e4:
        out.append(eqs.Eq('Newton step of the enthalpy', h, new, 1.0))
    return out


def state(which, temp):
    """Phase specification during the first iterations."""
    def run(o, env):
        nw = net.new_network()
        h0 = env.var('h0', 1e3, 4e6)

        class F(incompressible()):
            def h_pQ(self, p, Q):
                return 5e5 + Q * 1e6
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        c = Connection(Source('so'), 'out1', Sink('si'), 'in1', label='k')
        c.set_attr(fluid={'water': 1}, fluid_engines={'water': F}, m=1.0, p=1e5, h0=h0, state=which)
        nw.add_conns(c)
        d = scalar(env, nw, c, 'h')
        quiet_calc(nw, env, max_iter=1)
        h = c.h.val_SI
        if which == 'l':
            return [eqs.Holds('liquid', h <= 5e5)]
        return [eqs.Holds('gaseous', h >= 1.5e6)]
    return run


def mixture(key):
    """Limits of mixtures (first iterations, no earlier solution)."""
    def run(o, env):
        nw = net.new_network()
        lo, hi = env.var('min', 1e3, 1e5), env.var('max', 2e5, 1e6)
        nw.set_attr(**{key + '_range': [lo, hi]})
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        c = Connection(Source('so'), 'out1', Sink('si'), 'in1', label='k')
        x0 = env.var(key + '0', 1.1e5, 1.9e5)
        c.set_attr(**net.fluid_kw({'N2': 0.6, 'O2': 0.4}), mixing_rule='ideal', m=1.0,
                   **({'h': 1e5, 'p0': x0} if key == 'p' else {'p': 1e5, 'h0': x0}))
        nw.add_conns(c)
        d = scalar(env, nw, c, key)
        quiet_calc(nw, env, max_iter=1)
        x, new = c.get_attr(key).val_SI, x0 + d
        out = [eqs.Holds('lower limit', x >= lo), eqs.Holds('upper limit', x <= hi)]
        if new > lo and new < hi and (key == 'h' or new >= x0 / 2):
            out.append(eqs.Eq('Newton step', x, new, 1.0))
        return out
    return run


def fractions(n, fixed=False):
    def run(o, env):
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        nw = net.new_network()
        fl = ['N2', 'O2', 'CO2'][:n]
        c = Connection(Source('so'), 'out1', Sink('si'), 'in1', label='k')
        eng = fluids.StubFluid()
        x0 = {f: env.var(f'x0 {f}', 0.0, 1.0) for f in fl}
        if n == 2:
            x0['O2'] = 1 - x0['N2']
        else:
            x0['CO2'] = 1 - x0['N2'] - x0['O2']
            env.assume(x0['CO2'] >= 0)
        kw = {'fluid': {'Ar': 0.25}} if fixed else {}
        if fixed:
            x0 = {f: x * 0.75 for f, x in x0.items()}
        c.set_attr(fluid0=x0, fluid_engines={f: eng for f in fl + ['Ar']}, mixing_rule='ideal', m=1.0, p=1e5, h=1e5, **kw)
        for f in fl:
            c.fluid.val[f] = x0[f]
        nw.add_conns(c)
        step = {}
        for f in fl:
            dx = env.var(f'dx {f}', -1.5, 1.5)

            def d(u, f=f):
                u.jacobian[u.conns[0].fluid.J_col[f]] = -1.0
            from tespy.tools.helpers import UserDefinedEquation
            nw.add_ude(UserDefinedEquation('u' + f, lambda u: u.params['r'], d, [c], params={'r': dx}))
            step[f] = dx
        new = {f: x0[f] + step[f] for f in fl}
        cl = {}
        for f in fl:
            cl[f] = 0.0 if new[f] < 1e-6 else (1.0 if new[f] > 1 - 1e-6 else new[f])
        tot = sum(cl.values()) + (0.25 if fixed else 0)
        env.assume(tot > 0.01)
        quiet_calc(nw, env, max_iter=1)
        out = []
        for f in fl:
            x = c.fluid.val[f]
            out += [eqs.Holds(f'fraction of {f} between 0 and 1', x >= 0 and x <= 1),
                    eqs.Eq(f'fraction of {f}', x * tot, cl[f], 1e-6)]
        if fixed:
            out.append(eqs.Eq('specified fraction', c.fluid.val['Ar'], 0.25))
        else:
            out.append(eqs.Eq('sum of fractions', sum(c.fluid.val[f] for f in fl), 1.0))
        return out
    return run


def compvar(o, env):
    """Component variable (pressure ratio of a valve)."""
    from tespy.components import Sink, Source, Valve
    from tespy.connections import Connection
    nw = net.new_network()
    v = Valve('v', pr='var')
    s = env.var('start', 1e-3, 1.0)
    v.pr.val = s
    a = Connection(Source('so'), 'out1', v, 'in1', label='a')
    b = Connection(v, 'out1', Sink('si'), 'in1', label='b')
    p1, p2 = env.var('p1', 1e3, 1e6), env.var('p2', 1.0, 1e7)
    a.set_attr(fluid={'water': 1}, fluid_engines={'water': incompressible()}, m=1.0, h=1e5, p=p1)
    b.set_attr(p=p2, h0=1e5)
    nw.add_conns(a, b)
    val = []
    real = v.calc_parameters
    v.calc_parameters = lambda *a, **k: val.append(v.pr.val)
    try:
        quiet_calc(nw, env, max_iter=1)
    finally:
        del v.calc_parameters
    lo, hi = v.pr.min_val, v.pr.max_val
    return [eqs.Eq('component variable after one step', val[0], clip(p2 / p1, lo, hi))]


def coupled(o, env):
    """Two mass flows, four derivatives."""
    nw = net.new_network()
    cs = [line(f'k{i}', p=1e5, h=1e5, m0=env.var(f'm{i}', 1.0, 100.0)) for i in range(2)]
    nw.add_conns(*cs)
    J = [[env.var(f'j{i}{k}', -10.0, 10.0) for k in range(2)] for i in range(2)]
    det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    env.assume(det >= 1e-3)
    r = [env.var(f'r{i}', -100.0, 100.0) for i in range(2)]
    from tespy.tools.helpers import UserDefinedEquation
    for i in range(2):
        def d(u, i=i):
            for k in range(2):
                u.jacobian[u.conns[k].m.J_col] = J[i][k]
        nw.add_ude(UserDefinedEquation(f'u{i}', lambda u: u.params['r'], d, list(cs), params={'r': r[i]}))
    m0 = [env.var(f'm{i}', 1.0, 100.0) for i in range(2)]
    quiet_calc(nw, env, max_iter=1)
    dm = [cs[i].m.val_SI - m0[i] for i in range(2)]
    return [eqs.Eq(f'linearised equation {i}', J[i][0] * dm[0] + J[i][1] * dm[1], -r[i], 1.0, rel=1e-5) for i in range(2)]


def shared(o, env):
    """One mass flow variable for a branch: every connection follows."""
    from tespy.components import Sink, Source, Valve
    from tespy.connections import Connection
    nw = net.new_network()
    v = Valve('v', pr=0.5)
    m0 = env.var('m0', 1.0, 100.0)
    a = Connection(Source('so'), 'out1', v, 'in1', label='a')
    b = Connection(v, 'out1', Sink('si'), 'in1', label='b')
    a.set_attr(fluid={'water': 1}, fluid_engines={'water': incompressible()}, h=1e5, p=1e6, m0=m0)
    b.set_attr(m0=5.0, h0=1e5, p0=5e5)
    nw.add_conns(a, b)
    d = scalar(env, nw, b, 'm')
    env.assume(d <= 1e9)
    env.assume(d >= -1e9)
    quiet_calc(nw, env, max_iter=1)
    return [eqs.Eq(f'mass flow at {c.label}', c.m.val_SI, m0 + d, 1.0) for c in (a, b)]


def _limits(h_pT):
    """Enthalpy limits of the fluid far outside of the states considered."""
    def f(p, T):
        return h_pT(p, T) if S.is_sym(T) else (-1e6 if T < 260 else 1e7)
    return f


# ------------------------------------------------- starting value corrections
def corrections(build, fix):
    def run(o, env):
        nw, inp = build()
        before = []
        for w in {id(w): w for c in nw.conns['object'] for w in c.fluid.wrapper.values()}.values():
            w.h_pT = _limits(w.h_pT)
        for c in nw.conns['object']:
            for k in fix:
                c.get_attr(k).is_var = False
        env.assign(inp)
        net.rebuild_fluid_data(nw)
        if 'm' in fix:
            for c in nw.conns['object']:
                c.fluid.is_var = set()
        for c in nw.conns['object']:
            before.append((c, {k: c.get_attr(k).val_SI for k in fix}, dict(c.fluid.val)))
        nw.iter = 0
        nw.check_variable_bounds()
        out = []
        for c, b, x in before:
            for k, v in b.items():
                out.append(eqs.Eq(f'{k} of {c.label} kept', c.get_attr(k).val_SI, v))
            if 'm' in fix:
                for f in x:
                    out.append(eqs.Eq(f'{f} of {c.label} kept', c.fluid.val[f], x[f]))
            for k in 'ph':
                if k not in fix and k == 'p':
                    out.append(eqs.Holds(f'{k} of {c.label} positive', c.get_attr(k).val_SI > 0))
        return out
    return run


def C(nm, run, **kw):
    return Case(nm, lambda: eqs.case(nm, run, cross=1, **{'max_paths': 1500, **kw}), limit=240)


def cases(tier):
    out = [C('mass flow', massflow(0)), C('pressure of a pure fluid', pressure(False)), C('pressure below the fluid minimum', pressure(True)),
           C('enthalpy of a pure fluid', enthalpy), C('component variable', compvar), C('two coupled equations', coupled),
           C('shared mass flow', shared)]
    out += [C(f'state {w}', state(w, False)) for w in 'lg']
    out += [C(f'mixture {k}', mixture(k)) for k in 'ph']
    out += [C(f'{n} mass fractions', fractions(n)) for n in (2, 3)]
    out.append(C('2 mass fractions and a specified one', fractions(2, True)))
    nets = [(n, comp_net(lambda n=n: K.get_class(n)('c'), [K.WATER] * K.n_in(n))) for n in K.PURE if n != 'MovingBoundaryHeatExchanger']
    pump = K.get_class('Pump')

    def fc():
        p = pump('c')
        p.flow_char.set_attr(is_set=True)
        return p
    nets.append(('Pump with flow characteristic', comp_net(fc, [K.WATER], chars=False)))
    nets += [(n, comp_net(mk, fl, **kw)) for n, mk, fl, kw, _ in K.plain() if '.' not in n or n.endswith('.-')]
    for n, b in nets:
        for fix in (('m', 'p', 'h'), ('m', 'p'), ('m', 'h'), ('p', 'h')):
            out.append(C(f'corrections {n}, specified: {", ".join(fix)}', corrections(b, fix), max_paths=600))
    return out
