"""U01: values are interpreted and reported in the units of the network."""
from run import Case

from .. import fluids
from .. import net
from .. import pipe
from .. import sym as S
from . import eqs, r02

META = {
    'bounds': 'limits, starting values, pressure losses of heat exchangers, ambient temperature of heat exchangers with ambient, in every unit of the library; '
              'two calculations with a change of the units in between; all values symbolic',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties uninterpreted', 'published conversion factors within 2e-5'],
    'outside': 'specifications of connections (R02), files (X02), design data (D01)',
}
DEF = r02.DEFAULT


def world(units):
    return net.new_network(**{f'{k}_unit': u for k, u in units.items()})


def fluid():
    """Any fluid; the phase does not matter here."""
    class OnePhase(fluids.StubFluid()):
        def phase_ph(self, p, h):
            return 'g'
    return OnePhase


def con(nw, *cs):
    from tespy.connections import Connection
    eng = fluid()
    out = [Connection(*c, label=f'k{i}') for i, c in enumerate(cs)]
    for c in out:
        c.set_attr(fluid_engines={'water': eng})
    nw.add_conns(*out)
    return out


def exchanger(cls, units):
    import tespy.components as C
    nw = world(units)
    hx = getattr(C, cls)('hx')
    hx.check_parameter_bounds = lambda *a, **k: None      # only writes messages
    a1, a2, b1, b2 = con(nw, (C.Source('a1'), 'out1', hx, 'in1'), (hx, 'out1', C.Sink('a2'), 'in1'),
                         (C.Source('b1'), 'out1', hx, 'in2'), (hx, 'out2', C.Sink('b2'), 'in1'))
    return nw, hx, a1, a2, b1, b2


def spec(env, c, units, *props, tag=''):
    v = {p: env.var(f'{tag}{p} of {c.label}', *r02.urange(p, units[p])) for p in props}
    c.set_attr(**v)
    return v


def user_range(prop, unit, lo, hi):
    return r02.user(prop, lo, unit), r02.user(prop, hi, unit)


def states(env, hx, a1, a2, b1, b2, units, tag=''):
    a1.set_attr(fluid={'water': 1})
    b1.set_attr(fluid={'water': 1})
    spec(env, a1, units, 'm', 'p', 'h', tag=tag)
    spec(env, b1, units, 'm', 'p', 'h', tag=tag)
    if type(hx).__name__ == 'HeatExchanger':
        spec(env, a2, units, 'h', tag=tag)


def losses(cls, unit, given):
    def run(o, env):
        u = dict(DEF, p=unit)
        nw, hx, a1, a2, b1, b2 = w = exchanger(cls, u)
        with pipe.tables(env):
            states(env, hx, a1, a2, b1, b2, u)
            v = {}
            if given:
                v = {k: env.var(k, *user_range('p', unit, 0.0, 1e4)) for k in ('dp1', 'dp2')}
            else:
                hx.set_attr(**{k: env.var(k, 0.1, 1.0) for k in ('pr1', 'pr2')})
            hx.set_attr(**v)
            pipe.solve(nw, env)
        out = []
        for k, i, j in (('dp1', a1, a2), ('dp2', b1, b2)):
            rep = nw.results[cls].loc['hx', k]
            if given:
                out.append(eqs.Eq(f'reported {k} is the specified value', rep, v[k], scale=1.0))
            out.append(eqs.Close(f'{k} in {unit} is the pressure loss', r02.to_si('p', rep, unit), i.p.val_SI - j.p.val_SI))
            ri, rj = nw.results['Connection'].loc[i.label, 'p'], nw.results['Connection'].loc[j.label, 'p']
            out.append(eqs.Close(f'{k} and the reported pressures', rep, ri - rj))
        return out
    return run


AMB = {
    'SimpleHeatExchanger': ('Tamb', 'kA'), 'Pipe': ('Tamb', 'kA'),
    'SolarCollector': ('Tamb', 'E', 'eta_opt', 'lkf_lin', 'lkf_quad', 'A'),
    'ParabolicTrough': ('Tamb', 'E', 'eta_opt', 'aoi', 'doc', 'c_1', 'c_2', 'iam_1', 'iam_2', 'A'),
}


def ambient(cls, unit):
    """Tamb given in the unit of the network: same equations as in Kelvin."""
    def run(o, env):
        import tespy.components as C
        res = []
        val = {k: env.var(k, *net.PARAM_RANGE[k]) for k in AMB[cls]}
        st = {k: env.var(k, *r02.RANGE[k]) for k in ('m', 'p', 'h')}
        ho = env.var('h out', *net.H_RANGE)
        # offset and factor of the code's own conversion are compared with the published ones below
        for un in ('K', unit):
            u = dict(DEF, T=un)
            nw = world(u)
            x = getattr(C, cls)('x')
            a, b = con(nw, (C.Source('a'), 'out1', x, 'in1'), (x, 'out1', C.Sink('b'), 'in1'))
            with pipe.tables(env):
                a.set_attr(fluid={'water': 1}, **st)
                v = dict(val)
                v['Tamb'] = r02.user('T', val['Tamb'], un)
                x.set_attr(pr=1, **v)
                b.set_attr(h=ho)
                # more equations than variables: only read off the residual
                net.initialise(nw)
                net.to_object(nw) if env.symbolic else None
                net.rebuild_fluid_data(nw)
                for c in (a, b):
                    env.assume(c.calc_T() > val['Tamb'] + 1)
                r = net.evaluate(nw, env.symbolic)[0]
            names = net.row_names(nw)
            res.append((x.Tamb.val_SI, x.Tamb.val, {n: e for n, e in zip(names, r)}))
        (t0, _, r0), (t1, v1, r1) = res
        return [eqs.Close('ambient temperature in Kelvin', t1, val['Tamb'], 1e-6), eqs.Close('ambient temperature given in Kelvin', t0, val['Tamb'], 1e-9),
                eqs.Eq('specified value is kept', v1, r02.user('T', val['Tamb'], unit), scale=1.0),
                eqs.Eq('same equations', sorted(r0), sorted(r1))]
    return run


def limits(prop, unit, how):
    def run(o, env):
        lo0, hi0 = r02.urange(prop, unit)
        lo, hi = env.var('lower', lo0, hi0), env.var('upper', lo0, hi0)
        kw = {f'{prop}_unit': unit, f'{prop}_range': [lo, hi]}
        if how == 'constructor':
            nw = net.new_network(**kw)
        elif how == 'later':
            nw = net.new_network()
            nw.set_attr(**{f'{prop}_unit': unit})
            nw.set_attr(**{f'{prop}_range': [lo, hi]})
        else:                                             # set in SI units, then expressed in others
            nw = net.new_network(**{f'{prop}_range': [r02.to_si(prop, lo, unit), r02.to_si(prop, hi, unit)]})
            nw.set_attr(**{f'{prop}_unit': unit})
        out = []
        for i, v in enumerate((lo, hi)):
            out.append(eqs.Close(f'limit {i} in SI', nw.get_attr(f'{prop}_range_SI')[i], r02.to_si(prop, v, unit)))
            out.append(eqs.Close(f'limit {i} in {unit}', nw.get_attr(f'{prop}_range')[i], v))
        for q in 'mph':
            if q != prop:
                d = net.new_network()
                for i in (0, 1):
                    out.append(eqs.Eq(f'limits of {q} unchanged {i}', nw.get_attr(f'{q}_range_SI')[i], d.get_attr(f'{q}_range_SI')[i]))
        return out
    return run


def start(prop, unit):
    """Starting values given by the user, in SI at the start of the iteration."""
    def run(o, env):
        import tespy.components as C
        u = dict(DEF, **{prop: unit})
        nw = world(u)
        x = C.SimpleHeatExchanger('x')
        a, b = con(nw, (C.Source('a'), 'out1', x, 'in1'), (x, 'out1', C.Sink('b'), 'in1'))
        a.set_attr(fluid={'water': 1})
        v = {}
        for c in (a, b):
            for k in 'mph':
                if k == 'm' and c is b:
                    continue
                v[c, k] = env.var(f'{k}0 of {c.label}', *r02.urange(k, u[k]))
        for c in (a, b):
            c.set_attr(**{f'{k}0': v[c, k] if (c, k) in v else v[a, k] for k in 'mph'})
        with pipe.tables(env):
            net.initialise(nw)
        return [eqs.Close(f'{k} of {c.label} starts at the given value', c.get_attr(k).val_SI, r02.to_si(k, x, u[k])) for (c, k), x in v.items()]
    return run


def change(units, again):
    """First calculation in SI units, the second one in others."""
    def run(o, env):
        def line(u):
            import tespy.components as C
            nw = world(u)
            x = C.SimpleHeatExchanger('x')
            a, b = con(nw, (C.Source('a'), 'out1', x, 'in1'), (x, 'out1', C.Sink('b'), 'in1'))
            a.set_attr(fluid={'water': 1})
            return nw, x, a, b
        nw, x, a, b = line(DEF)
        q = env.var('Q', *net.PARAM_RANGE['Q'])
        with pipe.tables(env):
            x.set_attr(Q=q, pr=1)
            spec(env, a, DEF, 'm', 'p', 'h', tag='first ')
            pipe.solve(nw, env, tag='first ')
            first = {(c, k): c.get_attr(k).val_SI for c in (a, b) for k in 'mph'}
            nw.set_attr(**{f'{k}_unit': v for k, v in units.items()})
            u = dict(DEF, **units)
            v = {}
            if again == 'same specifications':
                v = spec(env, a, u, 'm', 'p', 'h', tag='second ')
            begin = {}

            def note(nw_, env_):
                pass
            if again == 'start':
                a.set_attr(p=None, h=None, m=None)
                x.set_attr(pr=None, Q=None)
                net.initialise(nw)
                return [eqs.Close(f'starting value of {k} of {c.label} is the state of the first calculation', c.get_attr(k).val_SI, s)
                        for (c, k), s in first.items()]
            pipe.solve(nw, env, tag='second ')
        out = []
        for k, s in v.items():
            out.append(eqs.Eq(f'reported {k}', nw.results['Connection'].loc['k0', k], s, scale=1.0))
            out.append(eqs.Close(f'SI value of {k}', a.get_attr(k).val_SI, r02.to_si(k, s, u[k])))
        for c in (a, b):
            c.spec_fluid = {'water': 1.0}
            out += [z for z in definitions(nw, c, dict(u, Td_bp=u['T']))]
        return out
    return run


def definitions(nw, c, u):
    out = []
    for p in ('m', 'p', 'h', 'T', 'v', 'vol', 's'):
        rep = nw.results['Connection'].loc[c.label, p]
        out.append(eqs.Close(f'{c.label}: {p} in {u[p]}', r02.to_si(p, rep, u[p]), c.get_attr(p).val_SI))
        out.append(eqs.Eq(f'{c.label}: unit of {p}', nw.results['Connection'].loc[c.label, p + '_unit'], u[p]))
    return out


def C(nm, run, **kw):
    return Case(nm, lambda: eqs.case(nm, run, cross=1, vacuity=True, **kw), limit=150)


def cases(tier):
    out = []
    for u in r02.SI['p']:
        for cls in ('HeatExchanger', 'Condenser', 'Desuperheater') if u in ('bar', 'psi') else ('HeatExchanger',):
            out.append(C(f'{cls}: pressure losses given in {u}', losses(cls, u, True)))
            out.append(C(f'{cls}: pressure losses reported in {u}', losses(cls, u, False)))
    for u in r02.SI['T']:
        for cls in AMB:
            out.append(C(f'{cls}: ambient temperature in {u}', ambient(cls, u)))
    for p in 'mph':
        for u in r02.SI[p]:
            for h in ('constructor', 'later', 'unit changed'):
                out.append(C(f'limits of {p} in {u}, {h}', limits(p, u, h)))
            out.append(C(f'starting value of {p} in {u}', start(p, u)))
            for ag in ('same specifications', 'start'):
                out.append(C(f'unit of {p} changed to {u}: {ag}', change({p: u}, ag)))
    for nm, us in (('technical', r02.OTHER), ('other', r02.ODD)):
        for ag in ('same specifications', 'start'):
            out.append(C(f'units changed to {nm} ones: {ag}', change(us, ag)))
    return out
