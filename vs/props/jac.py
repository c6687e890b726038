"""Jacobian = derivative of the residual, for networks of real components."""
import numpy as np

from .. import contracts
from .. import core
from .. import net
from .. import shims
from .. import sym as S
from .. import solver as Z
from ..explore import Infeasible


def jac_case(name, build, rows=None, assume=None, cols=None, declared=None, **kw):
    """build() -> (nw, Inputs), concrete and initialised."""

    def path(ctx):
        br = S._brancher[0]
        S._brancher[0] = None
        nw, inp = build()
        net.warm_up(nw)
        S._brancher[0] = br
        net.to_object(nw)
        with shims.symbolic(contracts.finite_difference_stubs()):
            inp.assign_symbolic(ctx)
            net.rebuild_fluid_data(nw)
            if assume:
                assume(ctx, nw)
            res, jac = net.evaluate(nw, True)
        names = net.row_names(nw)
        obs = []
        nonzero = 0
        for col, (vn, get, _) in net.variables(nw).items():
            v = get()
            if not isinstance(v, S.Sym) or v.e.op != 'v':
                raise S.EncodingError(f'variable {vn} lost its symbolic value during evaluation')
            for r in range(len(res)):
                if rows is not None and not rows(names[r]):
                    continue
                if cols is not None and not cols(names[r], vn):
                    continue
                d = S.diff(S.lift(res[r]), v.e)
                if d is not S.ZERO:
                    nonzero += 1
                elif jac[r, col] == 0 and not S.is_sym(jac[r, col]):
                    continue
                obs.append(core.Ob(f'd {names[r]}#{r} / d {vn}', S.eq(jac[r, col], d), (r, vn)))
        if declared is not None:
            col = [c for c, (vn, g, st) in net.variables(nw).items() if vn == declared]
            hit = bool(col) and any(
                S.diff(S.lift(x), S.lift(net.variables(nw)[col[0]][1]())) is not S.ZERO for x in res)
            obs.append(core.Ob(f'variable {declared} enters an equation', S.TRUE if hit else S.FALSE,
                               ('declared', declared)))
        if not obs:
            raise S.EncodingError('no equation to check')
        return obs

    def replay(env, key):
        nw, inp = build()
        net.warm_up(nw)
        inp.assign(env)
        net.rebuild_fluid_data(nw)
        if key[0] == 'exception':
            return core.replay_exception(key, lambda: net.evaluate(nw, False))
        if key[0] == 'declared':
            for vn, get, setv in net.variables(nw).values():
                if vn == declared:
                    a = np.array(net.evaluate(nw, False)[0])
                    setv(get() * 1.37 + 1.0)
                    b = np.array(net.evaluate(nw, False)[0])
                    return bool((a == b).all()), f'changing {declared} changes no residual'
            return True, f'{declared} is not a variable of the system'
        r, vn = key
        col = [c for c, x in net.variables(nw).items() if x[0] == vn][0]
        res, jac = net.evaluate(nw, False)
        J = float(jac[r, col])
        _, get, setv = net.variables(nw)[col]
        x = get()

        def f(xx):
            setv(xx)
            net.rebuild_fluid_data(nw)
            return float(net.evaluate(nw, False)[0][r])
        base = abs(x) if abs(x) > 1e-3 else 1e-3
        est = []
        for rel in (1e-4, 3e-5):
            h = base * rel
            up, lo = f(x + h), f(x - h)
            est.append((up - lo) / (2 * h))
        mid = f(x)
        if not all(np.isfinite(e) for e in est) or not np.isfinite(J):
            return (not np.isfinite(J) and all(np.isfinite(e) for e in est)), f'J={J}'
        scale = max(abs(est[0]), abs(est[1]))
        noise = 1e-11 * (abs(mid) + max(abs(up), abs(lo))) / (base * 3e-5)
        if abs(est[0] - est[1]) > 1e-3 * scale + noise:
            return None
        if abs(J - est[1]) > 1e-2 * max(scale, abs(J)) + 10 * noise + 1e-12:
            return True, (f'row {net.row_names(nw)[r]}, variable {vn}: Jacobian entry {J:.8g}, '
                          f'derivative of the residual {est[1]:.8g}')
        return False, ''
    return core.run_case(name, path, replay, **kw)


# ------------------------------------------------------------- component nets
WATER = {'water': 1}


def comp_net(make, in_fluids, variable_fluids=None, ref=None, design=True,
             m_range=net.M_RANGE, busses=None, mixing=None, chars=True, specs=None, engines=(), fluid0=None, x_range=net.X_RANGE):
    """Source -> component -> Sink for every port of the component."""
    def build():
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        from .. import fluids
        eng = fluids.StubFluid()
        nw = net.new_network()
        comp = make()
        conns = []
        allf = sorted({f for d in in_fluids for f in (d or {})} | set(variable_fluids or ()) | set(engines) | set(fluid0 or ()))
        ins, outs = comp.inlets(), comp.outlets()
        for i, p in enumerate(ins):
            c = Connection(Source(f'src{i}'), 'out1', comp, p, label=f'i{i}')
            conns.append(c)
        for i, p in enumerate(outs):
            c = Connection(comp, p, Sink(f'snk{i}'), 'in1', label=f'o{i}')
            conns.append(c)
        for i, c in enumerate(conns):
            kw = dict(fluid_engines={f: eng for f in allf})
            if i < len(ins) and in_fluids[i]:
                kw['fluid'] = in_fluids[i]
            elif variable_fluids:
                kw['fluid0'] = {f: 1 / len(variable_fluids) for f in variable_fluids}
            if fluid0:
                kw['fluid0'] = fluid0
            if mixing:
                kw['mixing_rule'] = mixing
            c.set_attr(**kw)
        if specs:
            specs(conns)
        nw.add_conns(*conns)
        if busses:
            busses(nw, comp)
        net.initialise(nw)
        if chars:
            net.char_stubs(nw)
        inp = net.state_inputs(nw, m_range=m_range, x_range=x_range)
        net.param_inputs(nw, inp, design=design)
        return nw, inp
    return build
