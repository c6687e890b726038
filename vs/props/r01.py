"""R01: a specified component parameter is the reported result."""
from run import Case

from .. import catalog as K
from .. import net
from .. import sym as S
from . import c03, cons, eqs
from .jac import comp_net

META = {
    'bounds': 'every component parameter that imposes an equation, one at a time, all connections and the specified '
              'value symbolic (ranges of vs/net.py); also variable parameters; every feasible path',
    'assumptions': ['the equations of the network are satisfied exactly', 'fluid properties uninterpreted',
                    'finite differences exact, no zero denominators'],
    'outside': 'states in which the code itself reports no number (temperature differences of the wrong sign)',
}
# quantities the documentation defines through the result values
SKIP = {}


def goal(param, value):
    def g(nw, env):
        cp = nw.get_comp('c')
        v = cp.get_attr(param).val
        if not S.is_sym(v) and v != v:
            raise eqs.Unusable() if not env.symbolic else Undefined()
        env.roots(v)
        return [eqs.Eq(f'reported {param}', v, nw.spec[param], rel=1e-5)]
    return g


class Undefined(Exception):
    pass


def assume(params):
    def f(nw, env):
        cp = nw.get_comp('c')
        nw.spec = {p: cp.get_attr(p).val for p in params}
        # dp is converted once, before the iteration
        for p in params:
            d = cp.get_attr(p)
            if p.startswith('dp') and hasattr(d, 'val_SI'):
                env.assume(S.as_b(d.val_SI == d.val) if env.symbolic else d.val_SI == d.val)
    return f


def pre(param):
    """Physical situation in which the parameter is defined."""
    def f(nw, env):
        cp = nw.get_comp('c')
        assume([param])(nw, env)
        n = type(cp).__name__
        if n in c03.HX:
            i, o = cp.inl, cp.outl
            Ti0, To0, Ti1, To1 = [c.calc_T() for c in (i[0], o[0], i[1], o[1])]
            if n in ('Condenser',):
                Ti0 = i[0].calc_T_sat()
            if param != 'ttd_u' or n != 'Condenser':
                env.assume(Ti0 > To1)
            env.assume(To0 > Ti1)
    return f


def one(nm, b, param, **kw):
    return Case(nm, lambda: cons.case(nm, b, goal(param, None), assume=pre(param), after=c03.results,
                                      max_paths=64, cross=1, **kw), limit=150)


def cases(tier):
    from tespy.tools.data_containers import ComponentProperties as dc_cp
    out = []
    for n in K.PURE:
        if n.startswith('Moving'):
            continue
        for s in K.specs(n):
            if s.group or s.var:
                continue
            if not isinstance(s.cls('x').get_attr(s.param), dc_cp):
                continue
            out.append(one(s.name, comp_net(s.make, [K.WATER] * K.n_in(n)), s.param))
            if s.param.startswith('zeta'):
                out.append(one(s.name + ' reversed flow', comp_net(
                    s.make, [K.WATER] * K.n_in(n), m_range=(-1e3, -1e-2)), s.param))
    for nm, mk, fl, kw, _ in K.plain():
        if '.' in nm and not nm.endswith('.-'):
            p = nm.split('.')[1]
            if p in ('e var', 'vars', 'eta_char'):
                continue
            if 'Combustion' in nm:
                kw = dict(kw, x_range=(0.0, 0.95))
            out.append(one(nm, comp_net(mk, fl, **kw), p))
    return out
