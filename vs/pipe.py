"""The whole calculation of a network on symbolic values: the real
``Network.solve`` (specification, presolver, initialisation, postprocessing);
only the Newton loop is replaced by "any state that satisfies the equations"
(float replay: a state found by an independent solver)."""
import contextlib

import numpy as np

from . import net
from . import sym as S
from .table import Table


class _PD:
    """pandas with result tables that keep symbolic values."""

    def __getattr__(self, k):
        import pandas
        return getattr(pandas, k)

    @staticmethod
    def DataFrame(*a, **k):
        import pandas
        if not a and k.get('dtype') == 'float64' and 'columns' in k and 'index' not in k:
            return Table(k['columns'])
        return pandas.DataFrame(*a, **k)


@contextlib.contextmanager
def tables(env):
    """Replaces result tables while values are symbolic."""
    if not env.symbolic:
        yield
        return
    import tespy.networks.network as N
    old = N.pd
    N.pd = _PD()
    try:
        yield
    finally:
        N.pd = old


RANGE = {'m': net.M_RANGE, 'p': net.P_RANGE, 'h': net.H_RANGE}


def solve(nw, env, mode='design', assume=None, equations=True, tag='', **kw):
    """Runs nw.solve; returns after postprocessing.  equations=False: any
    state, not only those that satisfy the equations."""
    from .props import cons, eqs

    def loop(*a, **k):
        nw.residual_history = np.array([0.0])
        nw.progress, nw.lin_dep, nw.converged, nw.iter = True, False, True, 0
        nw.start_time = nw.end_time = 0.0
        vs = net.variables(nw)
        for col, (nm, g, st) in vs.items():
            k = nm.split('@')[0]
            lo, hi = RANGE.get(k, net.X_RANGE if k.startswith('x_') else net.PARAM_RANGE.get(k, (0.1, 10.0)))
            st(env.var(f'var {tag}' + nm, lo, hi))
        net.rebuild_fluid_data(nw)
        if not equations:
            if env.symbolic:
                net.to_object(nw)
        elif env.symbolic:
            net.to_object(nw)
            for r in net.evaluate(nw, True)[0]:
                env.roots(r)
                env.assume(S.as_b(S.eq(r, 0)))
        else:
            if cons.solve_state(nw) is None or not cons.physical(nw):
                raise eqs.Unusable()
            net.evaluate(nw, False)
        if assume:
            assume(nw, env)
    nw.solve_loop = loop
    try:
        nw.solve(mode, **kw)
    finally:
        nw.__dict__.pop('solve_loop', None)
