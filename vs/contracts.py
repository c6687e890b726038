"""Contract stubs for finite differences and iterative inversions.

Each replacement evaluates the *same* base function symbolically and returns
its exact partial derivative (or the solution of the inversion as an
uninterpreted function).  That the replaced real code honours the contract is
checked by property N01/N02 on the unstubbed functions.
"""
import numpy as np

from . import solver as Z
from . import sym as S

_n = [0]


def fresh(tag):
    _n[0] += 1
    return S.var(f'!{tag}{_n[0]}')


def _d_wrt(f, x):
    """d f(x)/dx at x (x: any value)."""
    v = fresh('d')
    with known_range(v, x):
        r = f(S.Sym(v))
    e = S.diff(S.lift(r), v)
    return S.wrap(S.subst(e, {v: S.lift(x)}))


def numeric_deriv_stub(orig):
    def _numeric_deriv(obj, func, dx, conn=None, **kwargs):
        if conn is None:
            c = obj.get_attr(dx)
            old = c.val
            v = fresh('c')
            c.val = S.Sym(v)
            try:
                with known_range(v, old):
                    r = func(**kwargs)
            finally:
                c.val = old
        elif dx in conn.fluid.is_var:
            old = conn.fluid.val[dx]
            v = fresh('f')
            conn.fluid.val[dx] = S.Sym(v)
            conn.build_fluid_data()
            try:
                with known_range(v, old):
                    r = func(**kwargs)
            finally:
                conn.fluid.val[dx] = old
                conn.build_fluid_data()
        elif dx in ('m', 'p', 'h'):
            c = conn.get_attr(dx)
            old = c.val_SI
            v = fresh(dx)
            c.val_SI = S.Sym(v)
            try:
                with known_range(v, old):
                    r = func(**kwargs)
            finally:
                c.val_SI = old
        else:
            raise ValueError('wrong variable for numerical derivative')
        if isinstance(r, (list, tuple, np.ndarray)):
            r = r[0] if len(r) == 1 else r
        e = S.diff(S.lift(r), v)
        return S.wrap(S.subst(e, {v: S.lift(old)}))
    return _numeric_deriv


class known_range:
    """While a fresh variable stands for ``old``, branch conditions are decided
    for ``old`` (the point at which the derivative is taken)."""

    def __init__(self, v, old):
        self.m = {v: S.lift(old)}

    def __enter__(self):
        self.prev = S._brancher[0]
        prev, m = self.prev, self.m

        def br(b):
            b2 = _subst_b(b, m)
            if b2.kind == 'k':
                return b2.args[0]
            return prev(b2)
        S._brancher[0] = br if prev is not None else None

    def __exit__(self, *a):
        S._brancher[0] = self.prev


def _subst_b(b, m):
    if b.kind in ('k', 'bv'):
        return b
    if b.kind == 'cmp':
        return S.cmp_(b.args[0], S.subst(b.args[1], m), S.ZERO)
    if b.kind == 'not':
        return S.not_(_subst_b(b.args[0], m))
    f = S.and_ if b.kind == 'and' else S.or_
    return f(*[_subst_b(x, m) for x in b.args])


def _mixkey(fluid_data):
    return sorted(fluid_data)


def inverse_stub(p=None, target_value=None, fluid_data=None, T0=None, f=None):
    name = getattr(f, '__name__', str(f))
    fl = sorted(k for k, v in fluid_data.items()
                if S.is_sym(v['mass_fraction']) or v['mass_fraction'] > 1e-6)
    args = [S.lift(p), S.lift(target_value)] + [S.lift(fluid_data[k]['mass_fraction']) for k in fl]
    return S.Sym(S.uf(f'Tinv_{name}@' + '+'.join(fl), *args))


def darcy_stub(orig):
    def darcy_friction_factor(re, ks, d):
        if S.is_sym(re) or S.is_sym(ks) or S.is_sym(d):
            return S.Sym(S.uf('darcy', S.lift(re), S.lift(ks), S.lift(d)))
        return orig(re, ks, d)
    return darcy_friction_factor


def brentq_stub(orig):
    def brentq(f, a, b, *args, **kw):
        with free_range():
            r = f(S.Sym(S.BOUND), *args)
        if not S.is_sym(r):
            return orig(f, a, b, *args, **kw)
        return S.Sym(S.uf('root', S.lift(r)))
    return brentq


def newton_stub(orig):
    def newton_with_kwargs(derivative, target_value, val0=300, **kw):
        f, par = kw['function'], kw['parameter']
        k2 = {k: v for k, v in kw.items()}
        k2[par] = S.Sym(S.BOUND)
        with free_range(kw.get('valmin', 70), kw.get('valmax', 3000)):
            r = f(**k2)
        if not S.is_sym(r) or (S.vars_of(S.lift(r)) == frozenset([S.BOUND]) and not S.is_sym(target_value)):
            return orig(derivative, target_value, val0=val0, **kw)
        return S.Sym(S.uf('root', S.lift(r - target_value)))
    return newton_with_kwargs


class free_range:
    """While the unknown of a root search is evaluated, branches must be
    decided by its range alone."""

    def __init__(self, lo=None, hi=None):
        self.range = (lo, hi)

    def __enter__(self):
        self.prev = S._brancher[0]
        prev, (lo, hi) = self.prev, self.range
        ctx = getattr(prev, '__self__', None)

        def br(b):
            if ctx is not None and not any(x is None or S.is_sym(x) for x in (lo, hi)):
                t = Z.trivially(b, {**ctx.ranges, '!bound': (float(lo), float(hi))}, {})
                if t is not None:
                    return t
            raise S.EncodingError('branch on the unknown of a root search')
        S._brancher[0] = br if prev is not None else None

    def __exit__(self, *a):
        S._brancher[0] = self.prev


def finite_difference_stubs():
    """(original, replacement) pairs; functions that do not exist are skipped."""
    from tespy.tools import helpers as hlp
    from tespy.tools.fluid_properties import functions as F
    from tespy.tools.fluid_properties import helpers as FH
    out = []

    def reg(mod, name, mk):
        o = getattr(mod, name, None)
        if o is not None:
            out.append((o, mk(o)))

    reg(hlp, '_numeric_deriv', numeric_deriv_stub)
    reg(hlp, 'newton_with_kwargs', newton_stub)
    reg(FH, 'inverse_temperature_mixture', lambda o: inverse_stub)
    reg(FH, 'darcy_friction_factor', darcy_stub)
    import scipy.optimize
    reg(scipy.optimize, 'brentq', brentq_stub)

    def d_ph(base, which):
        def mk(o):
            def g(p, h, fluid_data, mixing_rule=None, T0=None):
                b = getattr(F, base)
                if which == 'h':
                    return _d_wrt(lambda x: b(p, x, fluid_data, mixing_rule=mixing_rule, T0=T0), h)
                return _d_wrt(lambda x: b(x, h, fluid_data, mixing_rule=mixing_rule, T0=T0), p)
            return g
        return mk
    reg(F, 'dT_mix_pdh', d_ph('T_mix_ph', 'h'))
    reg(F, 'dT_mix_dph', d_ph('T_mix_ph', 'p'))
    reg(F, 'dv_mix_pdh', d_ph('v_mix_ph', 'h'))
    reg(F, 'dv_mix_dph', d_ph('v_mix_ph', 'p'))

    def mk_fl(o):
        def g(p, h, fluid, fluid_data, mixing_rule=None, T0=None):
            old = fluid_data[fluid]['mass_fraction']
            v = fresh('f')
            fluid_data[fluid]['mass_fraction'] = S.Sym(v)
            try:
                with known_range(v, old):
                    r = F.T_mix_ph(p, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
            finally:
                fluid_data[fluid]['mass_fraction'] = old
            return S.wrap(S.subst(S.diff(S.lift(r), v), {v: S.lift(old)}))
        return g
    reg(F, 'dT_mix_ph_dfluid', mk_fl)

    def mk_pq(o):
        def g(p, Q, fluid_data, mixing_rule=None):
            return _d_wrt(lambda x: F.h_mix_pQ(x, Q, fluid_data), p)
        return g
    reg(F, 'dh_mix_dpQ', mk_pq)

    def mk_ts(o):
        def g(p, fluid_data, mixing_rule=None):
            return _d_wrt(lambda x: F.T_sat_p(x, fluid_data), p)
        return g
    reg(F, 'dT_sat_dp', mk_ts)
    return out
