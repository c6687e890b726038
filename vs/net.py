"""Harness: real tespy networks whose state is replaced by symbolic values."""
import numpy as np

from . import contracts
from . import fluids
from . import shims
from . import sym as S

P_RANGE = (2e4, 5e7)
H_RANGE = (2e4, 3e6)
M_RANGE = (1e-2, 1e3)
X_RANGE = (0.05, 0.9)
T_RANGE = (260.0, 1500.0)

# ranges of component parameters (value used for symbolic range and replays)
PARAM_RANGE = {
    'pr': (0.05, 20.0), 'pr1': (0.05, 1.0), 'pr2': (0.05, 1.0),
    'zeta': (1e-3, 1e6), 'zeta1': (1e-3, 1e6), 'zeta2': (1e-3, 1e6),
    'eta_s': (0.2, 1.0), 'eta': (0.1, 0.99), 'eta_s_dry': (0.2, 1.0),
    'alpha': (0.4, 2.5), 'lamb': (1.05, 9.0), 'ti': (1e3, 1e9),
    'Q': (-1e8, 1e8), 'P': (-1e8, 1e8), 'kA': (1.0, 1e7),
    'ttd_u': (1.0, 200.0), 'ttd_l': (1.0, 200.0), 'ttd_min': (1.0, 200.0),
    'td_log': (1.0, 200.0),
    'dp1': (0.0, 1e6), 'dp2': (0.0, 1e6),
    'eff_cold': (0.05, 1.0), 'eff_hot': (0.05, 1.0), 'eff_max': (0.05, 1.0),
    'D': (0.01, 2.0), 'L': (0.1, 1000.0), 'ks': (1e-6, 1e-2), 'ks_HW': (10.0, 150.0),
    'Tamb': (250.0, 320.0), 'E': (1.0, 1200.0), 'A': (0.1, 1e4),
    'eta_opt': (0.1, 1.0), 'c_1': (0.0, 5.0), 'c_2': (0.0, 0.1),
    'iam_1': (-1e-2, 1e-2), 'iam_2': (-1e-4, 1e-4), 'aoi': (-80.0, 80.0),
    'doc': (0.1, 1.0), 'lkf_lin': (0.0, 10.0), 'lkf_quad': (0.0, 1.0),
    'igva': (-60.0, 60.0), 'e': (1e6, 1e9), 'Q1': (-1e8, -1e3), 'Q2': (-1e8, -1e3),
    'Q_loss': (-1e6, -1.0), 'Qloss': (-1e6, -1.0), 'eta_mech': (0.5, 1.0),
    'T_v_inner': (300.0, 800.0), 'UA': (1.0, 1e7), 'U_desup': (1.0, 1e4),
}


class StopInit(Exception):
    pass


def new_network(**kw):
    from tespy.networks import Network
    kw.setdefault('iterinfo', False)
    nw = Network(**kw)
    return nw


def fluid_kw(fluids_, **kw):
    eng = fluids.StubFluid()
    kw['fluid'] = fluids_
    kw['fluid_engines'] = {f.split('::')[-1]: eng for f in fluids_}
    return kw


def initialise(nw, mode='design', allow_count=True, **kw):
    """Run the real initialisation of Network.solve up to the solver loop."""
    from tespy.tools.helpers import TESPyNetworkError

    def stop(*a, **k):
        raise StopInit()
    nw.solve_loop = stop
    nw.reset_topology_reduction_specifications = lambda: None
    try:
        nw.solve(mode, **kw)
    except StopInit:
        pass
    except TESPyNetworkError as e:
        if not (allow_count and ('too many parameters' in str(e) or 'not provided enough' in str(e))):
            raise
    finally:
        del nw.__dict__['solve_loop']
        del nw.__dict__['reset_topology_reduction_specifications']


class Inputs:
    """Ordered set of named inputs: name -> (setter, lo, hi)."""

    def __init__(self):
        self.items = {}
        self.seen = set()

    def add(self, name, setter, lo, hi):
        self.items[name] = (setter, lo, hi)

    def assign_symbolic(self, ctx):
        for n, (f, lo, hi) in self.items.items():
            f(ctx.var(n, lo, hi))

    def assign(self, env, rng=None):
        used = {}
        for n, (f, lo, hi) in self.items.items():
            if n in env:
                v = float(env[n])
            else:
                v = (lo + hi) / 2 if lo * hi <= 0 else (lo * hi) ** 0.5 * (1 if lo > 0 else -1)
            used[n] = v
            f(v)
        return used


def _setter(o, a):
    def f(v):
        setattr(o, a, v)
    return f


def _item_setter(d, k):
    def f(v):
        d[k] = v
    return f


def state_inputs(nw, inp=None, m_range=M_RANGE, T0=True, results=False, x_range=X_RANGE):
    """Mass flow, pressure, enthalpy, composition and specified secondary
    properties of every connection."""
    inp = inp or Inputs()
    for c in nw.conns['object']:
        for k, rg in (('m', m_range), ('p', P_RANGE), ('h', H_RANGE)):
            d = c.get_attr(k)
            if id(d) in inp.seen:
                continue
            inp.seen.add(id(d))
            inp.add(f'{k}_{c.label}', _setter(d, 'val_SI'), *rg)
        if c.T.is_set or T0:
            inp.add(f'T_{c.label}', _setter(c.T, 'val_SI'), *T_RANGE)
        if c.v.is_set:
            inp.add(f'v_{c.label}', _setter(c.v, 'val_SI'), 1e-3, 1e3)
        if c.x.is_set:
            inp.add(f'x_{c.label}', _setter(c.x, 'val_SI'), 0.0, 1.0)
        if c.Td_bp.is_set:
            inp.add(f'Td_{c.label}', _setter(c.Td_bp, 'val_SI'), -100.0, 100.0)
        for k in ('m_ref', 'p_ref', 'h_ref', 'T_ref', 'v_ref'):
            r = c.get_attr(k)
            if r.is_set:
                inp.add(f'{k}_f_{c.label}', _setter(r.ref, 'factor'), 0.1, 10.0)
                inp.add(f'{k}_d_{c.label}', _setter(r.ref, 'delta_SI'), -1e3, 1e3)
        fl = c.fluid
        if id(fl) not in inp.seen:
            inp.seen.add(id(fl))
            if len(fl.val) > 1:
                for f in sorted(fl.val):
                    if f in fl.is_var or (S.is_sym(fl.val[f]) or fl.val[f] not in (0, 1)):
                        inp.add(f'x_{f}_{c.label}', _item_setter(fl.val, f), *x_range)
    return inp


def param_inputs(nw, inp, design=True, skip=('num_in', 'num_out', 'num_inter')):
    from tespy.tools.data_containers import ComponentProperties as dc_cp
    from tespy.tools.data_containers import SimpleDataContainer as dc_simple
    for cp in nw.comps['object']:
        for k, d in cp.parameters.items():
            if isinstance(d, dc_cp):
                lo, hi = PARAM_RANGE.get(k, (0.1, 10.0))
                if d.is_set or d.is_var:
                    inp.add(f'{cp.label}.{k}', _setter(d, 'val'), lo, hi)
                    if k.startswith('dp') and hasattr(d, 'val_SI'):
                        inp.add(f'{cp.label}.{k}_SI', _setter(d, 'val_SI'), lo, hi)
                if design:
                    inp.add(f'{cp.label}.{k}.design', _setter(d, 'design'), lo, hi)
            elif isinstance(d, dc_simple) and k in ('eta_mech', 'T_v_inner') and d.val is not None:
                lo, hi = PARAM_RANGE[k]
                inp.add(f'{cp.label}.{k}', _setter(d, 'val'), lo, hi)
    if design:
        for c in nw.conns['object']:
            for k, rg in (('m', M_RANGE), ('p', P_RANGE), ('h', H_RANGE),
                          ('T', T_RANGE), ('v', (1e-3, 1e3)), ('vol', (1e-4, 1e2))):
                d = c.get_attr(k)
                if (id(d), 'design') in inp.seen:
                    continue
                inp.seen.add((id(d), 'design'))
                inp.add(f'{k}_{c.label}.design', _setter(d, 'design'), *rg)
    return inp


def rebuild_fluid_data(nw):
    for c in nw.conns['object']:
        c.build_fluid_data()


def to_object(nw):
    from tespy.tools.data_containers import ComponentCharacteristicMaps as dc_cm
    for cp in nw.comps['object']:
        for d in cp.parameters.values():
            if isinstance(d, dc_cm) and d.char_func is not None:
                for a in ('x', 'y', 'z'):
                    setattr(d.char_func, a, np.array(getattr(d.char_func, a), dtype=object))
    for c in nw.conns['object']:
        c.residual = np.array(list(c.residual) if len(c.residual) else [], dtype=object)
    for cp in nw.comps['object']:
        cp.residual = np.array(list(cp.residual) if len(cp.residual) else [], dtype=object)


def warm_up(nw):
    """One concrete evaluation before the symbolic one: entries the code keeps
    from an earlier iteration are then entries of another state."""
    try:
        with np.errstate(all='ignore'):
            evaluate(nw, False)
    except Exception:
        pass


def evaluate(nw, symbolic):
    """One residual + Jacobian evaluation by the real network code."""
    n_eq = nw.num_comp_eq + nw.num_conn_eq + nw.num_bus_eq + nw.num_ude_eq
    nv = nw.num_conn_vars + nw.num_comp_vars
    if symbolic:
        nw.residual = np.full(n_eq, 0.0, dtype=object)
        nw.jacobian = np.full((n_eq, nv), 0.0, dtype=object)
    else:
        nw.residual = np.zeros(n_eq)
        nw.jacobian = np.zeros((n_eq, nv))
    nw.increment = np.ones(nv)
    nw.increment_filter = np.zeros(nv, dtype=bool)
    nw.solve_components()
    nw.solve_busses()
    nw.solve_connections()
    nw.solve_user_defined_eq()
    return nw.residual, nw.jacobian


def variables(nw):
    """column -> (description, getter, setter)."""
    out = {}
    for col, d in nw.variables_dict.items():
        if d['variable'] == 'fluid':
            fl = d['obj'].fluid.val
            out[col] = (f"x_{d['fluid']}@{d['obj'].label}",
                        (lambda fl=fl, f=d['fluid']: fl[f]),
                        _item_setter(fl, d['fluid']))
        elif d['variable'] in ('m', 'p', 'h'):
            c = d['obj'].get_attr(d['variable'])
            out[col] = (f"{d['variable']}@{d['obj'].label}",
                        (lambda c=c: c.val_SI), _setter(c, 'val_SI'))
        else:
            c = d['obj']
            out[col] = (f"{d['variable']}", (lambda c=c: c.val), _setter(c, 'val'))
    return out


def row_names(nw):
    names = []
    for cp in nw.comps['object']:
        for k, con in cp.constraints.items():
            names += [f'{cp.label}:{k}'] * con['num_eq']
        for k, d in cp.parameters.items():
            if d.is_set and d.func is not None:
                names += [f'{cp.label}:{k}'] * d.num_eq
    for c in nw.conns['object']:
        names += [f'{c.label}:{p}' for p in c.equations.values()]
    for b in nw.busses.values():
        if b.P.is_set:
            names.append(f'bus {b.label}')
    for u in nw.user_defined_eq:
        names.append(f'ude {u}')
    return names


def char_stubs(nw, names=True):
    """Replace every characteristic of the network's components by an
    uninterpreted function object (any characteristic)."""
    from tespy.tools.data_containers import ComponentCharacteristics as dc_cc
    from tespy.tools.data_containers import ComponentCharacteristicMaps as dc_cm
    from tespy.tools.characteristics import CharMap
    for cp in nw.comps['object']:
        for k, d in cp.parameters.items():
            if isinstance(d, dc_cm):
                d.char_func = CharMap(
                    x=[0.9, 1.1], y=np.array([[0.7, 1.1], [0.8, 1.3]]),
                    z=np.array([[1.3, 0.8], [1.4, 0.75]]))
            elif isinstance(d, dc_cc):
                d.char_func = UFChar(f'{cp.label}.{k}')
    for b in nw.busses.values():
        for cp in b.comps.index:
            b.comps.at[cp, 'char'] = UFChar(f'{b.label}.{cp.label}')


class UFChar:
    """Arbitrary differentiable positive characteristic."""

    def __init__(self, name):
        self.name = name

    def conc(self, x):
        return 0.6 + 0.35 * x / (1 + 0.3 * abs(x))

    def evaluate(self, x):
        if S.is_sym(x):
            return S.Sym(S.uf(f'char@{self.name}', S.lift(x)))
        return self.conc(x)

    def get_domain_errors(self, x, c):
        return

    def get_attr(self, k):
        return getattr(self, k)


from . import solver as _Z  # noqa: E402
_Z.UF_RANGE['char'] = (0.05, 5.0)
_Z.UF_RANGE['darcy'] = (1e-5, 1.0)
