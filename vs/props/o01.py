"""O01: the optimization evaluates the model at the decision variables and
judges constraints as declared."""
import contextlib
import io

from run import Case

from .. import sym as S
from . import eqs, t01
from .a01 import Box, box, raw

META = {
    'bounds': 'up to two parameters of two connections, two components and two customs variables, up to two upper and two lower limits (numbers or references to '
              'another parameter); values of variables, limits, parameters and objective symbolic; two evaluations in a row; tables of two (thorough: three) '
              'generations of two individuals',
    'assumptions': ['the model returns any value for every parameter it is asked for', 'algorithm and population of pygmo are stand-ins with symbolic content'],
    'outside': 'the algorithms of pygmo',
}

SHAPES = {
    'connections only': {'Connections': {'1': ['p', 'T'], '2': ['p']}},
    'components only': {'Components': {'a': ['eta'], 'b': ['pr', 'Q']}},
    'both': {'Connections': {'1': ['p']}, 'Components': {'a': ['eta', 'pr'], 'b': ['Q']}},
    'components first': {'Components': {'a': ['eta']}, 'Connections': {'1': ['p'], '2': ['T', 'm']}},
    'with custom variables': {'Custom': {'x': None, 'y': None}, 'Connections': {'1': ['p']}, 'Components': {'a': ['eta']}},
    'none of the standard ones': {'Custom': {'x': None}},
}
LIMITS = {
    'none': {},
    'upper': {'upper': {'Connections': {'1': {'p': 0}}, 'Components': {'a': {'eta': 0}}}},
    'lower': {'lower': {'Components': {'a': {'eta': 0, 'pr': 0}}}},
    'upper and lower': {'upper': {'Components': {'a': {'eta': 0}}, 'Connections': {'1': {'p': 0}}}, 'lower': {'Connections': {'2': {'T': 0}, '1': {'T': 0}}}},
    'reference': {'lower': {'Connections': {'1': {'p': 'ref1'}}}, 'upper': {'Components': {'b': {'Q': 'ref2', 'pr': 0}}}},
}
REFS = {'ref1': ['Connections', '2', 'p'], 'ref2': ['Components', 'a', 'Q']}


class Model:
    """Any model: parameters are any function of the point evaluated."""

    def __init__(self, env):
        self.env, self.calls, self.n = env, [], 0

    def solve_model(self, **kw):
        import copy
        self.n += 1
        self.calls.append({k: {l: dict(v) if isinstance(v, dict) else v for l, v in d.items()} for k, d in kw.items()})

    def get_param(self, obj, label, param):
        return self.env.var(f'{obj} {label} {param} at {self.n}', -10.0, 10.0)

    def get_objective(self, name):
        return self.env.var(f'{name} at {self.n}', -10.0, 10.0)


def variables(shape):
    out, flat, n = {}, [], 0
    for obj, data in shape.items():
        out[obj] = {}
        for lb, ps in data.items():
            if ps is None:
                out[obj][lb] = {'min': -float(n) - 1, 'max': float(n) + 1}
                flat.append((obj, lb, None, n))
                n += 1
            else:
                out[obj][lb] = {}
                for p in ps:
                    out[obj][lb][p] = {'min': -float(n) - 1, 'max': float(n) + 1}
                    flat.append((obj, lb, p, n))
                    n += 1
    return out, flat


def limits(env, shape):
    out, flat = {}, []
    for side, data in shape.items():
        out[f'{side} limits'] = {}
        for obj, d in data.items():
            out[f'{side} limits'][obj] = {}
            for lb, ps in d.items():
                out[f'{side} limits'][obj][lb] = {}
                for p, v in ps.items():
                    if v == 0:
                        v = env.var(f'{side} limit of {obj} {lb} {p}', -10.0, 10.0)
                    else:
                        out[v] = REFS[v]
                    out[f'{side} limits'][obj][lb][p] = v
                    flat.append((side, obj, lb, p, v))
    return out, flat


@contextlib.contextmanager
def pygmo():
    from tespy.tools import optimization as M
    old = M.pg
    M.pg = object() if old is None else old
    try:
        yield M
    finally:
        M.pg = old


def setup(env, shape, lim, objective='cost'):
    with pygmo() as M:
        var, flat = variables(SHAPES[shape])
        con, cflat = limits(env, LIMITS[lim])
        keep = repr(var)
        m = Model(env)
        pr = M.OptimizationProblem(m, var, con, objective)
        return m, pr, flat, cflat, var, keep


def column(pr, obj, lb, p):
    nm = '-'.join(x for x in (obj, lb, p) if x)
    return [i for i, v in enumerate(pr.variable_list) if v == nm]


def point(shape, lim):
    def run(_, env):
        m, pr, flat, cflat, var, keep = setup(env, shape, lim)
        out = [eqs.Holds('a decision variable per entry', len(pr.variable_list) == len(flat)),
               eqs.Holds('number of constraints', pr.get_nic() == len(cflat) == len(pr.constraint_list)), eqs.Holds('one objective', pr.get_nobj() == 1)]
        b = pr.get_bounds()
        pos = {}
        for obj, lb, p, n in flat:
            c = column(pr, obj, lb, p)
            out.append(eqs.Holds(f'bounds of {obj} {lb} {p}', len(c) == 1 and (b[0][c[0]], b[1][c[0]]) == (-n - 1, n + 1)))
            pos[obj, lb, p] = c[0] if c else 0
        for run_ in (1, 2):
            x = [env.var(f'x{i} of evaluation {run_}', -10.0, 10.0) for i in range(len(flat))]
            f = pr.fitness(list(x))
            out.append(eqs.Holds('one evaluation of the model', m.n == run_))
            kw = m.calls[-1]
            for (obj, lb, p), i in pos.items():
                v = kw.get(obj, {}).get(lb)
                v = v.get(p) if p is not None and isinstance(v, dict) else v
                ok = v is not None and not isinstance(v, dict)
                out.append(eqs.Holds(f'{obj} {lb} {p} passed to the model', ok, f'{v}'))
                if ok:
                    out.append(eqs.Eq(f'value of {obj} {lb} {p} in evaluation {run_}', v, x[i]))
            n = sum(len(d) if obj not in ('Connections', 'Components') else sum(len(q) for q in d.values()) for obj, d in kw.items())
            out.append(eqs.Holds('nothing else passed to the model', n == len(flat)))
            out.append(eqs.Holds('objective and constraints', len(f) == 1 + len(cflat)))
            out.append(eqs.Eq('objective', f[0], m.get_objective('cost')))
            for side, obj, lb, p, v in cflat:
                r = '-'.join(REFS[v]) if isinstance(v, str) else str(v)
                nm = f'{obj}-{lb}-{p}' + ('>=' if side == 'lower' else '<=')
                i = [k for k, c in enumerate(pr.constraint_list) if c.startswith(nm) and (not isinstance(v, str) or c.endswith(r))]
                out.append(eqs.Holds(f'constraint {nm}', len(i) == 1, f'{pr.constraint_list}'))
                if len(i) != 1:
                    continue
                val, lim_ = m.get_param(obj, lb, p), m.get_param(*REFS[v]) if isinstance(v, str) else v
                out.append(eqs.Eq(f'constraint {nm} not positive iff satisfied', f[1 + i[0]], lim_ - val if side == 'lower' else val - lim_))
        out.append(eqs.Holds('declaration of the user unchanged', repr(var) == keep))
        return out
    return dict(run=run)


class Pop:
    def __init__(self, x, f):
        self.x, self.f = x, f
        self.champion_x, self.champion_f = [0.0] * len(x[0]), [0.0] * len(f[0])

    def get_x(self):
        return self.x

    def get_f(self):
        return self.f


class Algo:
    def __init__(self, pops):
        self.pops, self.seen = pops, 0

    def evolve(self, pop):
        self.seen += 1
        return self.pops[self.seen]


def table(shape, lim, gens):
    def run(_, env):
        Box.assume = env.assume
        m, pr, flat, cflat, var, keep = setup(env, shape, lim)
        nx, nc = len(pr.variable_list), len(pr.constraint_list)
        data, pops = {}, []
        for g in range(gens):
            xs, fs = [], []
            for i in range(2):
                x = [box(env.var(f'x{k} of {g} {i}', -10.0, 10.0)) for k in range(nx)]
                f = [box(env.var(f'objective of {g} {i}', -10.0, 10.0))]
                sign = t01.choose(env, f'violated constraint of {g} {i}', nc + 1) if (g, i) in ((0, 0), (gens - 1, 1)) else nc
                for k in range(nc):
                    lo, hi = (1e-6, 10.0) if k + 1 == sign else (-10.0, 0.0)
                    f.append(box(env.var(f'{"violated" if k + 1 == sign else "satisfied"} constraint {k} of {g} {i}', lo, hi)))
                data[g, i] = x, f, sign == 0
                xs.append(x)
                fs.append(f)
            pops.append(Pop(xs, fs))
        al = Algo(pops)
        with contextlib.redirect_stdout(io.StringIO()), plain():
            last = pr.run(al, pops[0], 2, gens)
        out = [eqs.Holds('final population returned', last is pops[-1]), eqs.Holds('evolutions', al.seen == gens - 1)]
        t = pr.individuals
        out.append(eqs.Holds('one row per individual', sorted(map(tuple, t.index)) == sorted(data)))
        for (g, i), (x, f, ok) in data.items():
            r = t.loc[(g, i)]
            for k, c in enumerate(pr.variable_list):
                out.append(eqs.Eq(f'{c} of individual {i} in generation {g}', raw(r[c]), raw(x[k])))
            for k, c in enumerate(pr.objective_list + pr.constraint_list):
                if k == 0 or pr.constraint_list.count(c) == 1:
                    out.append(eqs.Eq(f'{"objective" if k == 0 else "constraint " + str(k)} of individual {i} in generation {g}', raw(r[c]), raw(f[k])))
            out.append(eqs.Holds(f'individual {i} in generation {g} valid iff constraints satisfied', bool(r['valid']) == ok))
        return out
    return dict(run=run)


@contextlib.contextmanager
def plain():
    """print/round of the module work on symbolic values by Box."""
    yield


def C(nm, kw):
    return Case(nm, lambda: eqs.case(nm, max_paths=4000, budget=120, vacuity=True, stubs=lambda: [], **kw), limit=240)


def cases(tier):
    out = []
    for s in SHAPES:
        for l in LIMITS:
            out.append(C(f'evaluation, variables: {s}, limits: {l}', point(s, l)))
    for s in ('both', 'with custom variables'):
        for l in LIMITS:
            for g in (1, 2) + ((3,) if tier == 'thorough' else ()):
                out.append(C(f'table of {g} generations, variables: {s}, limits: {l}', table(s, l, g)))
    return out
