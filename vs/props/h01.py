"""H01: characteristic lines and maps interpolate their data."""
import re

import numpy as np

from run import Case

from .. import sym as S
from . import eqs

META = {
    'bounds': 'lines with 2 to 5 and maps with 2 to 4 x 2 to 4 supporting points, all supporting points (increasing) and the operating '
              'point symbolic; with and without extrapolation; one to three evaluations in a row',
    'assumptions': ['supporting points strictly increasing'],
    'outside': 'loading of the default and custom data files, plotting',
}


def increasing(env, name, n, lo, hi, gap=1e-2):
    v = [env.var(f'{name}{i}', lo, hi) for i in range(n)]
    for a, b in zip(v, v[1:]):
        env.assume(b - a >= gap)
    return v


def free(env, name, n, lo=-5.0, hi=5.0):
    return [env.var(f'{name}{i}', lo, hi) for i in range(n)]


def arr(env, v):
    return np.array(v, dtype=object if env.symbolic else float)


def line(env, x, y, ex):
    from tespy.tools.characteristics import CharLine
    if not env.symbolic:
        return CharLine(list(x), list(y), ex)
    c = CharLine(list(range(len(x))), [1.0] * len(x), ex)
    for k, v in (('x', x), ('y', y)):
        if k not in c.__dict__:
            raise S.EncodingError('no attribute ' + k)
        setattr(c, k, arr(env, v))
    return c


def linear(x, x0, x1, y0, y1):
    return y0 + (x - x0) * (y1 - y0) / (x1 - x0)


def interp(x, xs, ys, ex=False):
    if x <= xs[0]:
        return linear(x, xs[0], xs[1], ys[0], ys[1]) if ex else ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return linear(x, xs[i], xs[i + 1], ys[i], ys[i + 1])
    return linear(x, xs[-2], xs[-1], ys[-2], ys[-1]) if ex else ys[-1]


E = dict(rel=1e-6, scale=1.0)


def line_case(n, ex, reps=2):
    def run(o, env):
        x, y = increasing(env, 'x', n, -10.0, 10.0), free(env, 'y', n)
        c = line(env, x, y, ex)
        out = []
        for r in range(reps):
            at = env.var(f'at{r}', -15.0, 15.0)
            out.append(eqs.Eq(f'value {r}', c.evaluate(at), interp(at, x, y, ex), **E))
        for i in range(n):
            out.append(eqs.Eq(f'supporting point {i} kept', c.x[i], x[i], **E))
            out.append(eqs.Eq(f'value {i} kept', c.y[i], y[i], **E))
            out.append(eqs.Eq(f'value at supporting point {i}', c.evaluate(x[i]), y[i], **E))
        return out
    return run


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, m, *a):
        self.msgs.append(str(m))

    def __getattr__(self, k):
        return lambda *a, **kw: None


def logged(f):
    import tespy.tools.characteristics as M
    old, log = M.logger, Log()
    M.logger = log
    try:
        f()
    finally:
        M.logger = old
    return log.msgs


def numbers(msg):
    return [float(v) for v in re.findall(r'-?\d+\.\d+(?:[eE][-+]?\d+)?', msg)]


def line_warn(o, env):
    """A warning with the exceeded limit is given outside of the range only."""
    from tespy.tools.characteristics import CharLine
    xs = [0.125, 0.375, 0.625, 0.875]
    c = CharLine(xs, [1.0, 1.1, 0.9, 1.2])
    at = env.var('at', -1.0, 2.0)
    msgs = logged(lambda: c.get_domain_errors(at, 'comp'))
    outside = bool(at < xs[0]) or bool(at > xs[-1])
    out = [eqs.Holds('warning only outside of the range', (len(msgs) > 0) == outside)]
    if msgs:
        lim = xs[0] if at < xs[0] else xs[-1]
        other = [v for v in xs if v != lim]
        nums = numbers(msgs[0])
        out.append(eqs.Holds('the warning shows the exceeded limit', lim in nums and 'comp' in msgs[0]
                             and not any(v in nums for v in other), msgs[0]))
    return out


def cmap(env, x, y, z):
    from tespy.tools.characteristics import CharMap
    if not env.symbolic:
        return CharMap(np.array(x), np.array(y), np.array(z))
    n, k = len(x), len(y[0])
    c = CharMap(np.arange(n), np.ones((n, k)), np.ones((n, k)))
    for a, v in (('x', x), ('y', y), ('z', z)):
        if a not in c.__dict__:
            raise S.EncodingError('no attribute ' + a)
        setattr(c, a, arr(env, v))
    return c


def map_value(x, y, xs, ys, zs):
    k = len(ys[0])
    yy = [interp(x, xs, [r[j] for r in ys]) for j in range(k)]
    zz = [interp(x, xs, [r[j] for r in zs]) for j in range(k)]
    return interp(y, yy, zz)


def map_case(n, k, reps=1):
    def run(o, env):
        x = increasing(env, 'x', n, 0.0, 10.0)
        y = [increasing(env, f'y{i},', k, 0.0, 10.0) for i in range(n)]
        z = [free(env, f'z{i},', k) for i in range(n)]
        c = cmap(env, x, y, z)
        out = []
        for r in range(reps):
            a, b = env.var(f'a{r}', -5.0, 15.0), env.var(f'b{r}', -5.0, 15.0)
            v = c.evaluate(a, b)
            out.append(eqs.Eq(f'value {r}', v, map_value(a, b, x, y, z), **E))
        for i in range(n):
            out.append(eqs.Eq(f'line {i} kept', c.x[i], x[i], **E))
            for j in range(k):
                out.append(eqs.Eq(f'y {i} {j} kept', c.y[i][j], y[i][j], **E))
                out.append(eqs.Eq(f'z {i} {j} kept', c.z[i][j], z[i][j], **E))
        return out
    return run


def map_points(n, k):
    def run(o, env):
        x = increasing(env, 'x', n, 0.0, 10.0)
        y = [increasing(env, f'y{i},', k, 0.0, 10.0) for i in range(n)]
        z = [free(env, f'z{i},', k) for i in range(n)]
        c = cmap(env, x, y, z)
        return [eqs.Eq(f'value at point {i} {j}', c.evaluate(x[i], y[i][j]), z[i][j], **E) for i in range(n) for j in range(k)]
    return run


def map_warn(o, env):
    from tespy.tools.characteristics import CharMap
    xs, ys = [0.125, 0.375, 0.875], [[0.25, 0.5, 0.75]] * 3
    c = CharMap(np.array(xs), np.array(ys), np.ones((3, 3)))
    a, b = env.var('a', -1.0, 2.0), env.var('b', -1.0, 2.0)
    msgs = logged(lambda: c.get_domain_errors(a, b, 'comp'))
    out = []
    n = (bool(a < xs[0]) or bool(a > xs[-1])) + (bool(b < 0.25) or bool(b > 0.75))
    out.append(eqs.Holds('one warning per exceeded dimension', len(msgs) == n))
    text = ' '.join(msgs)
    nums = numbers(text)
    for v, lo, hi, nm in ((a, xs[0], xs[-1], 'x'), (b, 0.25, 0.75, 'y')):
        if v < lo or v > hi:
            out.append(eqs.Holds(f'the warning shows the exceeded limit of {nm}', (lo if v < lo else hi) in nums
                                 and (hi if v < lo else lo) not in nums, text))
    return out


def map_warn_rows(o, env):
    """The range of the second dimension depends on the first."""
    from tespy.tools.characteristics import CharMap
    xs, ys = [0.125, 0.375, 0.875], [[0.25, 0.5, 0.75], [0.5, 0.6, 1.5], [-0.5, 0.0, 0.375]]
    c = CharMap(np.array(xs), np.array(ys), np.ones((3, 3)))
    a, b = env.var('a', -1.0, 2.0), env.var('b', -1.0, 2.0)
    msgs = logged(lambda: c.get_domain_errors(a, b, 'comp'))
    lo, hi = interp(a, xs, [r[0] for r in ys]), interp(a, xs, [r[-1] for r in ys])
    n = (bool(a < xs[0]) or bool(a > xs[-1])) + (bool(b < lo) or bool(b > hi))
    return [eqs.Holds('one warning per exceeded dimension', len(msgs) == n), eqs.Holds('warnings name the component', all('comp' in m for m in msgs))]


def inputs(o, env):
    """Data of unequal length are refused."""
    from tespy.tools.characteristics import CharLine, CharMap
    out = []
    for nm, f in (('line', lambda: CharLine([0, 1, 2], [1, 2])),
                  ('map', lambda: CharMap(np.arange(3), np.ones((2, 2)), np.ones((2, 2)))),
                  ('map values', lambda: CharMap(np.arange(2), np.ones((2, 2)), np.ones((2, 3))))):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        out.append(eqs.Holds(nm + ' of unequal length refused', ok))
    return out


def C(nm, run, limit=200, **kw):
    return Case(nm, lambda: eqs.case(nm, run, stubs=lambda: [], cross=1, **kw), limit=limit)


def cases(tier):
    out = []
    big = tier == 'thorough'
    for n in range(2, 7 if big else 6):
        for ex in (False, True):
            out.append(C(f'line with {n} points{", extrapolation" if ex else ""}', line_case(n, ex, 2 if n < 5 else 1), max_paths=200))
    for n in (2, 3) + ((4,) if big else ()):
        for k in (2, 3) + ((4,) if big else ()):
            out.append(C(f'map with {n} x {k} points', map_case(n, k), max_paths=200))
            out.append(C(f'supporting points of a map with {n} x {k} points', map_points(n, k), max_paths=200))
    out.append(C('map, two evaluations', map_case(2, 2, 2), max_paths=400))
    out += [C('warnings of lines', line_warn), C('warnings of maps', map_warn), C('warnings of maps with different lines', map_warn_rows), C('inconsistent data', inputs)]
    return out
