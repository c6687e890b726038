"""Environment of the code under analysis while it runs on symbolic values.

``symbolic()`` patches, for the duration of a ``with`` block and in every
loaded tespy module:
  * the numpy module reference -> ``NP`` (object arrays, symbolic ufuncs),
  * numpy functions imported by name, math functions (math.log, ...),
  * the builtin ``float`` (identity on symbolic values),
  * contract stubs registered in STUBS (see contracts.py),
  * the loggers (no output).
Nothing in /repo is modified; leaving the block restores everything.
"""
import builtins
import contextlib
import importlib
import math
import pkgutil
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym as S


def load_all():
    import tespy
    for m in pkgutil.walk_packages(tespy.__path__, 'tespy.'):
        importlib.import_module(m.name)
    return [m for n, m in list(sys.modules.items())
            if (n == 'tespy' or n.startswith('tespy.')) and m is not None]


def _has(x):
    if S.is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has(i) for i in x)
    return False


def _obj(x):
    a = np.array(x, dtype=object)
    return a


class _Linalg:
    def __getattr__(self, k):
        return getattr(np.linalg, k)

    inv_hook = None

    @staticmethod
    def norm(x, *a, **k):
        if _has(x):
            r = 0
            for v in np.asarray(x, dtype=object).ravel():
                r = r + v * v
            return S.sym_sqrt(r) if S.is_sym(r) else math.sqrt(r)
        return np.linalg.norm(np.asarray(x, dtype=float), *a, **k)

    def inv(self, m):
        if self.inv_hook is not None:
            return self.inv_hook(m)
        if _has(m):
            if len(m) <= 6 or any(S.is_sym(x) for x in np.asarray(m, dtype=object).ravel()):
                return gauss(m)
            m = m.astype(float)
        return np.linalg.inv(m)


def _exact(x):
    return x if S.is_sym(x) else S.to_frac(x)


def gauss(m):
    """Exact inverse; one path per choice of pivots."""
    n = len(m)
    if n > 6:
        raise S.EncodingError('matrix inversion on symbolic entries')
    a = [[_exact(m[i][j]) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        cand = sorted(range(c, n), key=lambda r: S.is_sym(a[r][c]))
        for r in cand:
            if a[r][c] != 0:
                break
        else:
            raise np.linalg.LinAlgError('Singular matrix')
        a[c], a[r] = a[r], a[c]
        pv = a[c][c]
        a[c] = [x / pv for x in a[c]]
        for r in range(n):
            if r != c:
                f = a[r][c]
                if S.is_sym(f) or f != 0:
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return _obj([row[n:] for row in a])


class NP(types.ModuleType):
    """numpy look-alike that keeps symbolic values."""

    def __init__(self):
        super().__init__('numpy')
        self.linalg = _Linalg()

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def zeros(shape, dtype=None, **k):
        if dtype in (int, bool):
            return np.zeros(shape, dtype)
        return np.full(shape, 0.0, dtype=object)

    @staticmethod
    def ones(shape, dtype=None, **k):
        if dtype in (int, bool):
            return np.ones(shape, dtype)
        return np.full(shape, 1.0, dtype=object)

    @staticmethod
    def full(shape, v, dtype=None, **k):
        return np.full(shape, v, dtype=object if S.is_sym(v) else dtype)

    @staticmethod
    def empty(shape, dtype=None, **k):
        return np.full(shape, 0.0, dtype=object)

    @staticmethod
    def zeros_like(a, *x, **k):
        return np.full(np.shape(a), 0.0, dtype=object)

    @staticmethod
    def ones_like(a, *x, **k):
        return np.full(np.shape(a), 1.0, dtype=object)

    @staticmethod
    def array(x, dtype=None, **k):
        if _has(x):
            return _obj(x)
        return np.array(x, dtype=dtype, **k)

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        if _has(x):
            return _obj(x)
        return np.asarray(x, dtype=dtype, **k)

    @staticmethod
    def isnan(x):
        if S.is_sym(x):
            return False
        if isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)):
            a = np.asarray(x, dtype=object)
            out = np.zeros(a.shape, dtype=bool)
            for i in np.ndindex(*a.shape):
                out[i] = False if S.is_sym(a[i]) else bool(np.isnan(a[i]))
            return out
        return np.isnan(x)

    @staticmethod
    def sqrt(x):
        return S.sym_sqrt(x) if S.is_sym(x) else np.sqrt(x)

    @staticmethod
    def log(x):
        return S.sym_log(x) if S.is_sym(x) else np.log(x)

    @staticmethod
    def exp(x):
        return S.sym_exp(x) if S.is_sym(x) else np.exp(x)

    @staticmethod
    def absolute(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = abs(x[i])
            return out
        return abs(x) if S.is_sym(x) else np.absolute(x)
    abs = absolute
    fabs = absolute

    @staticmethod
    def sign(x):
        if S.is_sym(x):
            return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)
        return np.sign(x)

    @staticmethod
    def append(a, b, axis=None):
        if _has(a) or _has(b):
            return np.array(list(np.ravel(np.asarray(a, dtype=object))) +
                            list(np.ravel(np.array([b], dtype=object) if S.is_sym(b) else np.asarray(b, dtype=object))),
                            dtype=object)
        return np.append(a, b, axis=axis)

    @staticmethod
    def sum(x, *a, **k):
        if _has(x) and not a and not k:
            r = 0
            for v in np.asarray(x, dtype=object).ravel():
                r = r + v
            return r
        return np.sum(x, *a, **k)

    @staticmethod
    def mean(x, *a, **k):
        if _has(x):
            v = list(np.asarray(x, dtype=object).ravel())
            r = 0
            for i in v:
                r = r + i
            return r / len(v)
        return np.mean(x, *a, **k)

    @staticmethod
    def max(x, *a, **k):
        if _has(x):
            return max(list(np.asarray(x, dtype=object).ravel()))
        return np.max(x, *a, **k)

    @staticmethod
    def min(x, *a, **k):
        if _has(x):
            return min(list(np.asarray(x, dtype=object).ravel()))
        return np.min(x, *a, **k)
    amax = max
    amin = min

    @staticmethod
    def clip(x, lo, hi):
        if S.is_sym(x) or S.is_sym(lo) or S.is_sym(hi):
            if x < lo:
                return lo
            return hi if x > hi else x
        return np.clip(x, lo, hi)

    @staticmethod
    def where(c, *a):
        if S.is_sym(c):
            return a[0] if c else a[1]
        return np.where(c, *a)

    @staticmethod
    def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
        if S.is_sym(a) or S.is_sym(b):
            return bool(abs(a - b) <= atol + rtol * abs(b))
        return np.isclose(a, b, rtol=rtol, atol=atol, **k)

    @staticmethod
    def searchsorted(a, v, side='left', sorter=None):
        if S.is_sym(v) or _has(a):
            a = list(a)
            n = 0
            for x in a:
                if (x < v) if side == 'left' else (x <= v):
                    n += 1
                else:
                    break
            return n
        return np.searchsorted(a, v, side, sorter)

    @staticmethod
    def interp(x, xp, fp, left=None, right=None):
        if not (S.is_sym(x) or _has(xp) or _has(fp)):
            return np.interp(x, xp, fp, left, right)
        xp, fp = list(xp), list(fp)
        if x <= xp[0]:
            return fp[0] if left is None or not (x < xp[0]) else left
        for i in range(1, len(xp)):
            if x <= xp[i]:
                return fp[i - 1] + (x - xp[i - 1]) / (xp[i] - xp[i - 1]) * (fp[i] - fp[i - 1])
        return fp[-1] if right is None else right

    @staticmethod
    def diff(x, *a, **k):
        if _has(x):
            v = list(x)
            return _obj([v[i + 1] - v[i] for i in range(len(v) - 1)])
        return np.diff(x, *a, **k)

    @staticmethod
    def cumsum(x, *a, **k):
        if _has(x):
            out, r = [], 0
            for v in np.asarray(x, dtype=object).ravel():
                r = r + v
                out.append(r)
            return _obj(out)
        return np.cumsum(x, *a, **k)

    @staticmethod
    def float64(x=0.0):
        return x if S.is_sym(x) else np.float64(x)

    @staticmethod
    def isfinite(x):
        return True if S.is_sym(x) else np.isfinite(x)


NPX = NP()


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, S.Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        return builtins.float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


class FloatShim(builtins.float, metaclass=_FloatMeta):
    pass


# original object -> replacement, by identity, in every tespy module
STUBS = []        # list of callables returning {orig: replacement}


def _np_by_identity():
    d = {}
    for k in ('zeros', 'ones', 'array', 'asarray', 'isnan', 'sqrt', 'log',
              'exp', 'absolute', 'append', 'sum', 'searchsorted', 'interp',
              'clip', 'isclose', 'mean', 'max', 'min', 'where', 'diff', 'sign', 'cumsum'):
        d[id(getattr(np, k))] = getattr(NPX, k)
    d[id(np.linalg.norm)] = _Linalg.norm
    d[id(np.linalg.inv)] = NPX.linalg.inv
    return d


_depth = [0]


@contextlib.contextmanager
def symbolic(stubs=()):
    """stubs: iterable of (original function, replacement)."""
    mods = load_all()
    saved = []
    by_id = _np_by_identity()
    for n, f in S._orig_math.items():
        by_id[id(f)] = S._MODELLED.get(n) or S.sym_unsupported(n)
    keep = []
    for orig, repl in stubs:
        by_id[id(orig)] = repl
        keep.append(orig)
    missing = object()
    for m in mods:
        g = m.__dict__
        for k, v in list(g.items()):
            if k.startswith('__'):
                continue
            if v is np:
                saved.append((g, k, v))
                g[k] = NPX
            elif id(v) in by_id and callable(v):
                saved.append((g, k, v))
                g[k] = by_id[id(v)]
            elif isinstance(v, dict) and k.isupper():
                for kk, vv in list(v.items()):
                    if id(vv) in by_id and callable(vv):
                        saved.append((v, kk, vv))
                        v[kk] = by_id[id(vv)]
        saved.append((g, 'float', g.get('float', missing)))
        g['float'] = FloatShim
    S.patch_math()
    _depth[0] += 1
    try:
        yield
    finally:
        _depth[0] -= 1
        if _depth[0] == 0:
            S.unpatch_math()
        for g, k, v in reversed(saved):
            if v is missing:
                g.pop(k, None)
            else:
                g[k] = v


def silence():
    """No log output (formatting of symbolic values is not the subject)."""
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')
