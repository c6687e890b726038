"""Symbolic values that flow through the unmodified tespy code.

``Sym`` is a float subclass whose arithmetic builds a hash-consed expression
DAG over the reals.  Comparisons give ``SymBool``; asking for its truth value
forks the path (see explore.py).  The numeric payload of a ``Sym`` is NaN, so a
value that escapes the symbolic layer (e.g. is pushed into a float64 array)
turns into NaN and is reported as a leak instead of being silently concretised.
"""
import builtins
import math as _math
from fractions import Fraction

_float = builtins.float
NAN = _float('nan')


class EncodingError(Exception):
    """The code under analysis left the encodable fragment."""


class E:
    __slots__ = ('op', 'args', 'id', '_vars')
    table = {}
    counter = 0

    def __repr__(self):
        return show(self)


def _mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, E) else ('k', a) for a in args)
    n = E.table.get(key)
    if n is None:
        n = E()
        n.op = op
        n.args = args
        E.counter += 1
        n.id = E.counter
        n._vars = None
        E.table[key] = n
    return n


def const(v):
    return _mk('c', v)


ZERO = const(Fraction(0))
ONE = const(Fraction(1))
MINUS = const(Fraction(-1))


def var(name):
    return _mk('v', name)


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = _float(x)
    if x != x:
        raise EncodingError('NaN reached a symbolic expression (leaked value)')
    if x in (_float('inf'), -_float('inf')):
        raise EncodingError('infinite constant in a symbolic expression')
    return Fraction(repr(x))


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
        a, b = b, a
    if b.op == 'c' and b.args[0] == 0:
        return a
    # x + (-1)*x
    if (b.op == '*' and b.args[0] is MINUS and b.args[1] is a) or (
            a.op == '*' and a.args[0] is MINUS and a.args[1] is b):
        return ZERO
    if b.op == 'c' and a.op == '+' and a.args[1].op == 'c':
        return add(a.args[0], const(a.args[1].args[0] + b.args[0]))
    if b.op != 'c' and b.id < a.id:
        a, b = b, a
    if a.op == 'c':
        a, b = b, a
    return _mk('+', a, b)


def mul(a, b):
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
        if b.op == '*' and b.args[0].op == 'c':
            return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
        return _mk('*', a, b)
    # pull constants out
    if a.op == '*' and a.args[0].op == 'c':
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == '*' and b.args[0].op == 'c':
        return mul(b.args[0], mul(a, b.args[1]))
    if b.id < a.id:
        a, b = b, a
    return _mk('*', a, b)


def neg(a):
    return mul(MINUS, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == 'c':
        if b.args[0] == 0:
            raise ZeroDivisionError('float division by zero')
        return mul(const(1 / b.args[0]), a)
    if b.op == '*' and b.args[0].op == 'c':
        return mul(const(1 / b.args[0].args[0]), div(a, b.args[1]))
    if a.op == '*' and a.args[0].op == 'c':
        return mul(a.args[0], div(a.args[1], b))
    if a is b:
        note_nonzero(b)
        return ONE
    if a is ZERO:
        note_nonzero(b)
        return ZERO
    return _mk('/', a, b)


_nonzero_hook = [None]


def note_nonzero(e):
    if _nonzero_hook[0] is not None:
        _nonzero_hook[0](e)


def power(a, q):
    """a ** q with a rational constant exponent."""
    if q == 0:
        return ONE
    if q == 1:
        return a
    if a.op == 'c':
        if q.denominator == 1:
            return const(a.args[0] ** int(q))
        return const(to_frac(_float(a.args[0]) ** _float(q)))
    if q.denominator == 1:
        n = abs(int(q))
        if n > 12:
            raise EncodingError('exponent too large')
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r if q > 0 else div(ONE, r)
    if q < 0:
        return div(ONE, power(a, -q))
    return _mk('pow', a, q)


def uf(name, *args):
    return _mk('uf', name, *args)


def log(a):
    if a.op == 'c':
        return const(to_frac(_math.log(a.args[0])))
    if a.op == '/' and a.args[0].op != 'c' and a.args[1].op != 'c' and a.args[0].id > a.args[1].id:
        return neg(uf('log', div(a.args[1], a.args[0])))
    return uf('log', a)


def exp(a):
    if a.op == 'c':
        return const(to_frac(_math.exp(a.args[0])))
    return uf('exp', a)


def show(e, depth=6):
    if e.op == 'c':
        v = e.args[0]
        return str(v) if v.denominator == 1 else repr(_float(v))
    if e.op == 'v':
        return e.args[0]
    if depth == 0:
        return '...'
    if e.op in '+*/':
        return '(' + show(e.args[0], depth - 1) + ' ' + e.op + ' ' + show(e.args[1], depth - 1) + ')'
    if e.op == 'pow':
        return show(e.args[0], depth - 1) + '^' + str(e.args[1])
    return e.args[0] + '(' + ', '.join(show(a, depth - 1) for a in e.args[1:]) + ')'


_BUILTIN_DIFF = {'log', 'exp', 'sqrt', 'sin', 'cos', 'atan'}


def diff(e, v, memo=None):
    """Exact partial derivative; d f(a..) = sum f_,i(a..) * da_i."""
    if memo is None:
        memo = {}
    if v not in vars_of(e):
        return ZERO
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    if op == 'c':
        r = ZERO
    elif op == 'v':
        r = ONE if e is v else ZERO
    elif op == '+':
        r = add(diff(e.args[0], v, memo), diff(e.args[1], v, memo))
    elif op == '*':
        a, b = e.args
        r = add(mul(diff(a, v, memo), b), mul(a, diff(b, v, memo)))
    elif op == '/':
        a, b = e.args
        da, db = diff(a, v, memo), diff(b, v, memo)
        if db is ZERO:
            r = div(da, b)
        else:
            r = sub(div(da, b), div(mul(a, db), mul(b, b)))
    elif op == 'pow':
        a, q = e.args
        r = mul(const(q), mul(div(e, a), diff(a, v, memo)))
    else:
        name = e.args[0]
        if name == 'log':
            r = div(diff(e.args[1], v, memo), e.args[1])
        elif name == 'exp':
            r = mul(e, diff(e.args[1], v, memo))
        elif name == 'root':
            # e = root of F(b) = 0 in the bound variable b (implicit function)
            F, m = e.args[1], {BOUND: e}
            r = neg(div(subst(diff(F, v), m), subst(diff(F, BOUND), m)))
        else:
            r = ZERO
            for i, a in enumerate(e.args[1:]):
                da = diff(a, v, memo)
                if da is not ZERO:
                    r = add(r, mul(partial(name, i, e.args[1:]), da))
    memo[e.id] = r
    return r


BOUND = var('!bound')


# user supplied partial-derivative rules  name -> f(i, args) -> E
DIFF_RULES = {}


def partial(name, i, args):
    rule = DIFF_RULES.get(name)
    if rule is not None:
        r = rule(i, args)
        if r is not None:
            return r
    # canonical naming: derivative multi-index, order independent
    if '|d' in name:
        base, idx = name.split('|d')
        idxs = sorted(list(idx.split(',')) + [str(i)])
    else:
        base, idxs = name, [str(i)]
    return uf(base + '|d' + ','.join(idxs), *args)


def vars_of(e):
    s = e._vars
    if s is not None:
        return s
    if e.op == 'c':
        s = frozenset()
    elif e.op == 'v':
        s = frozenset([e])
    else:
        s = frozenset().union(*[vars_of(a) for a in e.args if isinstance(a, E)])
    e._vars = s
    return s


def subst(e, mapping, memo=None):
    """Substitute variables (E -> E)."""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is not None:
        return r
    if e in mapping:
        r = mapping[e]
    elif e.op in ('c', 'v'):
        r = e
    else:
        args = [subst(a, mapping, memo) if isinstance(a, E) else a for a in e.args]
        if e.op == '+':
            r = add(*args)
        elif e.op == '*':
            r = mul(*args)
        elif e.op == '/':
            r = div(*args)
        elif e.op == 'pow':
            r = power(*args)
        elif args[0] == 'log':
            r = log(args[1])
        elif args[0] == 'exp':
            r = exp(args[1])
        else:
            r = uf(*args)
    memo[e.id] = r
    return r


def evaluate(e, env, ufs=None, memo=None):
    """Numeric (float) evaluation; env: name->float, ufs: name->callable."""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    if op == 'c':
        r = _float(e.args[0])
    elif op == 'v':
        r = env[e.args[0]]
    elif op == '+':
        r = evaluate(e.args[0], env, ufs, memo) + evaluate(e.args[1], env, ufs, memo)
    elif op == '*':
        r = evaluate(e.args[0], env, ufs, memo) * evaluate(e.args[1], env, ufs, memo)
    elif op == '/':
        r = evaluate(e.args[0], env, ufs, memo) / evaluate(e.args[1], env, ufs, memo)
    elif op == 'pow':
        r = evaluate(e.args[0], env, ufs, memo) ** _float(e.args[1])
    else:
        args = [evaluate(a, env, ufs, memo) for a in e.args[1:]]
        name = e.args[0]
        if name == 'log':
            r = _math.log(args[0])
        elif name == 'exp':
            r = _math.exp(args[0])
        else:
            r = ufs[name](*args)
    memo[e.id] = r
    return r


def topo(e):
    seen = set()
    out = []
    stack = [(e, False)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, E):
                stack.append((a, False))
    return out


# --------------------------------------------------------------------------
# boolean layer
class B:
    """Boolean formula over E: ('cmp', op, E) meaning e op 0, and/or/not."""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def key(self):
        if self.kind == 'cmp':
            return ('cmp', self.args[0], self.args[1].id)
        if self.kind == 'bv':
            return ('bv', self.args[0])
        if self.kind == 'k':
            return ('k', self.args[0])
        return (self.kind,) + tuple(a.key() for a in self.args)

    def __repr__(self):
        if self.kind == 'cmp':
            return f'{show(self.args[1])} {self.args[0]} 0'
        if self.kind in ('k', 'bv'):
            return str(self.args[0])
        return self.kind + '(' + ', '.join(map(repr, self.args)) + ')'


TRUE = B('k', True)
FALSE = B('k', False)


def cmp_(op, a, b):
    d = sub(a, b)
    if d.op == 'c':
        v = d.args[0]
        return TRUE if {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0,
                        '>': v > 0, '>=': v >= 0}[op] else FALSE
    return B('cmp', op, d)


def not_(b):
    if b.kind == 'k':
        return FALSE if b.args[0] else TRUE
    if b.kind == 'not':
        return b.args[0]
    if b.kind == 'cmp':
        o = {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<=', '>=': '<'}
        return B('cmp', o[b.args[0]], b.args[1])
    return B('not', b)


def and_(*bs):
    bs = [b for b in bs if not (b.kind == 'k' and b.args[0])]
    if any(b.kind == 'k' for b in bs):
        return FALSE
    if not bs:
        return TRUE
    return bs[0] if len(bs) == 1 else B('and', *bs)


def or_(*bs):
    bs = [b for b in bs if not (b.kind == 'k' and not b.args[0])]
    if any(b.kind == 'k' for b in bs):
        return TRUE
    if not bs:
        return FALSE
    return bs[0] if len(bs) == 1 else B('or', *bs)


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    return cmp_('==', lift(a), lift(b))


def ne(a, b):
    return cmp_('!=', lift(a), lift(b))


def lt(a, b):
    return cmp_('<', lift(a), lift(b))


def le(a, b):
    return cmp_('<=', lift(a), lift(b))


def gt(a, b):
    return cmp_('>', lift(a), lift(b))


def ge(a, b):
    return cmp_('>=', lift(a), lift(b))


def close(a, b, tol):
    """|a-b| <= tol (tol: E or number)."""
    a, b, t = lift(a), lift(b), lift(tol)
    return and_(cmp_('<=', sub(a, b), t), cmp_('<=', sub(b, a), t))


_brancher = [None]


class SymBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        if self.b.kind == 'k':
            return self.b.args[0]
        if _brancher[0] is None:
            raise EncodingError('symbolic condition outside an exploration: %r' % (self.b,))
        return _brancher[0](self.b)

    def __and__(self, o):
        return SymBool(and_(self.b, as_b(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(or_(self.b, as_b(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(not_(self.b))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + int(o)
    __radd__ = __add__

    def __float__(self):
        return _float(bool(self))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def all(self):
        return self

    def any(self):
        return self

    def __repr__(self):
        return f'SymBool({self.b!r})'


def as_b(o):
    if isinstance(o, SymBool):
        return o.b
    if isinstance(o, B):
        return o
    return TRUE if o else FALSE


def lift(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, E):
        return x
    if isinstance(x, SymBool):
        return ONE if bool(x) else ZERO
    if isinstance(x, (int, _float, Fraction)):
        return const(to_frac(x))
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return const(to_frac(x.item()))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return lift(x.item())
    except ImportError:
        pass
    raise EncodingError(f'cannot lift {type(x)} into a symbolic expression')


def _numlike(x):
    import numpy as np
    return isinstance(x, (int, _float, Fraction, np.generic, SymBool)) and not isinstance(x, np.bool_)


def wrap(e):
    if e.op == 'c':
        v = e.args[0]
        return _float(v)
    return Sym(e)


import numpy as _np  # noqa: E402
NPNAN = _np.nan


class Sym(_float):
    __slots__ = ('e',)

    def __new__(cls, e):
        s = _float.__new__(cls, NAN)
        s.e = e
        return s

    # -- arithmetic
    def _bin(f):
        def op(self, o):
            if not _numlike(o):
                return NotImplemented
            if o is NPNAN:      # the constant, not a leaked value
                return NPNAN
            return wrap(f(self.e, lift(o)))
        return op

    def _rbin(f):
        def op(self, o):
            if not _numlike(o):
                return NotImplemented
            if o is NPNAN:
                return NPNAN
            return wrap(f(lift(o), self.e))
        return op

    __add__ = _bin(add)
    __radd__ = _rbin(add)
    __sub__ = _bin(sub)
    __rsub__ = _rbin(sub)
    __mul__ = _bin(mul)
    __rmul__ = _rbin(mul)
    __truediv__ = _bin(div)
    __rtruediv__ = _rbin(div)

    def __neg__(self):
        return wrap(neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        if SymBool(cmp_('>=', self.e, ZERO)):
            return self
        return wrap(neg(self.e))

    def __pow__(self, q, mod=None):
        if isinstance(q, Sym):
            if q.e.op == 'c':
                return wrap(power(self.e, q.e.args[0]))
            return wrap(exp(mul(q.e, log(self.e))))
        if not _numlike(q):
            return NotImplemented
        return wrap(power(self.e, to_frac(q)))

    def __rpow__(self, base):
        if not _numlike(base):
            return NotImplemented
        return wrap(exp(mul(self.e, log(lift(base)))))

    def __floordiv__(self, o):
        raise EncodingError('floor division of a symbolic value')
    __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __floordiv__

    def __round__(self, n=None):
        # rounding is only used to compare nearly equal values; model: exact
        return self

    def __int__(self):
        raise EncodingError('int() of a symbolic value')
    __trunc__ = __floor__ = __ceil__ = __int__

    def __bool__(self):
        return bool(SymBool(cmp_('!=', self.e, ZERO)))

    def is_integer(self):
        return False

    def __hash__(self):
        return hash(self.e.id)

    # -- comparisons
    def _cmp(op):
        def f(self, o):
            if o is None or not _numlike(o):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            if not isinstance(o, Sym) and not isinstance(o, SymBool):
                fo = _float(o)
                if fo != fo:
                    return op == '!='
                if fo in (_float('inf'), -_float('inf')):
                    pos = fo > 0
                    return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                            '==': False, '!=': True}[op]
            c = cmp_(op, self.e, lift(o))
            if c.kind == 'k':
                return c.args[0]
            return SymBool(c)
        return f

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')
    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')

    # -- misc protocol
    def __repr__(self):
        return f'Sym<{show(self.e)}>'
    __str__ = __repr__

    def __format__(self, spec):
        return 'sym'

    def __reduce__(self):
        raise EncodingError('pickling a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    # numpy-style unary methods (object arrays call these)
    def sqrt(self):
        return wrap(power(self.e, Fraction(1, 2)))

    def log(self):
        return wrap(log(self.e))

    def exp(self):
        return wrap(exp(self.e))

    def conjugate(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        import numpy as np
        name = ufunc.__name__
        if method != '__call__':
            raise EncodingError(f'numpy ufunc {name}.{method} on a symbolic value')
        out = kwargs.get('out')
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            if not isinstance(out, np.ndarray) or out.dtype != object:
                raise EncodingError(f'numpy ufunc {name} with a symbolic value into a float array')
            out[...] = self.__array_ufunc__(ufunc, method, *inputs)
            return out
        if any(isinstance(i, np.ndarray) and i.ndim > 0 for i in inputs):
            ins = [np.asarray(i, dtype=object) if isinstance(i, np.ndarray)
                   else i for i in inputs]
            # broadcast by hand
            arrs = np.broadcast_arrays(*[
                i if isinstance(i, np.ndarray) else _obj0(i) for i in ins])
            out = np.empty(arrs[0].shape, dtype=object)
            for idx in np.ndindex(*arrs[0].shape):
                out[idx] = apply_ufunc(name, [a[idx] for a in arrs])
            return out
        return apply_ufunc(name, list(inputs))

    def __array_function__(self, func, types, args, kwargs):
        raise EncodingError(f'numpy function {func.__name__} on a symbolic value')


def _obj0(x):
    import numpy as np
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def apply_ufunc(name, a):
    import numpy as np
    two = {
        'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y,
        'multiply': lambda x, y: x * y, 'divide': lambda x, y: x / y,
        'true_divide': lambda x, y: x / y, 'power': lambda x, y: x ** y,
        'float_power': lambda x, y: x ** y,
        'less': lambda x, y: x < y, 'less_equal': lambda x, y: x <= y,
        'greater': lambda x, y: x > y, 'greater_equal': lambda x, y: x >= y,
        'equal': lambda x, y: x == y, 'not_equal': lambda x, y: x != y,
        'maximum': lambda x, y: x if x >= y else y,
        'minimum': lambda x, y: x if x <= y else y,
        'fmax': lambda x, y: x if x >= y else y,
        'fmin': lambda x, y: x if x <= y else y,
        'logical_and': lambda x, y: bool(x) and bool(y),
        'logical_or': lambda x, y: bool(x) or bool(y),
        'copysign': sym_copysign,
    }
    one = {
        'negative': lambda x: -x, 'absolute': abs, 'fabs': abs,
        'sqrt': sym_sqrt, 'log': sym_log, 'exp': sym_exp, 'log10': sym_log10,
        'isnan': lambda x: False, 'isfinite': lambda x: True,
        'isinf': lambda x: False, 'square': lambda x: x * x,
        'sign': lambda x: 1.0 if x > 0 else (-1.0 if x < 0 else 0.0),
        'positive': lambda x: x, 'reciprocal': lambda x: 1 / x,
        'logical_not': lambda x: not x,
    }
    a = [x.item() if isinstance(x, (np.generic, np.ndarray)) else x
         for x in a]
    if name in one and len(a) == 1:
        return one[name](a[0])
    if name in two and len(a) == 2:
        return two[name](a[0], a[1])
    raise EncodingError(f'numpy ufunc {name} is not modelled')


class DomainError(ValueError):
    """math domain error of the code under analysis."""


def _domain(ok):
    if _brancher[0] is not None and not ok:
        raise DomainError('math domain error')


def math_log(x, base=None):
    if isinstance(x, Sym):
        _domain(x > 0)
    return sym_log(x, base)


def math_log10(x):
    if isinstance(x, Sym):
        _domain(x > 0)
    return sym_log10(x)


def math_sqrt(x):
    if isinstance(x, Sym):
        _domain(x >= 0)
    return sym_sqrt(x)


def sym_log(x, base=None):
    if isinstance(x, Sym):
        r = wrap(log(x.e))
    else:
        r = _orig_math['log'](x)
    if base is not None:
        r = r / sym_log(base)
    return r


def sym_log10(x):
    if isinstance(x, Sym):
        return wrap(mul(const(to_frac(1 / _orig_math['log'](10))), log(x.e)))
    return _orig_math['log10'](x)


def sym_exp(x):
    return wrap(exp(x.e)) if isinstance(x, Sym) else _orig_math['exp'](x)


def sym_sqrt(x):
    return x.sqrt() if isinstance(x, Sym) else _orig_math['sqrt'](x)


def sym_copysign(x, y):
    if not (is_sym(x) or is_sym(y)):
        return _orig_math['copysign'](x, y)
    ax = abs(x)
    return ax if y >= 0 else -ax


def sym_isnan(x):
    return False if is_sym(x) else _orig_math['isnan'](x)


def sym_pow(x, y):
    return x ** y if (is_sym(x) or is_sym(y)) else _orig_math['pow'](x, y)


def sym_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (is_sym(a) or is_sym(b)):
        return _orig_math['isclose'](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    m = max(abs(a), abs(b))
    return bool(d <= max(rel_tol * m, abs_tol))


def sym_fsum(xs):
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        r = 0
        for x in xs:
            r = r + x
        return r
    return _orig_math['fsum'](xs)


def sym_fabs(x):
    return abs(x) if is_sym(x) else _orig_math['fabs'](x)


def sym_prod(xs, *, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def sym_unsupported(name):
    def f(*a, **k):
        if any(is_sym(x) for x in a):
            raise EncodingError(f'math.{name} of a symbolic value')
        return _orig_math[name](*a, **k)
    return f


_orig_math = {n: getattr(_math, n) for n in dir(_math) if callable(getattr(_math, n)) and not n.startswith('__')}
_MODELLED = {
    'log': math_log, 'log10': math_log10, 'exp': sym_exp, 'sqrt': math_sqrt,
    'copysign': sym_copysign, 'isnan': sym_isnan, 'pow': sym_pow,
    'isclose': sym_isclose, 'fsum': sym_fsum, 'fabs': sym_fabs,
    'prod': sym_prod, 'isfinite': lambda x: True if is_sym(x) else _orig_math['isfinite'](x),
    'isinf': lambda x: False if is_sym(x) else _orig_math['isinf'](x),
}


def patch_math():
    for n in _orig_math:
        setattr(_math, n, _MODELLED.get(n) or sym_unsupported(n))


def unpatch_math():
    for n, f in _orig_math.items():
        setattr(_math, n, f)
