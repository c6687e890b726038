"""Translation of expression DAGs to SMT (z3) and the queries on them.

Terms are translated to quotients  N / prod(f_i ** k_i)  of polynomials over
atoms (variables, applications of uninterpreted functions, roots, logs).  Every
denominator factor is asserted non-zero: a division by zero ends the real
execution with an exception and is outside every claim made here.
Applications of uninterpreted functions are Ackermannised: one real per
application, keyed by a Laurent-polynomial normal form of the arguments;
pairwise congruence constraints are added when a query without them is
satisfiable.
"""
import time
from fractions import Fraction

import z3

from . import sym as S

INF = float('inf')


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.branch_queries = 0
        self.branch_interval = 0
        self.paths = 0
        self.obligations = 0
        self.cross = 0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


STATS = Stats()

# name prefix (before '@') -> (lo, hi) known range of the function value
UF_RANGE = {}
VAR_RANGE = {}


def uf_base(name):
    return name.split('@')[0]


# --------------------------------------------------------------------- ranges
def interval(e, ranges, memo):
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    if op == 'c':
        v = float(e.args[0])
        r = (v, v)
    elif op == 'v':
        r = ranges.get(e.args[0], (-INF, INF))
    elif op == '+':
        a = interval(e.args[0], ranges, memo)
        b = interval(e.args[1], ranges, memo)
        r = (a[0] + b[0], a[1] + b[1])
    elif op == '*':
        a = interval(e.args[0], ranges, memo)
        if e.args[0] is e.args[1]:
            m = max(abs(a[0]), abs(a[1]))
            lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])) ** 2
            r = (lo, m * m)
        else:
            b = interval(e.args[1], ranges, memo)
            ps = [_m(x, y) for x in a for y in b]
            r = (min(ps), max(ps))
    elif op == '/':
        a = interval(e.args[0], ranges, memo)
        b = interval(e.args[1], ranges, memo)
        if b[0] > 0 or b[1] < 0:
            bi = (1 / b[1] if abs(b[1]) != INF else 0.0,
                  1 / b[0] if abs(b[0]) != INF else 0.0)
            if bi[0] > bi[1]:
                bi = (bi[1], bi[0])
            ps = [_m(x, y) for x in a for y in bi]
            r = (min(ps), max(ps))
        else:
            r = (-INF, INF)
    elif op == 'pow':
        a = interval(e.args[0], ranges, memo)
        q = float(e.args[1])
        lo = max(a[0], 0.0)
        hi = max(a[1], 0.0)
        r = (lo ** q, hi ** q if hi != INF else INF)
    else:
        name = e.args[0]
        if name == 'exp':
            r = (0.0, INF)
        elif name == 'log':
            import math
            a = interval(e.args[1], ranges, memo)
            lg = S._orig_math['log']
            r = (lg(a[0]) if a[0] > 0 else -INF,
                 (lg(a[1]) if a[1] != INF else INF) if a[1] > 0 else INF)
        else:
            r = UF_RANGE.get(uf_base(name), (-INF, INF))
    if r[0] != r[0] or r[1] != r[1]:
        r = (-INF, INF)
    memo[e.id] = r
    return r


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


# ---------------------------------------------------------- normal form (keys)
_nf_memo = {}
NF_LIMIT = 60


class TooBig(Exception):
    pass


def nf(e):
    """Laurent polynomial normal form {monomial: coeff}; monomial = sorted
    tuple of (atom, exponent)."""
    r = _nf_memo.get(e.id)
    if r is not None:
        if r == 'big':
            raise TooBig
        return r
    try:
        r = _nf(e)
        if len(r) > NF_LIMIT:
            raise TooBig
    except TooBig:
        _nf_memo[e.id] = 'big'
        raise
    _nf_memo[e.id] = r
    return r


def _mm(a, b):
    d = dict(a)
    for k, n in b:
        d[k] = d.get(k, 0) + n
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items()))


def _nf(e):
    op = e.op
    if op == 'c':
        return {(): e.args[0]} if e.args[0] != 0 else {}
    if op == 'v':
        return {((('v', e.args[0]), 1),): Fraction(1)}
    if op == '+':
        d = dict(nf(e.args[0]))
        for m, c in nf(e.args[1]).items():
            d[m] = d.get(m, 0) + c
            if d[m] == 0:
                del d[m]
        return d
    if op == '*':
        return _nfmul(nf(e.args[0]), nf(e.args[1]))
    if op == '/':
        a, b = nf(e.args[0]), nf(e.args[1])
        if len(b) == 1:
            (m, c), = b.items()
            inv = {tuple((k, -n) for k, n in m): 1 / c}
        else:
            # normalise the leading coefficient
            items = sorted(b.items(), key=lambda t: repr(t[0]))
            lead = items[0][1]
            key = ('inv', tuple((m, c / lead) for m, c in items))
            inv = {((key_atom(key), 1),): 1 / lead}
        return _nfmul(a, inv)
    if op == 'pow':
        return {((key_atom(('pow', freeze(e.args[0]), e.args[1])), 1),): Fraction(1)}
    return {((key_atom(('uf', e.args[0]) + tuple(freeze(a) for a in e.args[1:])), 1),): Fraction(1)}


def _nfmul(a, b):
    if len(a) * len(b) > 4 * NF_LIMIT:
        raise TooBig
    d = {}
    for m, c in a.items():
        for n, k in b.items():
            t = _mm(m, n)
            d[t] = d.get(t, 0) + c * k
            if d[t] == 0:
                del d[t]
    return d


_atoms = {}


def key_atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atoms)
        _atoms[key] = i
    return ('a', str(i))


def freeze(e):
    try:
        return tuple(sorted(nf(e).items(), key=lambda t: repr(t[0])))
    except TooBig:
        return ('id', e.id)


# ------------------------------------------------------------------- encoding
class Encoder:
    def __init__(self, ranges):
        self.ranges = ranges
        self.imemo = {}
        self.memo = {}
        self.atoms = {}       # key -> z3 real
        self.apps = {}        # uf name -> list of (args E, z3 real)
        self.factors = {}     # key -> (z3 expr, e)
        self.new_axioms = []  # z3 constraints not yet asserted
        self.vars = {}

    # ---- atoms
    def _atom(self, key, mk):
        a = self.atoms.get(key)
        if a is None:
            a = z3.Real(f'a{len(self.atoms)}_{mk}')
            self.atoms[key] = a
            return a, True
        return a, False

    def _range_axiom(self, a, lo, hi):
        if lo != -INF:
            self.new_axioms.append(a >= _q(lo) if lo != 0 else a > 0)
        if hi != INF:
            self.new_axioms.append(a <= _q(hi))

    def var(self, name):
        a, new = self._atom(('v', name), name)
        if new:
            self.vars[name] = a
            lo, hi = self.ranges.get(name, (-INF, INF))
            if lo != -INF:
                self.new_axioms.append(a >= _q(lo))
            if hi != INF:
                self.new_axioms.append(a <= _q(hi))
        return a

    def app(self, e):
        name = e.args[0]
        args = e.args[1:]
        key = ('uf', name) + tuple(freeze(x) for x in args)
        a, new = self._atom(key, name.replace('|', '_'))
        if new:
            self.apps.setdefault(name, []).append((args, a))
            if name == 'log':
                x, fx = self.rat(args[0])
                gt1 = self._ineq('>', S.sub(args[0], S.ONE))
                eq1 = self._ineq('==', S.sub(args[0], S.ONE))
                pos = self._ineq('>', args[0])
                self.new_axioms += [pos, (a > 0) == gt1, (a == 0) == eq1]
            elif name == 'exp':
                self.new_axioms += [a > 0]
            else:
                lo, hi = UF_RANGE.get(uf_base(name), (-INF, INF)) if '|d' not in name else (-INF, INF)
                self._range_axiom(a, lo, hi)
        return a

    def root(self, e):
        base, q = e.args
        key = ('pow', freeze(base), q)
        a, new = self._atom(key, 'pow')
        if new:
            # principal value for a non-negative base
            n, d = q.numerator, q.denominator
            self.new_axioms.append(a >= 0)
            self.new_axioms.append(self._ineq('>=', base))
            if d <= 4 and n <= 6:
                N, F = self.rat(base)
                lhs = _zpow(a, d)
                rhs = _zpow(N, n)
                den = z3.RealVal(1)
                for k, m in F.items():
                    den = den * _zpow(self.factors[k][0], m * n)
                self.new_axioms.append(lhs * den == rhs)
            self.new_axioms.append((a == 0) == self._ineq('==', base))
        return a

    # ---- rational form
    def rat(self, e):
        for n in S.topo(e):
            if n.id not in self.memo:
                self.memo[n.id] = self._rat(n)
        return self.memo[e.id]

    def _rat(self, e):
        op = e.op
        if op == 'c':
            return z3.RealVal(str(e.args[0])), {}
        if op == 'v':
            return self.var(e.args[0]), {}
        if op == 'uf':
            return self.app(e), {}
        if op == 'pow':
            return self.root(e), {}
        (n1, d1), (n2, d2) = self.memo[e.args[0].id], self.memo[e.args[1].id]
        if op == '*':
            d = dict(d1)
            for k, m in d2.items():
                d[k] = d.get(k, 0) + m
            return n1 * n2, d
        if op == '+':
            if not d1 and not d2:
                return n1 + n2, {}
            d = dict(d1)
            for k, m in d2.items():
                d[k] = max(d.get(k, 0), m)
            return (n1 * self._prod(d, d1) + n2 * self._prod(d, d2)), d
        # division: (n1/d1) / (n2/d2) = n1*d2 / (d1*n2)
        key = freeze(e.args[1])
        if not d2:
            fkey = key
            if fkey not in self.factors:
                self.factors[fkey] = (n2, e.args[1])
                self.new_axioms.append(n2 != 0)
            d = dict(d1)
            d[fkey] = d.get(fkey, 0) + 1
            return n1, d
        fkey = ('num', key)
        if fkey not in self.factors:
            self.factors[fkey] = (n2, None)
            self.new_axioms.append(n2 != 0)
        d = dict(d1)
        d[fkey] = d.get(fkey, 0) + 1
        n = n1
        # cancel d2 against d1
        for k, m in d2.items():
            c = min(m, d.get(k, 0))
            if c:
                d[k] -= c
                if d[k] == 0:
                    del d[k]
            if m - c:
                n = n * _zpow(self.factors[k][0], m - c)
        return n, d

    def _prod(self, d, have):
        r = None
        for k, m in d.items():
            x = m - have.get(k, 0)
            if x:
                f = _zpow(self.factors[k][0], x)
                r = f if r is None else r * f
        return z3.RealVal(1) if r is None else r

    def _ineq(self, op, e):
        n, d = self.rat(e)
        if op in ('==', '!='):
            return (n == 0) if op == '==' else (n != 0)
        t = n
        for k, m in d.items():
            if m % 2:
                f, fe = self.factors[k]
                if fe is not None:
                    lo, hi = interval(fe, self.ranges, self.imemo)
                    if lo >= 0:
                        continue
                    if hi <= 0:
                        t = -t
                        continue
                t = t * f
        return {'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[op]

    def b(self, f):
        k = f.kind
        if k == 'k':
            return z3.BoolVal(f.args[0])
        if k == 'bv':
            return z3.Bool(f.args[0])
        if k == 'cmp':
            return self._ineq(f.args[0], f.args[1])
        if k == 'not':
            return z3.Not(self.b(f.args[0]))
        if k == 'and':
            return z3.And([self.b(x) for x in f.args])
        if k == 'or':
            return z3.Or([self.b(x) for x in f.args])
        raise S.EncodingError(k)

    def congruence(self):
        out = []
        for name, apps in self.apps.items():
            if name == 'root':
                continue        # argument contains a bound variable
            for i in range(len(apps)):
                for j in range(i):
                    conds = [self._ineq('==', S.sub(x, y))
                             for x, y in zip(apps[i][0], apps[j][0]) if x is not y]
                    out.append(z3.Implies(z3.And(conds), apps[i][1] == apps[j][1])
                               if conds else apps[i][1] == apps[j][1])
                    if name == 'log':
                        out.append(z3.Implies(
                            self._ineq('==', S.sub(S.mul(apps[i][0][0], apps[j][0][0]), S.ONE)),
                            apps[i][1] == -apps[j][1]))
                    if name in ('log', 'exp'):
                        # monotone
                        out.append(z3.Implies(
                            self._ineq('<', S.sub(apps[i][0][0], apps[j][0][0])),
                            apps[i][1] < apps[j][1]))
                        out.append(z3.Implies(
                            self._ineq('>', S.sub(apps[i][0][0], apps[j][0][0])),
                            apps[i][1] > apps[j][1]))
        return out

    def take(self):
        a, self.new_axioms = self.new_axioms, []
        return a


def _q(x):
    return z3.RealVal(str(S.to_frac(x)))


def _zpow(x, n):
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


def zval(model, a):
    v = model.eval(a, model_completion=True)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return 0.0


def trivially(b, ranges, memo):
    """Decide a condition by interval arithmetic, or None."""
    if b.kind == 'k':
        return b.args[0]
    if b.kind == 'cmp':
        op, e = b.args
        lo, hi = interval(e, ranges, memo)
        eps = 1e-9 * max(abs(x) if abs(x) != INF else 0 for x in (lo, hi))
        if lo > eps:
            return op in ('>', '>=', '!=')
        if hi < -eps:
            return op in ('<', '<=', '!=')
        return None
    if b.kind == 'not':
        r = trivially(b.args[0], ranges, memo)
        return None if r is None else not r
    rs = [trivially(x, ranges, memo) for x in b.args]
    if b.kind == 'and':
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    if b.kind == 'or':
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    return None


def run(solver, *extra):
    t = time.time()
    r = solver.check(*extra)
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r


class Verdict:
    def __init__(self, status, env=None, note=''):
        self.status = status      # 'proved' | 'refuted' | 'unknown'
        self.env = env
        self.note = note

    def __repr__(self):
        return f'<{self.status} {self.note}>'


def prove(goal, pc, ranges, timeout=20000, want_cross=False):
    """Is ``goal`` implied by the path condition?"""
    STATS.obligations += 1
    neg = S.not_(goal)
    # 1: without the path condition (identities)
    enc = Encoder(ranges)
    s = z3.Solver()
    s.set('timeout', min(timeout, 5000))
    zneg = enc.b(neg)
    s.add(z3.simplify(zneg, som=True) if _size(zneg) < 4000 else zneg)
    for a in enc.take():
        s.add(a)
    r = run(s)
    if r == z3.unsat:
        if want_cross:
            cross_check(s)
        return Verdict('proved', note='identity')
    # 2: with everything
    enc = Encoder(ranges)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(enc.b(neg))
    for c in pc:
        s.add(enc.b(c))
    for a in enc.take():
        s.add(a)
    r = run(s)
    if r == z3.unsat:
        if want_cross:
            cross_check(s)
        return Verdict('proved', note='path')
    if any(len(v) > 1 for v in enc.apps.values()):
        for c in enc.congruence():
            s.add(c)
        for a in enc.take():
            s.add(a)
        r2 = run(s)
        if r2 == z3.unsat:
            return Verdict('proved', note='congruence')
        if r2 != z3.unknown or r == z3.unknown:
            r = r2
        else:
            # fall back to the model without congruence
            s.reset()
            s.add(enc.b(neg))
            for c in pc:
                s.add(enc.b(c))
            r = z3.unknown
    if r == z3.sat:
        m = s.model()
        env = {n: zval(m, a) for n, a in enc.vars.items()}
        return Verdict('refuted', env)
    # 3: unknown -> try the nonlinear tactic
    s3 = z3.Tactic('qfnra-nlsat').solver()
    s3.set('timeout', timeout)
    for a in s.assertions():
        s3.add(a)
    r = run(s3)
    if r == z3.unsat:
        return Verdict('proved', note='nlsat')
    if r == z3.sat:
        m = s3.model()
        env = {n: zval(m, a) for n, a in enc.vars.items()}
        return Verdict('refuted', env)
    return Verdict('unknown')


def _size(e, cap=5000):
    n = 0
    seen = set()
    st = [e]
    while st and n < cap:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        st += x.children()
    return n


CROSS_LOG = []


def cross_check(solver):
    """Second solver (cvc5) on the same SMT-LIB text."""
    try:
        import cvc5
        from cvc5 import InputParser, SymbolManager
    except ImportError:
        return None
    txt = '(set-logic QF_NRA)\n' + solver.to_smt2()
    txt = '\n'.join(l for l in txt.splitlines() if not l.startswith('(set-info'))
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', '5000')
    sm = SymbolManager(slv)
    p = InputParser(slv, sm)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    out = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        o = c.invoke(slv, sm)
        if o.strip() in ('sat', 'unsat', 'unknown'):
            out = o.strip()
        elif 'error' in o:
            out = 'error'
            break
    STATS.cross += 1
    CROSS_LOG.append(out)
    return out


def satisfiable(pc, ranges, timeout=5000):
    """Model of a path condition (vacuity guard / concretisation) or None."""
    enc = Encoder(ranges)
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in pc:
        s.add(enc.b(c))
    for a in enc.take():
        s.add(a)
    r = run(s)
    if r == z3.sat:
        m = s.model()
        return {n: zval(m, a) for n, a in enc.vars.items()}
    return None if r == z3.unsat else 'unknown'
