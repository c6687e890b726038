"""Fluid property engine used by every harness.

``StubFluid`` is an ordinary tespy fluid property engine (the documented
extension point ``fluid_engines``).  With float arguments it is a smooth
analytic fluid; as soon as one argument is symbolic the result is an
application of an uninterpreted function, i.e. *any* fluid, up to the inverse
laws below and the ranges in UF_RANGE.
"""
import math as _m
import zlib

from . import solver as Z
from . import sym as S

_log = S._orig_math['log']
_exp = S._orig_math['exp']

Z.UF_RANGE.update({
    'T_ph': (1.0, 5000.0), 'T_ps': (1.0, 5000.0), 'T_sat': (1.0, 5000.0),
    'd_ph': (1e-6, 1e6), 'd_pT': (1e-6, 1e6), 'd_QT': (1e-6, 1e6),
    'viscosity_ph': (1e-9, 1e3), 'viscosity_pT': (1e-9, 1e3),
    'p_sat': (1e-3, 1e9),
})


def _app(name, *args):
    return S.Sym(S.uf(name, *[S.lift(a) for a in args]))


def _match(x, base, fluid):
    if isinstance(x, S.Sym) and x.e.op == 'uf' and x.e.args[0] == f'{base}@{fluid}':
        return x.e.args[1:]
    return None


def make_base():
    from tespy.tools.fluid_properties.wrappers import FluidPropertyWrapper

    class StubFluid(FluidPropertyWrapper):
        calls = None        # optional list recording concrete calls

        def __init__(self, fluid, back_end=None):
            super().__init__(fluid, back_end)
            r = zlib.crc32(fluid.encode()) % 1000 / 1000.0
            self.cp = 1500.0 + 900.0 * r
            self.R = 200.0 + 150.0 * r
            self._T_min = 200.0
            self._T_max = 2500.0
            self._p_min = 100.0
            self._p_max = 1e9
            self._p_crit = 2e8
            self._T_crit = 700.0
            self._molar_mass = {'H2O': 0.018, 'water': 0.018, 'O2': 0.032,
                                'N2': 0.028, 'CO2': 0.044, 'CH4': 0.016,
                                'H2': 0.002, 'Ar': 0.04, 'CO': 0.028}.get(fluid, 0.02 + 0.03 * r)
            try:
                import CoolProp as CP
                self._molar_mass = CP.CoolProp.PropsSI('M', fluid)
            except Exception:
                pass
            try:
                import CoolProp as CP
                self._aliases = CP.CoolProp.get_aliases(fluid)
            except Exception:
                self._aliases = [fluid]

        # -- concrete analytic fluid
        def _T(self, p, h):
            return 250.0 + h / self.cp * (1 + 2e-9 * p)

        def _h(self, p, T):
            return (T - 250.0) * self.cp / (1 + 2e-9 * p)

        def _s(self, p, T):
            return self.cp * _log(T) - self.R * _log(p / 1e5)

        def _Ts(self, p, s):
            return _exp((s + self.R * _log(p / 1e5)) / self.cp)

        def _d(self, p, T):
            return 0.5 + p / (self.R * T) + 1e-4 * T

        def _mu(self, p, T):
            return 1e-5 * (1 + T / 500.0 + p * 1e-8)

        def _Tsat(self, p):
            return 280.0 + 25.0 * _log(p / 1e3)

        def _psat(self, T):
            return 1e3 * _exp((T - 280.0) / 25.0)

        def _hl(self, p):
            return self._h(p, self._Tsat(p)) * 0.98

        def _r(self, p):
            return 2.0e6 - 1e5 * _log(p / 1e3)

        def _is_below_T_critical(self, T):
            return T < self._T_crit

        def _make_p_subcritical(self, p):
            if p > self._p_crit:
                p = self._p_crit * 0.99
            return p

        def get_T_max(self, p):
            return self._T_max

        def _d2(self, name, conc, *args):
            if any(S.is_sym(a) for a in args):
                return _app(f'{name}@{self.fluid}', *args)
            return conc(*args)

        def T_ph(self, p, h):
            m = _match(h, 'h_pT', self.fluid)
            if m is not None and m[0] is S.lift(p):
                return S.wrap(m[1])
            return self._d2('T_ph', self._T, p, h)

        def h_pT(self, p, T):
            m = _match(T, 'T_ph', self.fluid)
            if m is not None and m[0] is S.lift(p):
                return S.wrap(m[1])
            return self._d2('h_pT', self._h, p, T)

        def T_ps(self, p, s):
            return self._d2('T_ps', self._Ts, p, s)

        def h_ps(self, p, s):
            m = _match(s, 's_ph', self.fluid)
            if m is not None and m[0] is S.lift(p):
                return S.wrap(m[1])
            return self._d2('h_ps', lambda p, s: self._h(p, self._Ts(p, s)), p, s)

        def isentropic(self, p_1, h_1, p_2):
            return self.h_ps(p_2, self.s_ph(p_1, h_1))

        def s_ph(self, p, h):
            m = _match(h, 'h_ps', self.fluid)
            if m is not None and m[0] is S.lift(p):
                return S.wrap(m[1])
            return self._d2('s_ph', lambda p, h: self._s(p, self._T(p, h)), p, h)

        def s_pT(self, p, T):
            return self._d2('s_pT', self._s, p, T)

        def d_ph(self, p, h):
            return self._d2('d_ph', lambda p, h: self._d(p, self._T(p, h)), p, h)

        def d_pT(self, p, T):
            return self._d2('d_pT', self._d, p, T)

        def viscosity_ph(self, p, h):
            return self._d2('viscosity_ph', lambda p, h: self._mu(p, self._T(p, h)), p, h)

        def viscosity_pT(self, p, T):
            return self._d2('viscosity_pT', self._mu, p, T)

        def T_sat(self, p):
            m = _match(p, 'p_sat', self.fluid)
            if m is not None:
                return S.wrap(m[0])
            return self._d2('T_sat', self._Tsat, p)

        def p_sat(self, T):
            m = _match(T, 'T_sat', self.fluid)
            if m is not None:
                return S.wrap(m[0])
            return self._d2('p_sat', self._psat, T)

        def h_pQ(self, p, Q):
            m = _match(Q, 'Q_ph', self.fluid)
            if m is not None and m[0] is S.lift(p):
                return S.wrap(m[1])
            return self._d2('h_pQ', lambda p, Q: self._hl(p) + Q * self._r(p), p, Q)

        def Q_ph(self, p, h):
            m = _match(h, 'h_pQ', self.fluid)
            if m is not None and m[0] is S.lift(p):
                return S.wrap(m[1])
            return self._d2('Q_ph', lambda p, h: (h - self._hl(p)) / self._r(p), p, h)

        def h_QT(self, Q, T):
            return self._d2('h_QT', lambda Q, T: self._hl(self._psat(T)) + Q * self._r(self._psat(T)), Q, T)

        def s_QT(self, Q, T):
            return self._d2('s_QT', lambda Q, T: self._s(self._psat(T), T) + Q * 3000.0, Q, T)

        def d_QT(self, Q, T):
            return self._d2('d_QT', lambda Q, T: 900.0 - 0.1 * T - Q * (890.0 - 0.1 * T), Q, T)

        def phase_ph(self, p, h):
            if S.is_sym(p) or S.is_sym(h):
                q = self.Q_ph(p, h)
                return 'l' if q < 0 else ('g' if q > 1 else 'tp')
            q = (h - self._hl(p)) / self._r(p)
            return 'l' if q < 0 else ('g' if q > 1 else 'tp')

    return StubFluid


_cls = None
_cls2 = None


def TwoPhaseFluid():
    """StubFluid whose temperature in the two phase region is the boiling
    temperature (also as law between the uninterpreted functions)."""
    global _cls2
    if _cls2 is None:
        base = StubFluid()

        class TwoPhase(base):
            def _hl(self, p):
                return (self._Tsat(p) - 250.0) * self.cp

            def _T(self, p, h):
                hl = self._hl(p)
                if h < hl:
                    return 250.0 + h / self.cp
                return self._Tsat(p) + max(0.0, h - hl - self._r(p)) / self.cp

            def _h(self, p, T):
                Ts = self._Tsat(p)
                return (T - 250.0) * self.cp + (self._r(p) if T > Ts else 0.0)

            def _r(self, p):
                return 1.5e6 - 1e5 * _log(p / 1e3)

            def T_ph(self, p, h):
                m = _match(h, 'h_pQ', self.fluid)
                if m is not None and m[0] is S.lift(p):
                    return self.T_sat(p)
                return super().T_ph(p, h)
        _cls2 = TwoPhase
    return _cls2


def StubFluid():
    global _cls
    if _cls is None:
        _cls = make_base()
    return _cls
