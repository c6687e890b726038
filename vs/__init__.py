"""Symbolic execution of the real tespy code, decided by an SMT solver."""
import sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)      # z3 / cvc5 bindings; last, so tespy's own deps win
