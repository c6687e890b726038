"""J01: Jacobian entries of component equations."""
from run import Case

from .. import catalog as K
from .. import net
from .jac import comp_net, jac_case

META = {
    'bounds': 'one component between sources and sinks per case; every specification alone plus all '
              'mandatory equations; mass flow, pressure, enthalpy, parameters, design values symbolic '
              f'(ranges m {net.M_RANGE}, p {net.P_RANGE}, h {net.H_RANGE}); every feasible path',
    'assumptions': [
        'fluid properties are uninterpreted functions of (p,h) etc. with the ranges and inverse laws of vs/fluids.py',
        'characteristic lines are arbitrary differentiable positive functions; characteristic maps are the '
        'real default maps',
        'central finite differences are replaced by the exact derivative of the function they are given '
        '(contract checked by N01); iterative inversions by an uninterpreted function (contract checked by N02)',
        'no denominator is zero; real arithmetic instead of floating point',
    ],
    'outside': 'composition columns of equations whose code documents no composition derivative; '
               'convergence behaviour; floating point rounding',
}


def _sat(c):
    from tespy.tools.fluid_properties import h_mix_pQ
    return (h_mix_pQ(c.p.val_SI, 0, c.fluid_data), h_mix_pQ(c.p.val_SI, 1, c.fluid_data))


def _order(hot, cold):
    """Phase regions of both sides, heat flows from hot to cold."""
    def f(ctx, nw):
        c = [x for x in nw.comps['object'] if x.label == 'c'][0]
        hi, ho = c.inl[0], c.outl[0]
        ci, co = c.inl[1], c.outl[1]
        for (a, b, reg) in ((hi, ho, hot), (co, ci, cold)):
            ctx.assume(a.h.val_SI > b.h.val_SI + 1)
            for x in (a, b):
                l, g = _sat(x)
                ctx.assume(l + 10 < g)
            l, g = _sat(b)
            if reg == 'gas':
                ctx.assume(b.h.val_SI > g + 1)
            elif reg == 'liquid':
                ctx.assume(a.h.val_SI < l - 1)
            elif reg == 'condensing':
                ctx.assume(a.h.val_SI > g + 1)
                ctx.assume(b.h.val_SI < l - 1)
                lo, go = _sat(a)
                ctx.assume(a.h.val_SI > go + 1)
    return f


def cases(tier):
    out = []
    for n in K.PURE:
        k = K.n_in(n)
        for s in K.specs(n):
            if n.startswith('Moving') and s.param in ('UA', 'td_pinch'):
                combos = [('gas', 'liquid')]
                if s.param == 'td_pinch' or tier == 'thorough':
                    combos += [('gas', 'condensing'), ('condensing', 'liquid')]
                for h, c in combos:
                    nm = f'{s.name} hot side {h}, cold side {c}'
                    out.append(Case(nm, lambda s=s, k=k, nm=nm, h=h, c=c: jac_case(
                        nm, comp_net(s.make, [K.WATER] * k), assume=_order(h, c), cross=1,
                        max_paths=4000, budget=1500 if tier == 'thorough' else 100), limit=2400 if tier == 'thorough' else 300))
                continue
            out.append(Case(s.name, lambda s=s, k=k: jac_case(
                s.name, comp_net(s.make, [K.WATER] * k), cross=1, declared=s.var), limit=120))
    for name, mk, fl, kw, cols in K.plain():
        out.append(Case(name, lambda name=name, mk=mk, fl=fl, kw=kw, cols=cols: jac_case(
            name, comp_net(mk, fl, **kw), cross=1, cols=COLS.get(cols)), limit=120))
    return out


def _sep(row, var):
    return not var.startswith('x_') or 'fluid' in row or 'stoich' in row


COLS = {'sep': _sep, 'comb': _sep}

