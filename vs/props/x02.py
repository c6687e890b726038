"""X02: saved results, read back, are the state that was saved."""
import contextlib
import os

import numpy as np
import pandas

from run import Case

from .. import net, pipe, table
from .. import sym as S
from . import d01, eqs, r02, t01, x01

META = {
    'bounds': 'networks of four kinds and one with a bus; any state of all variables (they need not satisfy the equations), all results calculated '
              'from it symbolic; saved in three unit systems and read as starting values and as design data in the others',
    'assumptions': ['csv and json files keep numbers without loss', 'characteristics are arbitrary functions'],
    'outside': 'formatting of csv files by pandas',
}
UNITS = {'SI': r02.DEFAULT, 'other': r02.OTHER, 'odd': r02.ODD}


class Frame(table.Table):
    def to_csv(self, path, sep=',', decimal='.', index=True, na_rep='', **k):
        assert index and decimal == '.'
        with open(path, 'w'):
            pass
        STORE[str(path)] = ({k: dict(v) for k, v in self.rows.items()}, list(self.columns), sep)

    def __getitem__(self, c):
        col = super().__getitem__(c)
        rows = self.rows
        col.to_dict = lambda: {k: v.get(c) for k, v in rows.items()}
        return col


STORE = {}


class PD(pipe._PD):
    @staticmethod
    def DataFrame(*a, **k):
        if not a and k.get('dtype') == 'float64' and 'columns' in k and 'index' not in k:
            return Frame(k['columns'])
        return pandas.DataFrame(*a, **k)

    @staticmethod
    def read_csv(path, *a, sep=None, delimiter=None, decimal='.', index_col=None, **k):
        rows, cols, s = STORE[str(path)]
        assert s == (sep or delimiter or ',') and index_col == 0
        num = lambda x: int(x) if x.isdigit() else x
        idx = [num(l) for l in rows]
        if not all(isinstance(i, int) for i in idx):
            idx = list(rows)
        return pandas.DataFrame([[r.get(c, float('nan')) for c in cols] for r in rows.values()], index=idx, columns=cols, dtype=object)


@contextlib.contextmanager
def files(env):
    import tespy.networks.network as N
    with x01.files() as d:
        STORE.clear()
        if not env.symbolic:
            yield d
            return
        old = N.pd
        N.pd = PD()
        try:
            yield d
        finally:
            N.pd = old
            STORE.clear()


def build(bld, units):
    t = net.new_network
    net.new_network = lambda **kw: t(**{f'{k}_unit': u for k, u in units.items()}, **kw)
    try:
        return t01.World(bld)
    finally:
        net.new_network = t


def in_units(w, spec, units):
    out = {}
    for lb, kw in spec.items():
        if lb in ('busses', 'ude'):
            out[lb] = kw
            continue
        d = out[lb] = {}
        for k, v in kw.items():
            if hasattr(w.o[lb], 'property_data') and k in r02.SI and not isinstance(v, (tuple, dict)):
                v = r02.user(k, v, units.get(k, 'K'))
            elif isinstance(v, tuple):
                v = (v[0], v[1], r02.user('Td_bp' if k == 'T' else k, v[2], units.get(k, 'K')))
            d[k] = v
    return out


def mixture(c, env, tag):
    """Results at a connection with a mixture: any values."""
    for p in ('T', 'v', 's'):
        c.get_attr(p).val_SI = env.var(f'result {tag}{c.label}.{p}', *d01.RANGE[p])
    c.vol.val_SI = c.v.val_SI / c.m.val_SI
    for p in r02.SI:
        d = c.get_attr(p)
        if p in ('x', 'Td_bp'):
            d.val = d.val_SI = np.nan
        else:
            d.val = r02.user(p, d.val_SI, d.unit)
    for p in 'mph':
        c.get_attr(p).val0 = c.get_attr(p).val


def results(w, env, tag=''):
    """Results of components: any values; phase: not the subject."""
    from tespy.tools.data_containers import ComponentProperties as dc_cp
    for c in w.nw.conns['object']:
        c.calc_phase = lambda: 'l'
        if len(c.fluid.val) != 1 or c.label in w.mixtures:
            c.calc_results = lambda c=c: mixture(c, env, tag)
    for cp in w.o.values():
        if hasattr(cp, 'property_data'):
            continue

        def calc(cp=cp):
            for k, d in cp.parameters.items():
                if isinstance(d, dc_cp) and not d.is_set and not d.is_var:
                    d.val = env.var(f'result {tag}{cp.label}.{k}', *net.PARAM_RANGE.get(k, (0.1, 10.0)))
        cp.calc_parameters = calc
        cp.check_parameter_bounds = lambda: True


def solve(w, env, tag=''):
    w.nw.check_network()
    net.char_stubs(w.nw)
    pipe.solve(w.nw, env, equations=False, tag=tag)


def state(w):
    """Everything the files describe, SI."""
    out = {}
    for c in w.nw.conns['object']:
        for p in r02.SI:
            if p != 'vol':
                out[c.label, p] = c.get_attr(p).val_SI
        for f, x in c.fluid.val.items():
            out[c.label, 'fluid ' + f] = x
    return out


def scenario(bld, spec, a, b, mode):
    """Saved in units a, read in units b."""
    def run(_, env):
        si = t01.symbolic(spec, env)
        out = []
        with files(env) as d:
            w = build(bld, UNITS[a])
            w.mixtures = [] if bld in (t01.line, t01.cycle) else list(w.o)
            w.become(in_units(w, si, UNITS[a]))
            results(w, env)
            solve(w, env)
            saved = state(w)
            w.nw.save(d)
            for r, di, fs in os.walk(d):
                for f in fs:
                    out.append(eqs.Holds(f'file {f} is where it belongs', f in ('connections.csv', 'busses.json') and r == d
                                         or r == os.path.join(d, 'components') and f.endswith('.csv')))
            f = build(bld, UNITS[b])
            f.become(in_units(f, si, UNITS[b]))
            if mode == 'init':
                start(w, f, saved, d, env, out)
            elif mode == 'init, same network':
                results(w, env, 'again ')
                solve(w, env, 'again ')
                w.nw.set_attr(**{f'{k}_unit': u for k, u in UNITS[b].items()})
                w.become(in_units(w, si, UNITS[b]))
                start(w, w, saved, d, env, out)
            else:
                design(w, f, saved, d, env, out)
        return out

    def design(w, f, saved, d, env, out):
        net.initialise(f.nw, 'offdesign', allow_count=False, design_path=d)
        for c in f.nw.conns['object']:
            for p in r02.SI:
                if p == 'vol':
                    m = saved[c.label, 'm']
                    out.append(eqs.Eq(f'design value vol of {c.label}', c.vol.design, saved[c.label, 'v'] / m, near=None))
                elif x01.nothing(saved[c.label, p]):
                    out.append(eqs.Holds(f'no design value {p} of {c.label}', x01.nothing(c.get_attr(p).design)))
                else:
                    out.append(eqs.Eq(f'design value {p} of {c.label}', c.get_attr(p).design, saved[c.label, p], near=d01.scale(p)))
            for fl in c.fluid.val:
                out.append(eqs.Eq(f'design fraction {fl} of {c.label}', c.fluid.design[fl], saved[c.label, 'fluid ' + fl]))
        from tespy.tools.data_containers import ComponentProperties as dc_cp
        for cp in f.nw.comps['object']:
            o = w.o[cp.label]
            for k, x in cp.parameters.items():
                if isinstance(x, dc_cp) and (o.get_attr(k).is_set or o.get_attr(k).is_result):
                    out.append(eqs.Eq(f'design value {k} of {cp.label}', x.design, o.get_attr(k).val))
        for b, bus in f.bus.items():
            for cp in bus.comps.index:
                out.append(eqs.Eq(f'design value of {cp.label} on {b}', bus.comps.loc[cp, 'P_ref'], w.bus[b].comps.loc[w.o[cp.label], 'P_ref']))

    def start(w, f, saved, d, env, out):
        ref = build(bld, UNITS[b])
        ref.become(in_units(ref, t01.symbolic(spec, env), UNITS[b]))
        net.initialise(ref.nw, allow_count=False)
        net.initialise(f.nw, allow_count=False, init_path=d)
        vs = f.nw.variables_dict.values()
        n = 0
        for v in vs:
            if v['variable'] in ('m', 'p', 'h'):
                c = v['obj']
                if v['variable'] == 'h' and (c.Td_bp.is_set or c.state.is_set):
                    continue
                out.append(eqs.Eq(f"starting value {v['variable']} of {c.label}", c.get_attr(v['variable']).val_SI,
                                  saved[c.label, v['variable']], near=d01.scale(v['variable'])))
                n += 1
            elif v['variable'] == 'fluid':
                c = v['obj']
                out.append(eqs.Eq(f"starting fraction {v['fluid']} of {c.label}", c.fluid.val[v['fluid']], saved[c.label, 'fluid ' + v['fluid']]))
        out.append(eqs.Holds('there are starting values', n > 0))
        # nothing but the starting values changes
        va, ra = d01.values(f, env)
        vb, rb = d01.values(ref, env)
        out.append(eqs.Holds('same variables', va == vb, f'{set(va) ^ set(vb)}'))
        t01.compare('equation', ra, rb, out)
        for c in f.nw.conns['object']:
            for p in r02.SI:
                if p in UNITS[b]:
                    out.append(eqs.Holds(f'unit of {p} at {c.label}', c.get_attr(p).unit == UNITS[b][p], c.get_attr(p).unit))
    return dict(run=run)


def C(nm, kw):
    return Case(nm, lambda: eqs.case(nm, max_paths=500, budget=200, vacuity=False, **kw), limit=400)


def specs():
    L, M, K, Y = t01.line_specs(), t01.mix_specs(), t01.comb_specs(), t01.cycle_specs()
    hx = {k: v for k, v in Y['base'].items()}
    dp = t01.upd(hx, ('hx', dict(pr1=None, pr2=None, dp1=0.3, dp2=0.2)))
    return {
        'line': (t01.line, L['base']),
        'line, superheated': (t01.line, L['superheated']),
        'line, volumetric flow': (t01.line, L['volumetric flow']),
        'mixing': (t01.mix, M['base']),
        'mixing, unknown composition': (t01.mix, M['composition of the outlet']),
        'combustion': (t01.comb, K['base']),
        'cycle': (t01.cycle, Y['base']),
        'cycle, pressure loss': (t01.cycle, dp),
        'cycle, heat transfer coefficient': (t01.cycle, Y['heat transfer coefficient']),
        'bus': (t01.line, L['bus']),
    }


def cases(tier):
    out = []
    for k, (b, s) in specs().items():
        for u, v in (('SI', 'other'), ('other', 'SI'), ('odd', 'other'), ('other', 'odd'), ('other', 'other')):
            if tier == 'quick' and (u, v) in (('odd', 'other'),):
                continue
            for m in ('init', 'init, same network', 'design'):
                out.append(C(f'{k}: saved in {u} units, read in {v} units, {m}', scenario(b, s, u, v, m)))
    return out
