"""Writes DESIGN.md: design_head.md, one section per property, findings, planted bugs."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_table import NOT_APPLICABLE, PROPS

METHOD = {
 'J01': 'Every component of the catalogue (vs/catalog.py finds classes and parameters by introspection) is built between sources and sinks, initialised by the real code, its variables replaced by symbols; the real `solve` fills residual and Jacobian; oracle: the symbolic derivative of the residual (vs/sym.py differentiates the expression DAG). z3 decides entry == derivative for every path, including "entry missing".',
 'J02': 'As J01 for connection specifications, reference objects and fluid balances, including variables shared by several connections of a branch.',
 'J03': 'As J01 for bus equations; the characteristic is an uninterpreted function, the internal search for bus based efficiencies is replaced by a value that satisfies its equation.',
 'C01': 'All residuals of the real equations assumed zero, z3 decides that in- and outflow of every component and of whole networks are equal.',
 'C02': 'As C01 for every species of pass-through components and nodes; for reactors for C, H, O, N and inert species, element counts from an independent parser of the formula.',
 'C03': 'As C01 for energy including reaction heat; heat and power as reported by the real calc_parameters.',
 'C04': 'As C01 for pressure equality, equality of composition/temperature after splitters and separators, saturation of separators, condensers and desuperheaters.',
 'R01': 'Residuals assumed zero, the real result calculation runs symbolically, reported parameter must equal the specified symbol.',
 'R02': 'Whole Network.solve including unit conversion, presolver, initialisation and postprocessing runs on symbolic user values; only the Newton loop is replaced by "any state satisfying the equations".  Conversion factors are an independent table.',
 'R03': 'Residual of every characteristic/off-design/group specification compared with the documented model written independently, including friction factor regimes.',
 'R04': 'calc_parameters on an arbitrary state, each result compared with its definition; no exception on any path.',
 'N01': 'The real finite difference code runs on arbitrary quadratic polynomials, for which central differences are exact; state before and after compared symbol by symbol.',
 'N02': 'The real Newton search runs on uninterpreted functions with symbolic limits and tolerances; obligations: result in limits, every evaluation in limits, tolerance met unless the iteration limit was reached.',
 'M01': 'Mixing rules on uninterpreted species properties, oracle: mixing laws written independently (Dalton, entropy of mixing, condensation).',
 'H01': 'CharLine/CharMap with symbolic supporting points; oracle: piecewise linear/bilinear interpolation over the segment that z3 selects.',
 'V01': 'The real iteration (solve_loop, matrix inversion on symbols, update, convergence helpers) with symbolic residuals and derivatives: increments solve the linear system, values stay inside limits.',
 'V02': 'The real loop with symbolic residual histories: the reported verdict (converged, messages, results) must follow from the residuals.',
 'E01': 'Exergy of a stream against its definition.',
 'E02': 'Exergy balances of every component against the table of documented definitions in every temperature regime; second law closure with residuals assumed zero.',
 'A01': 'ExergyAnalysis.analyse on plants whose stream exergies are symbols in pandas object columns; totals, tables, groups, flow diagram and the ambient state handed to streams and components.',
 'T01': 'Two worlds: one with a symbolic choice of history, one new with the final specifications.  Variables, equations (residual expressions), Jacobian and specifications must be identical.',
 'D01': 'Real init_design/init_offdesign on design files whose entries are symbols (csv reader replaced by in-memory tables); imposed and released parameters and design values against the documentation.',
 'X01': 'Real export and load_network, json in memory with symbols as tokens; description of both networks, equations and later respecifications compared.',
 'X02': 'Real save and init_path/design_path with symbolic results; state read back compared with the saved one in SI.',
 'W01': 'The libraries (CoolProp AbstractState, iapws, pyromat) are replaced by stateful stand-ins answering with uninterpreted functions of the state they were last given; a symbolic choice of one earlier call.',
 'G01': 'Real add/del/check operations chosen by symbolic variables, compared with a small model (sets of objects); rearranged networks are compared with new ones by their residual expressions as in T01.',
 'B01': 'The real Network.solve up to the start of the Newton loop for a complete specification and for every single omission or addition (symbolic choice, symbolic values); oracle: degrees of freedom counted by hand from the documented equations of each component.',
 'O01': 'Real OptimizationProblem with a stand-in model whose parameters and objective are symbolic, evaluated twice at symbolic points; run with a stand-in algorithm whose populations are symbolic; oracle: the declaration itself.',
 'U01': 'Real set_attr/initialisation/preprocess/postprocessing on symbolic user values in every unit against an independent table of conversion factors.',
}
COST = json.load(open('cost.json')) if os.path.exists('cost.json') else {}


def wrap(t, w=79, ind=''):
    import textwrap
    return textwrap.fill(' '.join(t.split()), w, initial_indent=ind, subsequent_indent=ind if not ind.startswith('*') else '  ', break_long_words=False, break_on_hyphens=False)


def main():
    o = [open('design_head.md').read().rstrip(), '\n## Properties\n']
    for p in PROPS:
        m = importlib.import_module('vs.props.' + p['id'].lower()).META
        o += [f"### {p['id']} {p['title']}\n", wrap(METHOD[p['id']]), '', wrap('Bounds: ' + m['bounds'] + '.'),
              wrap('Assumptions: ' + '; '.join(m['assumptions']) + '.')]
        if m.get('outside'):
            o.append(wrap('Outside: ' + m['outside'] + '.'))
        if p['id'] in COST:
            o.append(COST[p['id']])
        o.append(wrap('Beyond the tests: ' + p['why'] + '.'))
        o.append('')
    o.append('## Not applicable\n')
    o += [wrap(f"* {x['id']}: {x['reason']}") for x in NOT_APPLICABLE] or ['None: every property is decided by the solver.']
    k = json.load(open('known_findings.json'))
    o.append('\n## Defects of tespy found by the checks\n\nRepaired (one "fix:" commit each in /repo):\n')
    for f in k['fixed']:
        _, pr, co, what = f.split(' ', 3)
        o.append(wrap(f"* {pr.split('=')[1]} {co}: {what}"))
    o.append('\nRecorded, not repaired (known_findings.json):\n')
    for f in k['known']:
        o.append(wrap(f"* {f['property']}, {f['case']}: {f['what']}"))
    o.append('\n' + open('design_tail.md').read().rstrip())
    o.append('\n## Planted bugs\n\nEach is in seeded/ with a demonstration; caught by the check of its property unless noted.\n')
    res = json.load(open('seed_results.json')) if os.path.exists('seed_results.json') else {}
    for s in sorted(os.listdir('seeded')):
        m = json.load(open(f'seeded/{s}/meta.json'))
        o.append(wrap(f"* {s} ({m['property']}): {m['what_it_breaks']} — {res.get(s, 'caught')}"))
    open('DESIGN.md', 'w').write('\n'.join(o) + '\n')


main()
