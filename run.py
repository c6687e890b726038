"""Run the check of one property.

    ./py run.py <PROPERTY> [--tier quick|thorough] [--case SUBSTRING] [-v]
    ./py run.py <PROPERTY> --replay FILE
"""
import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

import vs  # noqa: E402
from vs import shims  # noqa: E402


EXPL = ('bounded symbolic execution of the real tespy functions: each case is one harness whose '
        'inputs are symbolic reals; every feasible path is executed and each obligation is decided '
        'by z3 over all values in the stated ranges; counterexamples are replayed on the real code '
        'with floats before they are reported')


class Case:
    def __init__(self, name, fn, limit=150):
        self.name = name
        self.fn = fn
        self.limit = limit


def child(case, conn):
    from vs import solver as Z
    try:
        o = case.fn()
        d = o.as_dict()
    except Exception:
        d = {'case': case.name, 'proved': 0, 'violations': [], 'paths': 0,
             'inconclusive': [f'{case.name}: harness error: ' + traceback.format_exc()[-600:]],
             'functions': [], 'samples': [], 'time': 0.0, 'truncated': False}
    d['stats'] = Z.STATS.as_dict()
    conn.send_bytes(json.dumps(d, default=str).encode())
    conn.close()


def run_all(cases, jobs, deadline, verbose):
    ctx = mp.get_context('fork')
    todo = list(cases)
    running = []
    results = []
    while todo or running:
        while todo and len(running) < jobs and time.time() < deadline:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(c, b), daemon=True)
            p.start()
            b.close()
            running.append((p, a, c, time.time()))
        if todo and time.time() >= deadline:
            for c in todo:
                results.append(dead(c, 'not started: time limit of the run'))
            todo = []
        rest = []
        for p, a, c, t in running:
            if a.poll(0):
                try:
                    results.append(json.loads(a.recv_bytes()))
                except EOFError:
                    results.append(dead(c, 'worker ended without a result'))
                p.join()
                if verbose:
                    show(results[-1])
            elif time.time() - t > c.limit or time.time() > deadline + 30:
                p.kill()
                p.join()
                results.append(dead(c, 'time limit'))
                if verbose:
                    show(results[-1])
            else:
                rest.append((p, a, c, t))
        running = rest
        time.sleep(0.01)
    return results


def dead(c, why):
    return {'case': c.name, 'proved': 0, 'violations': [], 'inconclusive': [f'{c.name}: {why}'],
            'functions': [], 'samples': [], 'time': 0.0, 'paths': 0, 'stats': {}, 'truncated': True}


def show(r):
    print(f"  {r['case']}: proved {r['proved']} paths {r['paths']} {r['time']:.1f}s", flush=True)
    for v in r['violations']:
        print('     VIOL', v['obligation'], '|', v['detail'][:220], v.get('where', ''), flush=True)
    for v in r['inconclusive']:
        print('     INC', v[:320], flush=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args()
    t0 = time.time()
    shims.load_all()
    shims.silence()
    from vs import solver as Z
    mod = importlib.import_module('vs.props.' + a.property.lower())
    cases = mod.cases(a.tier)
    names = [c.name for c in cases]
    assert len(names) == len(set(names)), 'duplicate case names'
    if a.replay:
        rp = json.load(open(a.replay))
        a.case = '=' + rp['case']
        a.v = True
    if a.case:
        cases = [c for c in cases if (c.name == a.case[1:] if a.case[0] == '=' else a.case in c.name)]
    limit = 780 if a.tier == 'quick' else 6 * 3600
    res = run_all(cases, a.j, t0 + limit, a.v)
    stats = Z.Stats()
    funcs = set()
    for r in res:
        stats.merge(r.get('stats') or {})
        funcs |= set(r['functions'])
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['known']
             if k['property'] == a.property]
    viol, found = [], {}
    for r in res:
        for v in r['violations']:
            hit = None
            for i, k in enumerate(known):
                if fnmatch.fnmatchcase(v['case'], k['case']) and fnmatch.fnmatchcase(v['obligation'], k['obligation']):
                    hit = i
                    break
            if hit is None:
                viol.append(v)
            else:
                found.setdefault(hit, []).append(v)
    for i in found:
        print(f"KNOWN-FINDING: property={a.property} {known[i]['what']}")
    rdir = os.path.join(VERIF, 'replays')
    for n, v in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{a.property}_{n}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        if n < 20:
            print(f"VIOLATION property={a.property} replay={path}")
            print(f"  case {v['case']}: {v['obligation']}\n  {v['detail']}")
    inc = [i for r in res for i in r['inconclusive']]
    decided = [r for r in res if r['proved'] or r['violations']]
    wall = time.time() - t0
    for i in inc[:20]:
        print('INCONCLUSIVE', i[:400])
    print(f"{a.property} [{a.tier}] cases {len(res)} decided {len(decided)} obligations proved "
          f"{sum(r['proved'] for r in res)} violations {len(viol)} known {sum(map(len, found.values()))} "
          f"inconclusive {len(inc)} paths {stats.paths} solver queries {stats.queries} "
          f"({stats.time:.1f}s) wall {wall:.1f}s")
    if not a.case:
        meta = getattr(mod, 'META', {})
        ev = {
            'property': a.property, 'tier': a.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other',
            'wall_s': round(wall, 2),
            'coverage': {
                'explanation': EXPL,
                'cases': len(res),
                'cases_decided': len(decided),
                'obligations_proved': sum(r['proved'] for r in res),
                'paths': stats.paths,
                'solver': {'name': 'z3 ' + Z.z3.get_version_string(), 'queries': stats.queries,
                           'unsat': stats.unsat, 'sat': stats.sat, 'unknown': stats.unknown,
                           'branch_queries': stats.branch_queries,
                           'cross_checked_with_cvc5': stats.cross,
                           'time_s': round(stats.time, 2)},
                'functions_encoded': sorted(funcs),
                'bounds': meta.get('bounds', ''),
                'assumptions': meta.get('assumptions', []),
                'outside': meta.get('outside', ''),
                'samples': [s for r in res for s in r['samples'][:1]][:12],
                'inconclusive': inc[:60],
                'known_findings': [known[i]['what'] for i in found],
                'violations': [{k: v[k] for k in ('case', 'obligation', 'detail')} for v in viol][:40],
                'case_list': [f"{r['case']}: {r['proved']} proved, {r['paths']} paths" for r in res],
            },
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if viol:
        return 1
    if not decided:
        print('no case could be decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
