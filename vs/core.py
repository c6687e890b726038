"""Cases, obligations, replays and reporting."""
import json
import math
import os
import random
import sys
import time
import traceback

from . import explore as X
from . import shims
from . import solver as Z
from . import sym as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/tespy/'


class Outcome:
    """Result of one case."""

    def __init__(self, case):
        self.case = case
        self.proved = 0
        self.trivial = 0
        self.violations = []      # dicts
        self.inconclusive = []    # strings
        self.paths = 0
        self.functions = set()
        self.samples = []
        self.truncated = False
        self.vacuous = 0
        self.time = 0.0

    def as_dict(self):
        d = dict(self.__dict__)
        d['functions'] = sorted(self.functions)
        return d


class Tracer:
    """Names of the tespy functions executed while values are symbolic."""

    def __init__(self, out):
        self.out = out

    def __enter__(self):
        seen = {}

        def prof(frame, event, arg):
            if event == 'call':
                co = frame.f_code
                if shims._depth[0] and co not in seen:
                    seen[co] = True
                    fn = co.co_filename
                    if fn.startswith(SRC) and not co.co_name.startswith('<'):
                        self.out.add(fn[len(SRC):] + ':' + co.co_qualname)
        self.old = sys.getprofile()
        sys.setprofile(prof)

    def __exit__(self, *a):
        sys.setprofile(self.old)


class Ob:
    """Proof obligation: goal must follow from the path condition."""

    def __init__(self, name, goal, key=None):
        self.name = name
        self.goal = goal
        self.key = key            # what the replay needs to know


def random_env(ranges, rng, base=None, mix=0.5):
    env = {}
    for n, (lo, hi) in ranges.items():
        if base and n in base and rng.random() < mix:
            env[n] = base[n]
            continue
        if lo == -Z.INF:
            lo = -1e3 if hi == Z.INF else hi - 1e3
        if hi == Z.INF:
            hi = lo + 1e3
        if lo > 0 and hi / lo > 100:
            env[n] = math.exp(rng.uniform(S._orig_math['log'](lo), S._orig_math['log'](hi)))
        else:
            env[n] = rng.uniform(lo, hi)
    return env


def run_case(name, path_fn, replay_fn, max_paths=64, budget=150.0, timeout=15000,
             tries=40, exc_is_violation=True, cross=0, vacuity=False):
    """path_fn(ctx) -> list of Ob.   replay_fn(env, ob_key) -> (bool, str)
    or None when the point is not usable."""
    out = Outcome(name)
    t0 = time.time()
    with Tracer(out.functions):
        ex = X.explore(path_fn, max_paths=max_paths, budget=budget)
    out.paths = len(ex.paths)
    out.truncated = ex.truncated
    if ex.truncated:
        out.inconclusive.append(f'{name}: exploration truncated after {len(ex.paths)} paths')
    reported = set()
    ok_paths = 0
    for pr in ex.paths:
        if pr.exc is not None:
            if isinstance(pr.exc, (S.EncodingError,)):
                out.inconclusive.append(f'{name}: not encodable: {pr.exc} :: {_last(pr.tb)}')
                continue
            if not in_source(pr.exc):
                out.inconclusive.append(f'{name}: harness does not fit the code: {pr.exc!r} :: {_last(pr.tb)}')
                continue
            if not exc_is_violation:
                out.inconclusive.append(f'{name}: exception {pr.exc!r} :: {_last(pr.tb)}')
                continue
            key = ('exc', type(pr.exc).__name__, _last(pr.tb))
            if key in reported:
                continue
            reported.add(key)
            rep = _try_replay(replay_fn, pr, ('exception', pr.exc), None, tries)
            if rep:
                out.violations.append({'case': name, 'obligation': f'no exception (got {pr.exc!r})',
                                       'where': _last(pr.tb), 'env': rep[0], 'detail': rep[1]})
            else:
                out.inconclusive.append(f'{name}: exception on a symbolic path not reproduced: {pr.exc!r} :: {_last(pr.tb)}')
            continue
        if vacuity and Z.satisfiable(pr.pc, pr.ranges, timeout=8000) is None:
            out.vacuous += 1
            continue
        ok_paths += 1
        for ob in pr.value:
            if ob.name in reported:
                continue
            if time.time() - t0 > budget * 3:
                out.inconclusive.append(f'{name}: {ob.name}: time budget')
                break
            want = cross > 0 and out.proved < cross
            v = Z.prove(ob.goal, pr.pc, pr.ranges, timeout=timeout, want_cross=want)
            if v.status == 'proved':
                out.proved += 1
                if len(out.samples) < 3 and ob.goal.kind != 'k':
                    out.samples.append(f'{ob.name}: {repr(ob.goal)[:160]}')
                continue
            rep = _try_replay(replay_fn, pr, ob.key, v.env, tries)
            if rep:
                reported.add(ob.name)
                out.violations.append({'case': name, 'obligation': ob.name, 'env': rep[0],
                                       'detail': rep[1], 'solver': v.status})
            else:
                out.inconclusive.append(f'{name}: {ob.name}: {v.status}, no reproducing input found')
    if ok_paths == 0 and not out.violations:
        out.inconclusive.append(f'{name}: vacuous, no path completed')
    out.time = time.time() - t0
    return out


def _last(tb):
    if not tb:
        return ''
    lines = [l.strip() for l in tb.strip().splitlines() if l.strip().startswith('File "' + SRC)]
    return lines[-1].replace('File ', '') if lines else tb.strip().splitlines()[-1][:200]


def _try_replay(replay_fn, pr, key, env, tries):
    if replay_fn is None:
        return None
    rng = random.Random(7)
    cands = []
    if env is not None:
        cands.append(env)
    else:
        m = Z.satisfiable(pr.pc, pr.ranges)
        if isinstance(m, dict):
            env = m
            cands.append(m)
    t0 = time.time()
    n = 0
    while n < tries and time.time() - t0 < 60:
        if n < len(cands):
            e = cands[n]
        else:
            e = random_env(pr.ranges, rng, env, mix=0.6 if n % 2 else 0.0)
        n += 1
        try:
            r = replay_fn(dict(e), key)
        except Exception as exc:
            if os.environ.get('VS_DEBUG'):
                traceback.print_exc()
            if key is not None and key[0] == 'exception' and same_kind(exc, key[1]) and in_source(exc):
                return ({k: v for k, v in e.items() if not k.startswith('!')},
                        f'real code raises {exc!r} at {_last(traceback.format_exc())}')
            continue
        if r and r[0]:
            return {k: v for k, v in e.items() if not k.startswith('!')}, r[1]
    return None


STUB_NAMES = ('UFChar', 'StubFluid', 'Sym', 'SymBool', 'FloatShim', 'EncodingError')


def in_source(exc):
    """The exception was raised by a statement of tespy (not of the harness)
    and is not about one of the harness's stand-in objects."""
    if isinstance(exc, S.DomainError):
        return True
    tb = exc.__traceback__
    last = None
    while tb is not None:
        fr = tb.tb_frame.f_code.co_filename
        if fr.startswith(VERIF + '/vs'):
            last = 'harness'
        elif fr.startswith(SRC):
            last = 'source'
        tb = tb.tb_next
    if last != 'source':
        return False
    return not any(f"'{n}'" in str(exc) for n in STUB_NAMES)


def same_kind(a, b):
    k = [ValueError if isinstance(x, S.DomainError) else type(x) for x in (a, b)]
    return k[0] is k[1]


def replay_exception(key, fn):
    """Helper for replays of 'exception' obligations."""
    try:
        fn()
    except Exception as e:
        if same_kind(e, key[1]) and in_source(e):
            return True, f'real code raises {e!r}'
        return False, f'{e!r}'
    return False, 'no exception'
