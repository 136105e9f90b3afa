import numpy as np
from . import training as R
from .lib import *


def allowed(cls, hist, X, tol, steps):
    """numbers of steps training may take, given the residual of every step (comparisons too close to call fork)"""
    n2 = float((X.astype(float) ** 2).sum())
    obj = [0.5 * float(h[1]) ** 2 * n2 for h in hist]
    out = set()
    todo = [(0, 0, None)]
    seen = set()
    while todo:
        k, nstall, ref = todo.pop()
        if (k, nstall, ref) in seen:
            continue
        seen.add((k, nstall, ref))
        if k == len(hist):
            out.add(('more', k))
            continue
        o, rel = obj[k], float(hist[k][1])
        o0 = o + 1 if ref is None else obj[ref]
        change = abs(o - o0) / (o0 + 1)
        err = 4e-6 * (o + o0) / (o0 + 1) + 1e-6 * change
        for crit in ([True] if change + err < tol else [False] if change - err >= tol else [True, False]):
            ns = nstall + 1 if crit else 0
            for small in ([True] if rel * (1 + 1e-5) < tol else [False] if rel * (1 - 1e-5) >= tol else [True, False]):
                if ns >= 3 or small or k + 1 == steps:
                    out.add(('stop', k + 1))
                    continue
                if cls in R.NONNEG:
                    d = 4e-6 * (o + o0)
                    nxt = [k] if ref is None or o < o0 - d else [ref] if o >= o0 + d else [k, ref]
                else:
                    nxt = [k]
                todo += [(k + 1, ns, r) for r in nxt]
    return out


@R.skip_degenerate
def run(case):
    cls = case['config'].get('cls', 'CP_ALS')
    rng = Ctx(case).rng('stop')
    tol = case['config'].get('tol')
    if tol is None:
        tol = float([0.0, 1e-6, 1e-4, 1e-3, 1e-2, 0.05, 0.2, 0.5, 1.5][int(rng.randint(9))])
    steps = case['config'].get('steps') or int([1, 2, 3, 4, 5, 7, 12, 25][int(rng.randint(8))])
    C = R.Case(case, cls, tol=tol)
    R.reseed(C.c.seed)
    h, rec = R.trained(C.m, cls, steps, C.c.seed)
    true('the history is a list with an entry of two numbers per executed step',
         isinstance(h, list) and 1 <= len(h) <= steps and all(len(e) == 2 for e in h), 'length %s of %d steps' % (len(h), steps))
    if not np.isfinite(np.asarray(h, float)).all():
        return
    if len(rec.states) > 1 and len(rec.states) != len(h) and len({R_.full.tobytes() for R_ in rec.states}) == len(rec.states):
        if len(rec.states) > len(h):
            raise Violated('%d steps executed, history of %d entries' % (len(rec.states), len(h)))
    ok = allowed(cls, h, C.X, tol, steps)
    true('training stopped by its rule', ('stop', len(h)) in ok,
         'after %d of %d steps with tolerance %g; residuals %s; allowed %s' % (
             len(h), steps, tol, [float('%.4g' % e[1]) for e in h][-8:], sorted(ok)))
    return dict(steps=steps, len=len(h), tol=tol)
