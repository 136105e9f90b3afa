import contextlib
import numpy as np
from .lib import *
from . import lib
from . import pitf


@contextlib.contextmanager
def draws(backend):
    """the standard normal draws made meanwhile"""
    seen, undo = [], []

    def wrap(owner, name):
        f = getattr(owner, name, None)
        if f is None:
            return

        def g(*a, **k):
            r = f(*a, **k)
            seen.append(r)
            return r
        undo.append((owner, name, f))
        setattr(owner, name, g)
    if backend == 'np':
        for n in ('randn', 'normal', 'standard_normal'):
            wrap(np.random, n)
    else:
        wrap(lib.tf, 'random_normal')
        wrap(lib.tf.random, 'normal')
        wrap(lib.tf.random, 'stateless_normal')
    try:
        yield seen
    finally:
        for o, n, f in undo:
            setattr(o, n, f)


def check(label, got, u, v, which):
    close(label, got, pitf.project(u.astype(float) @ v.T.astype(float), which), tol=2e-4)


def structure(label, m, which, rank):
    m = m.astype(float)
    close(label + ' column means', m.mean(axis=0), np.full(m.shape[1], m.mean() if which == 'A' else 0.0), tol=1e-4)
    true(label + ' rank', np.linalg.matrix_rank(m, tol=1e-3) <= rank + (which == 'A'))
    if m.shape[0] > 1:
        true(label + ' is random', np.abs(m).max() > 1e-6)


def run(case):
    c, g = Ctx(case), case['config']
    b = g['backend']
    import importlib
    M = importlib.import_module('tensorD.base.pitf_ops' + ('' if b == 'tf' else '_numpy'))
    f = case['func']
    I, J, K = (int(x) for x in c.rng('sz').randint(1, 8, size=3))
    R = c.dim('R', 1, 4)
    if f == 'centralization':
        for s in ((I, J), (5, 3), (3, 5), (1, 4), (4, 1)):
            x = c.arr('x%d%d' % s, s, 'float32' if b == 'tf' else 'float64')
            x0 = x.copy()
            r = M.centralization(lib.tf.constant(x)) if b == 'tf' else M.centralization(x)
            close('centralization %s' % (s,), ev(r) if b == 'tf' else r, pitf.centre(x0.astype(float)))
            exact('argument', x, x0)
        return
    run_ = (lambda r, seen: ev(*(list(r) + list(seen)))) if b == 'tf' else (lambda r, seen: list(r) + list(seen))
    if f == 'subspace':
        with draws(b) as seen:
            r = M.subspace((I, J), R, g['mode'])
        o = run_([r], seen)
        same('shape', tuple(o[0].shape), (I, J))
        structure('subspace ' + g['mode'], o[0], g['mode'], R)
        if len(seen) == 2:
            check('subspace ' + g['mode'], o[0], o[1], o[2], g['mode'])
        return
    ranks = [int(x) for x in c.rng('rk').randint(1, 4, size=3)]
    sh = (I, J, K)
    with draws(b) as seen:
        r = M.sample_rule4mat(sh, *ranks) if b == 'tf' else M.sample_rule4mat(sh, *(ranks + [3]))
    o = run_(list(r), seen)
    for n, (p, q, _) in enumerate(pitf.PAIRS):
        same('shape', tuple(o[n].shape), (sh[p], sh[q]))
        structure('matrix %d' % n, o[n], 'ABC'[n], ranks[n])
        if len(seen) == 6:
            check('matrix %d' % n, o[n], o[3 + 2 * n], o[4 + 2 * n], 'ABC'[n])
