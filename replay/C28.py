import importlib
import itertools
import numpy as np
from .lib import *


class Draws(object):
    """records what numpy's generator returns"""

    def __enter__(self):
        self.log, self.orig = [], {}
        for k in ('rand', 'randn'):
            self.orig[k] = getattr(np.random, k)
            setattr(np.random, k, self.wrap(k, self.orig[k]))
        return self

    def wrap(self, k, f):
        def g(*a):
            v = f(*a)
            self.log.append((k, np.array(v)))
            return v
        return g

    def __exit__(self, *a):
        for k, f in self.orig.items():
            setattr(np.random, k, f)


def run(case):
    c, g = Ctx(case), case['config']
    o = int(g['order'])
    M = importlib.import_module('tensorD.demo.DataGenerator')
    D = [c.dim('I%d' % i, 1, 5) for i in range(o)]
    r = c.rng('instance')
    cp = case['func'].endswith('cp')
    seq = list if g.get('kind', 'list') == 'list' else tuple
    R = c.dim('R', 1, 3) if cp else [c.dim('R%d' % i, 1, 3) for i in range(o)]
    rank = [R] * o if cp else R
    f = M.synthetic_data_cp if cp else M.synthetic_data_tucker
    default = g.get('noise', 'default') == 'default'
    scale = (0.1 if cp else 0.04) if default else float(r.choice([0.0, 0.05, 1.0, 3.0]))

    def go(noise):
        np.random.seed(c.seed)
        with Draws() as d:
            x = f(seq(D), R if cp else seq(R), *noise)
        return np.asarray(x, float), d.log
    clean, log0 = go([0.0])
    noisy, log1 = go([] if default else [scale])
    true('shape', clean.shape == tuple(D) and noisy.shape == tuple(D), '%s %s' % (clean.shape, noisy.shape))
    true('non-negative without noise', (clean >= 0).all())
    bound = float(R if cp else np.prod(R))
    true('products of uniform draws', (clean <= bound * (1 + 1e-6)).all(), 'largest entry %r' % float(clean.max()))
    for n in range(o):
        m = np.moveaxis(clean, n, 0).reshape(D[n], -1)
        true('rank of mode %d' % n, np.linalg.matrix_rank(m, tol=3e-6 * max(1.0, np.abs(m).max())) <= rank[n])
    true('noise is non-negative', (noisy - clean >= -1e-6).all())
    same_draws = len(log0) == len(log1) and all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(log0, log1))
    if not same_draws:
        return
    nz = [v for k, v in log1 if k == 'randn' and v.shape == tuple(D)]
    if len(nz) == 1:
        close('noise', noisy - clean, np.maximum(nz[0] * scale, 0), tol=1e-5)
    us = [v for k, v in log1 if k == 'rand']
    if len(us) == o + (0 if cp else 1):
        wants = []
        for p in itertools.permutations(range(len(us)), len(us)):
            a = [us[k] for k in p[:o]]
            if [u.shape for u in a] != [(D[i], rank[i]) for i in range(o)] or not cp and us[p[o]].shape != tuple(R):
                continue
            if cp:
                t = np.zeros(tuple(rank))
                for k in range(R):
                    t[(k,) * o] = 1
            else:
                t = us[p[o]]
            for i in range(o):
                t = np.moveaxis(np.tensordot(a[i], t, (1, i)), 0, i)
            wants.append(t)
        if wants and not any(np.allclose(t, clean, rtol=1e-7, atol=1e-5) for t in wants):
            close('extracted tensor', clean, wants[0], tol=1e-5)
