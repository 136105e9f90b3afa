import importlib
import numpy as np
from .lib import *
from . import lib
from . import pitf


def run(case):
    c, g = Ctx(case), case['config']
    b = g['backend']
    M = importlib.import_module('tensorD.base.pitf_ops' + ('' if b == 'tf' else '_numpy'))
    r = c.rng('sz')
    sizes = {'IJ': [tuple(int(x) for x in r.randint(2, 7, size=2))], '1J': [(1, 5)], 'I1': [(5, 1)], 'II': [(4, 4)]}.get(
        g['size']) or [(int(g['size'][0]), int(g['size'][1]))]
    if c.dims.get('I') and g['size'] == 'IJ':
        sizes.append((c.dim('I'), c.dim('J', 1, 5)))
    dt = 'float32' if b == 'tf' else 'float64'
    for s in sizes + [(3, 6), (6, 3), (8, 11), (10, 7)]:
        for t in ([0.0] if g['tao'] == 'zero' else [0.05, 0.7, 2.5, 100.0]):
            x = c.arr('x%d_%d' % s, s, dt) + np.asarray(c.rng('mean').randn(), dt) * 2
            x0 = x.copy()
            if b == 'tf':
                a, tt = lib.tf.constant(x), (t if g['tao'] == 'zero' else lib.tf.constant(t, dtype=dt))
            else:
                a, tt = x, t
            q = M.shrink(a, tt, g['mode']) if g['mode'] != 'normal' else M.shrink(a, tt)
            close('shrink %s tao=%s %s' % (s, t, g['mode']), ev(q) if b == 'tf' else q, pitf.shrink(x0, t, g['mode']), tol=3e-4)
            exact('argument', x, x0)
