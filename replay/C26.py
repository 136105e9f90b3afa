import importlib
import numpy as np
from .lib import *
from . import lib


def run(case):
    c, g = Ctx(case), case['config']
    b = g['backend']
    M = importlib.import_module('tensorD.base.pitf_ops' + ('' if b == 'tf' else '_numpy'))
    n = int(g['length']) if g['length'].isdigit() else c.dim('n', 1, 6)
    dt = 'float32' if b == 'tf' else 'float64'
    x = c.arr('x', (n,), dt)
    for s in (1.0, 0.01, 30.0):
        v = (x * s).astype(dt)
        nm = float(np.linalg.norm(v))
        for t in (2 * nm + 1, nm * 1.01 + 1e-3, 0.5 * nm, 0.0, -0.5 * nm, -0.99 * nm, -nm * 1.01 - 1e-3, -2 * nm - 1):
            p = (lib.tf.constant(v), lib.tf.constant(t, dtype=dt)) if b == 'tf' else (v.copy(), t)
            px, pt = M.cone_projection_operator(*p)
            if b == 'tf':
                px, pt = ev(px, pt)
            if nm <= t:
                wx, wt = v, t
            elif t <= -nm:
                wx, wt = np.zeros(n), 0.0
                if np.ndim(px) == 0:
                    px = np.full(n, px)
            else:
                a = (nm + t) / (2 * nm)
                wx, wt = a * v, a * nm
            close('vector for |x|=%g t=%g' % (nm, t), px, wx)
            close('height for |x|=%g t=%g' % (nm, t), np.squeeze(np.asarray(pt)), wt)
    if b == 'np' or True:
        z = np.zeros(n, dt)
        for t in (0.0, 1.0, -1.0):
            p = (lib.tf.constant(z), lib.tf.constant(t, dtype=dt)) if b == 'tf' else (z, t)
            px, pt = M.cone_projection_operator(*p)
            if b == 'tf':
                px, pt = ev(px, pt)
            close('height of the zero vector, t=%g' % t, np.squeeze(np.asarray(pt)), max(t, 0.0))
            close('zero vector, t=%g' % t, np.broadcast_to(px, (n,)), z)
