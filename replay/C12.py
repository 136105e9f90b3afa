import numpy as np
from .lib import *
from .C01 import shape_of, tfc


def run(case):
    import tensorD.loss as loss
    from tensorD.base import TensorErr
    c, g = Ctx(case), case['config']
    if g.get('case') == 'reject':
        for s, t in (((2, 3), (3, 2)), ((2, 3), (6,)), ((2, 3), (2, 3, 1)), ((1, 3), (2, 3)), ((2, 3), (1, 3)),
                     ((2, 3), (3,)), ((2, 3), ()), ((4,), (1,)), ((2, 2, 3), (2, 3, 2))):
            a, b = tfc(c.arr('a', s)), tfc(c.arr('b', t))
            raises('rmse %s %s' % (s, t), TensorErr, lambda: loss.rmse(a, b))
            raises('rmse_ignore_zero %s %s' % (s, t), TensorErr, lambda: loss.rmse_ignore_zero(a, b))
        return
    sh = shape_of(c, g['order'])
    for kind in ('normal', 'sparse', 'int'):
        if kind == 'int':
            f = np.asarray(np.round(c.arr('f' + kind, sh) * 2), dtype=g['dtype'])
            h = np.asarray(np.round(c.arr('h' + kind, sh) * 2), dtype=g['dtype'])
        else:
            f, h = c.arr('f', sh, g['dtype'], kind), c.arr('h', sh, g['dtype'], 'sparse' if kind == 'sparse' else 'normal')
        if kind == 'sparse':
            f = f * (np.abs(f) > 0)
            m = c.rng('tiny').rand(*sh) < 0.3
            f = np.where(m & (f != 0), f * 1e-4, f).astype(g['dtype'])
        d2 = (f.astype(float) - h) ** 2
        close('l2', ev(loss.l2(tfc(f), tfc(h))), 0.5 * d2.sum(), dtype=g['dtype'])
        close('rmse', ev(loss.rmse(tfc(f), tfc(h))), np.sqrt(d2.mean()), dtype=g['dtype'])
        if (f != 0).any():
            close('rmse_ignore_zero', ev(loss.rmse_ignore_zero(tfc(f), tfc(h))), np.sqrt(d2[f != 0].mean()) if f.ndim else
                  np.sqrt(d2), dtype=g['dtype'])
