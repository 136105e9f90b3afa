import numpy as np
from .lib import *
from .C01 import tfc


def dims(c, order, pre='I'):
    hi = 4 if order <= 4 else 3 if order <= 6 else 2
    if order > 9:
        for i in range(order):
            c.dims[pre + '%d' % i] = min(2, c.dim(pre + '%d' % i)) if i % 3 == 0 else 1
    return [c.dim(pre + '%d' % i, 1, hi) for i in range(order)]


def kruskal(lam, U):
    R = U[0].shape[1]
    t = np.zeros([u.shape[0] for u in U])
    for r in range(R):
        p = np.float64(lam[r])
        for u in U:
            p = np.multiply.outer(p, u[:, r].astype(float))
        t += p
    return t


def run(case):
    from tensorD.base.type import KTensor
    c, g = Ctx(case), case['config']
    R = c.dim('R')
    U = [c.arr('u%d' % i, (n, R), g['dtype']) for i, n in enumerate(dims(c, g['order']))]
    w = g['weights']
    other = 'float64' if g['dtype'] == 'float32' else 'float32'
    lam = None
    if w != 'none':
        lam = c.arr('lam', (R,) if '1' in w else (R, 1), other if w.endswith('x') else g['dtype'])
    want = kruskal(np.ones(R) if lam is None else lam.ravel(), U)
    F = [tfc(u) for u in U] if g['factors'] == 'tensor' else [u.copy() for u in U]
    arg = list(F)
    if lam is None:
        kt = KTensor(arg)
    else:
        kt = KTensor(arg, tfc(lam) if w.startswith('ten') else lam.copy())
    dt = g['dtype'] if g['factors'] == 'tensor' else None
    close('extract', ev(kt.extract()), want, dtype=dt)
    if dt == 'float64':
        close('extract (precision)', ev(kt.extract()), want, tol=1e-11)
    close('extract again', ev(kt.extract()), want)
    same('order', kt.order, g['order'])
    true('factor list unmodified', len(arg) == len(F) and all(a is b for a, b in zip(arg, F)))
    if g['factors'] == 'array':
        for a, b in zip(F, U):
            exact('factor unmodified', a, b)
