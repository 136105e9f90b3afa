import numpy as np
from .lib import *
from .C01 import shape_of, tfc


def form(v, f):
    return v[0] if f == 'int' else list(v) if f == 'list' else tuple(v)


def run(case):
    import tensorD.base.ops as ops
    c, g = Ctx(case), case['config']
    x = c.arr('x', shape_of(c, g['order']))
    if case['func'] == 'ops.vectorize':
        v = ops.vectorize(tfc(x))
        exact('vectorize', ev(v), x.ravel())
        exact('vec_to_tensor', ev(ops.vec_to_tensor(v, list(x.shape))), x)
        exact('vec_to_tensor', ev(ops.vec_to_tensor(tfc(x.ravel()), tuple(x.shape))), x)
        return
    rows = list(g['r'])
    r = form(rows, g['rf'])
    if g['cf'] == 'rest':
        cols, col = [a for a in range(x.ndim) if a not in rows], -1
    else:
        cols, col = list(g['c']), form(g['c'], g['cf'])
    want = np.zeros((int(np.prod([x.shape[a] for a in rows])), int(np.prod([x.shape[a] for a in cols]))), x.dtype)
    for ix in np.ndindex(*x.shape):
        i = j = 0
        for a in rows:
            i = i * x.shape[a] + ix[a]
        for a in cols:
            j = j * x.shape[a] + ix[a]
        want[i, j] = x[ix]
    exact('t2mat', ev(ops.t2mat(tfc(x), r, col)), want)
    same('r_axis unmodified', r, form(rows, g['rf']))
    same('c_axis unmodified', col, -1 if g['cf'] == 'rest' else form(g['c'], g['cf']))
