import itertools
import numpy as np
from .lib import *


def shape_of(c, order):
    hi = 4 if order <= 5 else 3 if order <= 7 else 2
    return [c.dim('I%d' % i, 1 if order > 8 else 1, hi) for i in range(order)]


def oracle_unfold(x, n):
    others = [m for m in range(x.ndim) if m != n]
    cols = int(np.prod([x.shape[m] for m in others])) if others else 1
    r = np.zeros((x.shape[n], cols), x.dtype)
    for ix in np.ndindex(*x.shape):
        j, f = 0, 1
        for m in others:            # lowest-numbered mode fastest
            j += ix[m] * f
            f *= x.shape[m]
        r[ix[n], j] = x[ix]
    return r


def run(case):
    import tensorD.base.ops as ops
    c = Ctx(case)
    order, mode = case['config']['order'], case['config']['mode']
    x = c.arr('x', shape_of(c, order))
    exact('unfold', ev(ops.unfold(tfc(x), mode)), oracle_unfold(x, mode))
    if mode == 0:
        exact('unfold default mode', ev(ops.unfold(tfc(x))), oracle_unfold(x, 0))


def tfc(x):
    from . import lib
    return lib.tf.constant(x)
