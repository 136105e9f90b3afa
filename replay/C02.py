from .lib import *
from .C01 import shape_of, oracle_unfold, tfc


def run(case):
    import tensorD.base.ops as ops
    c = Ctx(case)
    order, n = case['config']['order'], case['config']['mode']
    x = c.arr('x', shape_of(c, order))
    shape = list(x.shape)
    exact('fold(unfold)', ev(ops.fold(ops.unfold(tfc(x), n), n, shape)), x)
    exact('fold of the layout', ev(ops.fold(tfc(oracle_unfold(x, n)), n, tuple(shape))), x)
    same('shape argument', shape, list(x.shape))
    M = c.arr('M', oracle_unfold(x, n).shape)
    exact('unfold(fold)', ev(ops.unfold(ops.fold(tfc(M), n, shape), n)), M)
