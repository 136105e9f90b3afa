from .lib import *
from .C01 import tfc
from .C05 import mode_product
from .C09 import dims


def run(case):
    from tensorD.base.type import TTensor
    c, g = Ctx(case), case['config']
    n = g['order']
    J, I = dims(c, n, 'J'), dims(c, n, 'I')
    if n > 9:
        I = [1 if i % 3 else I[i] for i in range(n)]
    core = c.arr('g', J, g['dtype'])
    U = [c.arr('u%d' % i, (I[i], J[i]), g['dtype']) for i in range(n)]
    want = core.astype(float)
    for i, u in enumerate(U):
        want = mode_product(want, u, i, False)
    F = [tfc(u) for u in U] if g['factors'] == 'tensor' else [u.copy() for u in U]
    arg = list(F)
    tt = TTensor(tfc(core) if g['core'] == 'tensor' else core.copy(), arg)
    close('extract', ev(tt.extract()), want, dtype=g['dtype'], tol=1e-4 if g['dtype'] == 'float32' else 1e-11)
    close('extract again', ev(tt.extract()), want)
    same('order', tt.order, n)
    true('factor list unmodified', len(arg) == len(F) and all(a is b for a, b in zip(arg, F)))
