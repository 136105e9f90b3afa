import numpy as np
from .lib import *
from .C01 import shape_of, tfc
from .C06 import kept


def run(case):
    import tensorD.base.ops as ops
    c, g = Ctx(case), case['config']
    f = case['func']
    if f == 'ops.inner':
        if g.get('case') == 'reject':
            for s, t in (((2, 3), (3, 2)), ((2, 3), (6,)), ((2, 3), (2, 3, 1)), ((1, 3), (2, 3)), ((4,), (1,)),
                         ((2, 2, 3), (2, 3, 2))):
                raises('inner of %s and %s' % (s, t), ValueError, lambda: ops.inner(tfc(c.arr('a', s)), tfc(c.arr('b', t))))
            return
        sh = shape_of(c, g['order'])
        a, b = c.arr('a', sh), c.arr('b', sh)
        close('inner', ev(ops.inner(tfc(a), tfc(b))), np.sum(a.astype(float) * b))
    elif f == 'ops.max_single_value_mul':
        ms = [c.arr('m%d' % i, [c.dim('I%d' % i), c.dim('J%d' % i)]) for i in range(g['n'])]
        want = 1.0
        for i in kept(g['n'], g['skip']):
            want *= np.sqrt(np.max(np.linalg.eigvalsh(ms[i].astype(float).T @ ms[i].astype(float))))
        sk = list(g['skip']) if isinstance(g['skip'], list) else g['skip']
        close('max_single_value_mul', ev(ops.max_single_value_mul([tfc(m) for m in ms], sk)), want, tol=1e-3)
    else:
        R = c.dim('R') if g['R'] == 'symbolic' else g['R']
        I, J, Kd = c.dim('I'), c.dim('J'), c.dim('K')
        X, C, B = c.arr('X', (I, J, Kd), kind='sparse'), c.arr('C', (Kd, R)), c.arr('B', (J, R))
        want = np.zeros((I, R))
        for i in range(I):
            for r in range(R):
                for j in range(J):
                    for k in range(Kd):
                        want[i, r] += float(X[i, j, k]) * B[j, r] * C[k, r]
        close('xcb', ev(ops.xcb(tfc(X), tfc(C), tfc(B))), want)
