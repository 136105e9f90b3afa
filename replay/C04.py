import numpy as np
from .lib import *
from .C01 import tfc


def run(case):
    import tensorD.base.ops as ops
    c, g = Ctx(case), case['config']
    da = [c.dim('I%d' % i) for i in range(g['p'])]
    db = [c.dim('J%d' % i) for i in range(g['q'])]
    for i, j in zip(g['a'], g['b']):
        db[j] = da[i]
    x, y = c.arr('x', da), c.arr('y', db)
    f = {'int': lambda v: v[0], 'list': list, 'tuple': tuple}[g['f']]
    a, b = f(g['a']), f(g['b'])
    got = ev(ops.mul(tfc(x), tfc(y), a, b))
    ra = [i for i in range(g['p']) if i not in g['a']]
    rb = [j for j in range(g['q']) if j not in g['b']]
    xt = np.transpose(x, ra + list(g['a'])).reshape([x.shape[i] for i in ra] + [-1])
    yt = np.transpose(y, rb + list(g['b'])).reshape([y.shape[j] for j in rb] + [-1])
    want = np.zeros([x.shape[i] for i in ra] + [y.shape[j] for j in rb])
    for i in np.ndindex(*xt.shape[:-1]):
        for j in np.ndindex(*yt.shape[:-1]):
            want[i + j] = float(np.dot(xt[i].astype(float), yt[j].astype(float)))
    close('mul', got, want)
    same('axes unmodified', (a, b), (f(g['a']), f(g['b'])))
