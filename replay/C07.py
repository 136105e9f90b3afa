import numpy as np
from .lib import *
from .C01 import tfc
from .C06 import kept


def o_khatri(ms):
    R = ms[0].shape[1]
    cols = []
    for r in range(R):
        v = np.ones(1)
        for m in ms:
            v = np.concatenate([a * m[:, r].astype(float) for a in v])
        cols.append(v)
    return np.stack(cols, 1)


def o_kron(ms):
    r = np.ones((1, 1))
    for m in ms:
        out = np.zeros((r.shape[0] * m.shape[0], r.shape[1] * m.shape[1]))
        for i in range(r.shape[0]):
            for j in range(r.shape[1]):
                out[i * m.shape[0]:(i + 1) * m.shape[0], j * m.shape[1]:(j + 1) * m.shape[1]] = r[i, j] * m
        r = out
    return r


def run(case):
    import tensorD.base.ops as ops
    c, g = Ctx(case), case['config']
    n = g['n']
    kh = case['func'] == 'ops.khatri'
    hi = 4 if n <= 4 else 3 if n <= 6 else 2
    if n > 9:
        for i in range(n):           # keep the product small
            c.dims['I%d' % i] = min(2, c.dim('I%d' % i)) if i % 3 == 0 else 1
            c.dims['J%d' % i] = min(2, c.dim('J%d' % i)) if i % 3 == 1 else 1
    ms = [c.arr('m%d' % i, [c.dim('I%d' % i, 1, hi), c.dim('R' if kh else 'J%d' % i, 1, hi)]) for i in range(n)]
    use = [ms[i] for i in kept(n, g['skip'])]
    if g['reverse']:
        use = use[::-1]
    want = (o_khatri if kh else o_kron)(use)
    fn = ops.khatri if kh else ops.kron
    ts = [tfc(m) for m in ms]
    arg = list(ts)
    sk = list(g['skip']) if isinstance(g['skip'], list) else g['skip']
    close('product', ev(fn(arg, sk, g['reverse'])), want)
    close('keywords', ev(fn(arg, reverse=g['reverse'], skip_matrices_index=sk)), want)
    if not g['reverse']:
        close('default order', ev(fn(arg, sk)), want)
    true('input list unmodified', len(arg) == len(ts) and all(a is b for a, b in zip(arg, ts)))
    same('skip unmodified', sk, g['skip'])
