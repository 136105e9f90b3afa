from .lib import *
from .C01 import tfc


def kept(n, sk):
    if sk is None:
        return list(range(n))
    sk = [sk] if isinstance(sk, int) else sk
    return [i for i in range(n) if i not in sk]


def run(case):
    import tensorD.base.ops as ops
    c, g = Ctx(case), case['config']
    shape = [c.dim('I%d' % i) for i in range(g['rank'])]
    ms = [c.arr('m%d' % i, shape) for i in range(g['n'])]
    want = 1.0
    for i in kept(g['n'], g['skip']):
        want = want * ms[i].astype(float)
    ts = [tfc(m) for m in ms]
    arg = list(ts)
    sk = list(g['skip']) if isinstance(g['skip'], list) else g['skip']
    close('hadamard', ev(ops.hadamard(arg, sk)), want)
    close('hadamard keyword', ev(ops.hadamard(arg, skip_matrices_index=sk)), want)
    true('input list unmodified', len(arg) == len(ts) and all(a is b for a, b in zip(arg, ts)))
    same('skip unmodified', sk, g['skip'])
