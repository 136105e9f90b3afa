import numpy as np
from . import training as R
from .lib import *


@R.skip_degenerate
def run(case):
    """several models in one graph: the one under test still follows its own specification, on its own data"""
    g = case['config']
    first, second = g.get('first', 'CP_ALS'), g.get('second', 'CP_ALS')
    rng = Ctx(case).rng('others')
    order = int(g.get('order', 3))
    C = R.Case(case, second, tol=0.0) if second != 'HOSVD' and g.get('late') else None
    dims = R.dims_for(rng, order)
    P = []
    same_size = rng.rand() < 0.5
    probe = R.dims_for(Ctx(case).rng('train'), order)
    for cls in [first] + ([R.ITER[int(rng.randint(4))]] if rng.rand() < .4 else []):
        d = probe if same_size else R.dims_for(rng, order)
        r = R.ranks_for(rng, cls, d)
        m = R.build(cls, R.data(rng, d, R.KINDS[int(rng.randint(len(R.KINDS)))]), r, env=None)
        P.append((cls, m))
    if g.get('trained'):
        for cls, m in P:
            try:
                m.train() if cls == 'HOSVD' else m.train(int(rng.randint(1, 4)))
            except tf_errors() as e:
                if not R.degenerate(e):
                    raise
    if C is None:
        C = R.Case(case, second, **({} if second == 'HOSVD' else dict(tol=0.0)))
    if second == 'HOSVD':
        C.m.train()
        try:
            R.hosvd(C.X.astype(float), R.State(C.m, second), C.ranks)
        except R.Off as e:
            raise Violated(str(e))
        return
    h, st, rec = R.trajectory(C.m, second, C.steps, C.c.seed)
    R.check_steps(second, C.X, C.rl, st, rec)
    for e, s in zip(h, st):
        if np.isfinite(s.full).all():
            loss, rel, obj = R.metrics(C.X, s.full)
            true('residual on its own data', abs(rel - float(e[1])) < 1e-3 * (1 + rel), '%r, expected %r' % (float(e[1]), rel))
    C.kept()


def tf_errors():
    from . import lib
    return lib.tf.errors.InvalidArgumentError
