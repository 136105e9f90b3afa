import numpy as np
from . import training as R
from .lib import *


@R.skip_degenerate
def run(case):
    from tensorD.base import TensorErr
    g = case['config']
    cls = g.get('cls', 'CP_ALS')
    C = R.Case(case, cls)
    m, rng = C.m, C.rng
    key = [int(rng.randint(d)) for d in C.dims]
    raises('prediction before training', TensorErr, lambda: m.predict(*key))
    true('not finished before training', not m.train_finish)
    top = np.abs(C.X).max() * 2
    for again, steps in enumerate([C.steps, int(rng.randint(1, 6))]):
        if cls == 'HOSVD':
            rec = R.Recorder(m, cls)
            with rec.on():
                m.train()
            h = None
        else:
            h, rec = R.trained(m, cls, steps, C.c.seed)
        true('not finished during training', not any(rec.flags), 'run %d' % (again + 1))
        true('finished after training', m.train_finish is True or m.train_finish == True)
        st = R.State(m, cls)
        if not np.isfinite(st.full).all():
            return
        e = np.abs(st.full - st.rebuilt())
        true('the full tensor is the reconstruction of the published factors', st.full.shape == C.X.shape and e.max() <= 2e-3 * max(
            top, np.abs(st.full).max()), 'after %s steps: differs by %r' % (h and len(h), float(e.max())))
        if h is not None:
            rel = R.metrics(C.X, st.full)[1]
            true('the full tensor is that of the last executed step', abs(rel - float(h[-1][1])) <= 1e-3 * (1 + rel),
                 'its residual is %r, the last step reported %r' % (rel, float(h[-1][1])))
            if rec.states and cls != 'HOSVD':
                for s in rec.states:
                    if s.lam is None and cls == 'CP_ALS' or s.A is None:
                        continue
                    if cls == 'NCP_BCU':
                        s.lam = None
                    if not np.isfinite(s.full).all():
                        break
                    true('state published during training', np.abs(s.full - s.rebuilt()).max() <= 2e-3 * max(top, np.abs(s.full).max()))
        for _ in range(5):
            key = [int(rng.randint(d)) for d in C.dims]
            v = m.predict(*key)
            true('prediction at %s' % key, np.ndim(v) == 0 and float(v) == st.full[tuple(key)], repr(v))
    return dict(h=h and len(h), steps=steps)
