import glob
import numpy as np
from . import lib
from . import training as R
from .lib import *


def events(path):
    """scalar summaries: (tag, step) -> value"""
    r = {}
    for f in glob.glob(path + '/*tfevents*'):
        try:
            for e in lib.tf.train.summary_iterator(f):
                for v in e.summary.value:
                    if v.HasField('simple_value'):
                        r.setdefault((v.tag, e.step), []).append(v.simple_value)
        except lib.tf.errors.DataLossError:
            pass                     # not written out yet
    return r


@R.skip_degenerate
def run(case):
    cls = case['config'].get('cls', 'CP_ALS')
    C = R.Case(case, cls)
    h, st, rec = R.trajectory(C.m, cls, C.steps, C.c.seed)
    X = C.X
    for k, (e, s) in enumerate(zip(h, st)):
        loss, rel, obj = R.metrics(X, s.full)
        if not np.isfinite([loss, rel]).all():
            return
        near('RMSE of step %d' % (k + 1), e[0], loss, X)
        near('relative residual of step %d' % (k + 1), e[1], rel, X, True)
        loss, rel, obj = R.metrics(X, s.rebuilt())
        near('RMSE of step %d (published factors)' % (k + 1), e[0], loss, X, loose=True)
        near('relative residual of step %d (published factors)' % (k + 1), e[1], rel, X, True, loose=True)
    for (tag, step), vs in events(C.m._env.summary_path).items():
        if 1 <= step <= len(h):
            for v in vs:
                if 'relative_residual' in tag:
                    near('summary ' + tag, v, h[step - 1][1], X, True)
                elif 'loss' in tag:
                    near('summary ' + tag, v, h[step - 1][0], X)


def near(label, got, want, X, rel=False, loose=False):
    s = 1.0 if rel else float(np.abs(X).max())
    if abs(float(got) - want) > (2e-3 if loose else 1e-5) * s + (1e-4 if loose else 2e-5) * abs(want):
        raise Violated('%s is %r, expected %r' % (label, float(got), want))
