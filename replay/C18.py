from . import training as R
from .lib import *


@R.skip_degenerate
def run(case):
    C = R.Case(case, 'HOOI', tol=[0.0, 0.0, 0.0, 1e-4][case.get('seed', 0) % 4])
    h, st, rec = R.trajectory(C.m, C.cls, C.steps, C.c.seed)
    info = R.check_steps(C.cls, C.X, C.rl, st, rec)
    C.kept()
    return info
