import numpy as np
from . import training as R
from .lib import *


@R.skip_degenerate
def run(case):
    C = R.Case(case, case['config'].get('cls', 'NCP_BCU'))
    h, st, rec = R.trajectory(C.m, C.cls, C.steps, C.c.seed)
    for k, s in enumerate(st + [R.State(C.m, C.cls)]):
        at = ' after step %d' % (k + 1)
        for n, a in enumerate(s.A):
            true('factor %d is non-negative' % n + at, not (a < 0).any(), 'smallest entry %r' % a.min())
        if s.g is not None:
            true('core is non-negative' + at, not (s.g < 0).any(), 'smallest entry %r' % s.g.min())
        true('reconstruction is non-negative' + at, not (s.full < 0).any(), 'smallest entry %r' % s.full.min())
