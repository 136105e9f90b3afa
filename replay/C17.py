from . import training as R
from .lib import *


@R.skip_degenerate
def run(case):
    C = R.Case(case, 'HOSVD')
    C.m.train()
    for again in range(2):
        st = R.State(C.m, 'HOSVD')
        try:
            R.hosvd(C.X.astype(float), st, C.ranks)
        except R.Off as e:
            raise Violated(str(e))
        C.m.train()
    C.kept()
