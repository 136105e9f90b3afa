from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.tucker.HOSVD.%s' % f for f in ('build_model', 'train', 'factors', 'core', 'full')]
ASSUMES = models.ASSUMES + ['requested ranks are at most the sizes of the unfoldings']
AUDIT_REPS = 14


def obligations(tier):
    for order in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 6):
        yield Ob('HOSVD.train', dict(order=order), hosvd)


def hosvd(K):
    M = Model(K, 'HOSVD', K.ob.config['order'])
    M.m.train()
    U = [models.left_singular(spec.unfold(M.X, n), M.ranks[n]) for n in range(M.order)]
    for n, f in enumerate(M.factors()):
        K.eq('leading left singular vectors of mode %d' % n, f, U[n])
    g = models.modeprods(M.X, U, transpose=True)
    K.eq('core', M.m.core, g)
    K.eq('full', M.m.full, spec.tucker(g, U))
    M.data_kept()
