from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.cp.CP_ALS.%s' % f for f in ('build_model', 'train', 'factors', 'lambdas')]
HEAVY = True
ASSUMES = models.ASSUMES
AUDIT_REPS = 12


def obligations(tier):
    for order in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        yield Ob('CP_ALS.train', dict(order=order), cp, kind='loop', limit=300)


def cp(K):
    M = Model(K, 'CP_ALS', K.ob.config['order'])
    g = models.CPGhost(M)
    train(M, g, K.ob.shared)
    f = M.factors()
    for n in range(M.order):
        K.eq('factor %d after any number of steps' % n, f[n], g.s['A%d' % n])
    K.eq('weights', M.m.lambdas, g.s['lambda'])
    M.data_kept()
