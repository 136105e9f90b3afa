from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.tucker.HOOI.%s' % f for f in ('build_model', 'train', 'factors', 'core')]
HEAVY = True
ASSUMES = models.ASSUMES + ['requested ranks are at most the sizes of the unfoldings']
AUDIT_REPS = 12


def obligations(tier):
    for order in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        yield Ob('HOOI.train', dict(order=order), hooi, kind='loop', limit=300)


def hooi(K):
    M = Model(K, 'HOOI', K.ob.config['order'])
    g = models.HOOIGhost(M)
    train(M, g, K.ob.shared)
    A = [g.s['A%d' % n] for n in range(M.order)]
    for n, f in enumerate(M.factors()):
        K.eq('factor %d after any number of steps' % n, f, A[n])
    K.eq('core', M.m.core, g.s['core'])
    M.data_kept()
