from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.ntucker.NTUCKER_BCU.%s' % f for f in ('build_model', 'train', 'factors', 'core')]
HEAVY = True
ASSUMES = models.ASSUMES
AUDIT_REPS = 14


def obligations(tier):
    for order in (2, 3) if tier == 'quick' else (2, 3, 4):
        yield Ob('NTUCKER_BCU.train', dict(order=order), ntucker, kind='loop', limit=300)


def ntucker(K):
    M = Model(K, 'NTUCKER_BCU', K.ob.config['order'])
    g = models.BCUGhost(M)
    train(M, g, K.ob.shared)
    K.eq('core after any number of steps', M.m.core, g.s['g'])
    for n, f in enumerate(M.factors()):
        K.eq('factor %d after any number of steps' % n, f, g.s['A%d' % n])
    M.data_kept()
