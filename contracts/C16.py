from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.ncp.NCP_BCU.%s' % f for f in ('build_model', 'train', 'factors')]
HEAVY = True
ASSUMES = models.ASSUMES
AUDIT_REPS = 14


def obligations(tier):
    for order in (2, 3) if tier == 'quick' else (2, 3, 4):
        yield Ob('NCP_BCU.train', dict(order=order), ncp, kind='loop', limit=300)


def ncp(K):
    M = Model(K, 'NCP_BCU', K.ob.config['order'])
    g = models.BCUGhost(M)
    train(M, g, K.ob.shared)
    for n, f in enumerate(M.factors()):
        K.eq('factor %d after any number of steps' % n, f, g.s['A%d' % n])
    M.data_kept()


battery = models.rough(12)
