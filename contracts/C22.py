from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.%s.%s.train' % f for f in (
    ('cp', 'CP_ALS'), ('ncp', 'NCP_BCU'), ('tucker', 'HOOI'), ('ntucker', 'NTUCKER_BCU'))]
HEAVY = True
ASSUMES = models.ASSUMES
AUDIT_REPS = 6


def obligations(tier):
    for cls in models.ITER:
        for order in (2, 3) if tier == 'quick' else (2, 3, 4):
            yield Ob(cls + '.train', dict(cls=cls, order=order), hist, kind='loop', limit=300)


def hist(K):
    M = Model(K, K.ob.config['cls'], K.ob.config['order'])
    g = models.Observed(M, rule=False)
    h, sim = train(M, g, K.ob.shared)
    K.true('a history list', isinstance(h, list))
    eqcheck(K, 'metrics of every step', h, g.s['hist'])


battery = models.rough(96)
