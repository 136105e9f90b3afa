from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.ncp.NCP_BCU.%s' % f for f in ('build_model', 'train')] + \
        ['tensorD.factorization.ntucker.NTUCKER_BCU.%s' % f for f in ('build_model', 'train')]
HEAVY = True
ASSUMES = models.ASSUMES
AUDIT_REPS = 6


def obligations(tier):
    for cls in ('NCP_BCU', 'NTUCKER_BCU'):
        for order in (2, 3) if tier == 'quick' else (2, 3, 4):
            yield Ob(cls + '.train', dict(cls=cls, order=order), nonneg, kind='loop', limit=300)


def nonneg(K):
    M = Model(K, K.ob.config['cls'], K.ob.config['order'])
    g = Ghost(K)
    train(M, g, K.ob.shared)
    for n, f in enumerate(M.factors()):
        K.true('factor %d' % n, alg.is_nonneg(K.val(f).body), K.val(f).body.key[:300])
    if M.cls == 'NTUCKER_BCU':
        K.true('core', alg.is_nonneg(K.val(M.m.core).body), K.val(M.m.core).body.key[:300])
    K.true('reconstruction', alg.is_nonneg(K.val(M.m.full).body), K.val(M.m.full).body.key[:300])
