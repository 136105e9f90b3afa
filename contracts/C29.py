from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from . import spec, models
from .models import Model, train

FUNCS = ['tensorD.factorization.%s.%s.%s' % (f, c, m) for f, c in (
    ('cp', 'CP_ALS'), ('ncp', 'NCP_BCU'), ('tucker', 'HOSVD'), ('tucker', 'HOOI'), ('ntucker', 'NTUCKER_BCU'))
    for m in ('build_model', 'train')]
HEAVY = True
ASSUMES = models.ASSUMES + ['the other model is built (and, where stated, trained one step) before; its data is fed only to itself']
GHOST = {'CP_ALS': models.CPGhost, 'NCP_BCU': models.BCUGhost, 'HOOI': models.HOOIGhost, 'NTUCKER_BCU': models.BCUGhost}
AUDIT_REPS = 1


def obligations(tier):
    for second in ('NTUCKER_BCU', 'NCP_BCU', 'HOOI', 'CP_ALS', 'HOSVD'):
        for first in ('HOSVD',) + models.ITER:
            for trained in (False, True):
                if tier == 'quick' and trained and first != 'CP_ALS':
                    continue
                yield Ob(second + '.train', dict(first=first, second=second, trained=trained, order=2), alone,
                         kind='post' if second == 'HOSVD' else 'loop', limit=300)
    if tier != 'quick':
        for cls in models.ITER:
            yield Ob(cls + '.train', dict(first=cls, second=cls, trained=True, order=3), alone, kind='loop', limit=600)


def alone(K):
    g = K.ob.config
    o = g['order']
    P = Model(K, g['first'], o, tag='other.', verbose=False, vi=-1)
    if g['trained']:
        if g['first'] == 'HOSVD':
            P.m.train()
        else:
            P.m.train(1)
    M = Model(K, g['second'], o)
    if g['second'] == 'HOSVD':
        M.m.train()
        want = {'A%d' % n: models.left_singular(spec.unfold(M.X, n), M.ranks[n]) for n in range(o)}
        want['core'] = models.modeprods(M.X, [want['A%d' % n] for n in range(o)], transpose=True)
    else:
        gh = GHOST[g['second']](M)
        train(M, gh, K.ob.shared)
        want = gh.s
    for n, f in enumerate(M.factors()):
        K.eq('factor %d as when trained alone' % n, f, want['A%d' % n])
    if g['second'] == 'CP_ALS':
        K.eq('weights as when trained alone', M.m.lambdas, want['lambda'])
    if g['second'] in models.CORE:
        K.eq('core as when trained alone', M.m.core, want['g' if g['second'] == 'NTUCKER_BCU' else 'core'])
    M.data_kept()
    P.data_kept()
