from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from pv.sim import Ghost, length_of
from . import spec, models
from .models import Model, train, eqcheck

FUNCS = ['tensorD.factorization.%s.%s.%s' % (f, c, m) for f, c in (
    ('cp', 'CP_ALS'), ('ncp', 'NCP_BCU'), ('tucker', 'HOSVD'), ('tucker', 'HOOI'), ('ntucker', 'NTUCKER_BCU'))
    for m in ('train', 'predict', 'full', 'factors', 'train_finish')]
HEAVY = True
ASSUMES = models.ASSUMES
AUDIT_REPS = 5


def obligations(tier):
    for cls in ('HOSVD',) + models.ITER:
        for order in (2, 3) if tier == 'quick' else (2, 3, 4):
            yield Ob(cls + '.train', dict(cls=cls, order=order), published,
                     kind='post' if cls == 'HOSVD' else 'loop', limit=300)


class Publishing(Ghost):
    """what is published at the end of every step"""

    def __init__(self, M):
        Ghost.__init__(self, M.K)
        self.M = M

    def start(self, sim):
        M, s = self.M, self.s
        self.K.true('not finished when training starts', M.m.train_finish is False)
        zero = lambda *ds: T.TV.build(list(ds), lambda *i: alg.ZERO)
        s['full'] = zero(*M.dims)
        for n in range(M.order):
            s['A%d' % n] = zero(M.dims[n], M.ranks[n] if M.cls in models.CORE else M.rank)
        if M.cls in models.CORE:
            s['core'] = zero(*M.ranks)
        elif M.cls == 'CP_ALS':
            s['lambda'] = zero(M.rank)

    def published(self):
        """the published state, by name"""
        M, K = self.M, self.K
        r = {'full': K.val(M.m.full)}
        for n, f in enumerate(M.factors()):
            r['A%d' % n] = K.val(f)
        if M.cls in models.CORE:
            r['core'] = K.val(M.m.core)
        elif M.cls == 'CP_ALS':
            r['lambda'] = K.val(M.m.lambdas)
        return r

    def step(self, sim):
        self.s.update(self.published())

    def check(self, sim):
        K, M = self.K, self.M
        K.true('not finished during training', M.m.train_finish is False)
        got = M.m.full
        sh = M.X.shape
        fs = [t for t in sim.fetched if t.rank == len(sh) and all(a == b for a, b in zip(t.shape, sh))]
        if not fs:
            raise T.Unsupported('the step\'s reconstruction is not observable')
        K.eq('full tensor of this step', got, fs[-1], dtype=False)
        K.eq('full tensor is the reconstruction of the published state', got, self.rebuilt(), dtype=False)

    def rebuilt(self):
        M = self.M
        if M.cls == 'NCP_BCU' and M.m.lambdas is None:
            return spec.kruskal(None, [self.K.val(f) for f in M.factors()])     # weights are published after the loop
        return M.reconstruction()


def tensor_err(K):
    return K.mod('tensorD.base').TensorErr


def key_of(M):
    k = []
    for n, d in enumerate(M.dims):
        i = S.intnum('key%d' % n, pos=True)
        ENG.assume(S.gt(d - S.topoly(i) + 1))
        k.append(i - 1)
    return k


def published(K):
    M = Model(K, K.ob.config['cls'], K.ob.config['order'])
    m = M.m
    key = key_of(M)
    K.raises('prediction before training', (tensor_err(K),), lambda: m.predict(*key))
    K.true('not finished before training', not m.train_finish)
    if M.cls == 'HOSVD':
        m.train()
        K.eq('full tensor is the reconstruction of the published state', m.full, M.reconstruction())
    else:
        g = Publishing(M)
        h, sim = train(M, g, K.ob.shared)
        lam = [m.lambdas] if M.cls == 'NCP_BCU' else []
        for k, v in g.published().items():
            K.eq('published %s is that of the last executed step' % k, v, g.s[k], dtype=False)
        for v in lam:
            K.eq('unit weights', v, T.TV.build(K.val(v).shape, lambda *i: alg.ONE), dtype=False)
    K.true('finished', m.train_finish is True)
    full = K.val(m.full)
    K.eq('prediction', m.predict(*key), T.TV.scalar(full.at(*[S.topoly(k) for k in key]), full.dtype), dtype=False)
