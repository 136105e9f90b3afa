from pv.contract import Ob, Failed
from pv import alg, tv as T, symex as S, npstub as N, tfstub as F, loop as L
from pv.symex import ENG
from pv.sim import Sim, Ghost, length_of
from . import spec, models, pitf_spec as PS
from .models import eqcheck

FUNCS = ['tensorD.factorization.pitf.PITF.build_model', 'tensorD.factorization.pitf.PITF.train',
         'tensorD.factorization.pitf_numpy.PITF_np.exact_recovery']
HEAVY = True
REPS = 16
ASSUMES = ['requested steps at least 1, validation_internal -1 or positive',
           'the sampled entries of the data are not all zero',
           'svd is a function of its matrix (uninterpreted)', 'session values are stored and fetched exactly']


def obligations(tier):
    yield Ob('PITF.train', dict(backend='tf'), tf_recovery, kind='loop', limit=300)
    yield Ob('PITF_np.exact_recovery', dict(backend='np'), np_recovery, kind='loop', limit=300)


def step_spec(x, spl, y, D, n, delt, tao):
    """(X, Y, Z, e, loss, erate, y of the next step)"""
    mats = []
    for (p, q, o), mode in zip(PS.PAIRS, ('complicated', 'normal', 'normal')):
        ad = PS.place(y, spl[p], spl[q], D[p], D[q])
        m = PS.shrink(ad, tao, mode)
        mats.append(models.scal(m, alg.inv(alg.sqrt(D[o]))))
    e1 = PS.sample_tensor(x, spl)
    parts = [PS.sample_mat(m, spl[p], spl[q], D[o]) for m, (p, q, o) in zip(mats, PS.PAIRS)]
    e2 = models.add(models.add(parts[0], parts[1]), parts[2])
    e = models.sub(e1, e2)
    loss = alg.sqrt(models.sq(e) * alg.inv(n))
    erate = models.norm(e) * alg.inv(models.norm(e1))
    return mats, e2, e, loss, erate, models.add(y, models.scal(e, delt))


class Recovery(Ghost):
    def __init__(self, K, x, D, n, delt, tao):
        Ghost.__init__(self, K)
        self.x, self.D, self.n, self.delt, self.tao = x, D, n, delt, tao

    def start(self, sim):
        n = self.n
        self.s['y'] = T.TV.build([n], lambda k: alg.ZERO)
        self.spl = self.indices(sim)

    def step(self, sim):
        mats, e2, e, loss, erate, y = step_spec(self.x, self.spl, self.s['y'], self.D, self.n, self.delt, self.tao)
        self.e2, self.loss, self.erate = e2, loss, erate
        self.s['y'] = sim.adopt(y)
        self.done(sim, mats)

    def done(self, sim, mats):
        pass


def drawn(K, D, n):
    """the index set: one uniform draw of n indices per mode"""
    r = []
    for d in range(3):
        c = [t for t in K.draws() if t[0].rank == 1 and t[0].size(0) == n and t[2] is not None and t[2].is_const()
             and t[2].const == 0 and t[3] == D[d]]
        K.true('indices of mode %d drawn once' % d, len(c) == 1, '%d draws' % len(c))
        r.append(c[0][0])
    return r


class TFRecovery(Recovery):
    def indices(self, sim):
        r = []
        for d in range(3):
            c = []
            for s in getattr(F.STATE, 'all_sessions', []):
                for v in sorted(s.store, key=lambda v: v.name):
                    t = s.store[v]
                    if t.dtype.startswith('int') and t.rank == 1 and t.size(0) == self.n and self.below(t, self.D[d]):
                        c.append(t)
            if len(c) != 1:
                raise T.Unsupported('the sample indices are not held by a variable per mode')
            r.append(c[0])
        return r

    def below(self, t, d):
        k = alg.VAR(alg.newvar(self.n))
        return S.neg(S.gt(-t.at(k))) is True or ENG.valid(S.neg(S.gt(-t.at(k)))) and ENG.valid(S.gt(d - t.at(k)))

    def check(self, sim):
        K = self.K
        K.true('not finished during training', not self.m.train_finish())
        K.eq('sample vector published', self.m._sample_vector, self.s['y'], dtype=False)
        for vals, k in sim.summaries:
            K.true('summary of this step', S.eq(S.topoly(k) - sim.kk))
            K.true('two values', len(vals) == 2)
            K.eq('error rate', vals[0], T.TV.scalar(self.erate), dtype=False)
            K.eq('loss', vals[1], T.TV.scalar(self.loss), dtype=False)


def tf_recovery(K):
    P = K.mod('tensorD.factorization.pitf').PITF
    env = K.mod('tensorD.factorization.env')
    D = K.dims('I0', 'I1', 'I2')
    x0 = K.tv('x', D)
    x = K.tf.constant(N.NDArray(x0))
    n = K.intdim('n')

    class Provider(object):
        def full_tensor(self):
            return x
    m = P(env.Environment(Provider(), '/tmp/summary'))
    delt, tao = S.realnum('delt'), S.realnum('tao')
    vi = -1 if ENG.choose('no validation') else S.intnum('vi', pos=True)
    m.build_model(P.PITF_Args(K.intdim('R'), delt, tao, n, validation_internal=vi))
    root = alg.sqrt(D[0] * D[1] * D[2])
    g = TFRecovery(K, x0, D, K.dim('n'), S.topoly(delt) * K.dim('n') * alg.inv(root), S.topoly(tao) * root)
    g.m = m
    steps = K.intdim('steps')
    sim = Sim(K, g, steps, K.ob.shared)
    ENG.sim = sim
    try:
        m.train(steps)
    finally:
        ENG.sim = None
    if not sim.finished:
        if K.ob.shared.mode != 'final' or K.ob.shared.entered:
            raise S.PathEnd()
        raise T.Unsupported('no training loop over the requested steps was found')
    K.eq('sample vector after the last step', m._sample_vector, g.s['y'], dtype=False)
    K.true('finished', m.train_finish() is True)


class NPRecovery(Recovery):
    session = False

    def start(self, sim):
        Recovery.start(self, sim)
        for k in ('loss', 'erate', 'index'):
            self.s[k] = L.PList()
        for i, (p, q, o) in enumerate(PS.PAIRS):
            self.s['m%d' % i] = T.TV.build([self.D[p], self.D[q]], lambda *a: alg.ZERO)

    def indices(self, sim):
        return drawn(self.K, self.D, self.n)

    def done(self, sim, mats):
        self.s['loss'].append(S.mk(T.let(T.TV.scalar(self.loss)).at()))
        self.s['erate'].append(S.mk(T.let(T.TV.scalar(self.erate)).at()))
        self.s['index'].append(S.mk(sim.kk - 1, True))
        for i, m in enumerate(mats):
            self.s['m%d' % i] = sim.adopt(m)


def np_recovery(K):
    P = K.mod('tensorD.factorization.pitf_numpy').PITF_np
    env = K.mod('tensorD.factorization.env')
    D = K.dims('I0', 'I1', 'I2')
    x0 = K.tv('x', D, 'float64')
    n, steps = K.intdim('n'), K.intdim('steps')
    m = P(env.Environment(None, '/tmp/summary'))
    delt, tao = S.realnum('delt'), S.realnum('tao')
    root = alg.sqrt(D[0] * D[1] * D[2])
    g = NPRecovery(K, x0, D, K.dim('n'), S.topoly(delt) * K.dim('n') * alg.inv(root), S.topoly(tao) * root)
    a = P.PITF_np_Args(K.intdim('R'), delt, tao, n, steps=steps)
    x = N.NDArray(x0)
    sim = Sim(K, g, steps, K.ob.shared)
    ENG.sim = sim
    try:
        r = m.exact_recovery(a, x)
    finally:
        ENG.sim = None
    if not sim.finished:
        if K.ob.shared.mode != 'final' or K.ob.shared.entered:
            raise S.PathEnd()
        raise T.Unsupported('no training loop over the requested steps was found')
    K.true('seven results', len(r) == 7)
    K.eq('sample vector', r[0], g.s['y'], dtype=False)
    for i in range(3):
        K.eq('matrix ' + 'XYZ'[i], r[1 + i], g.s['m%d' % i], dtype=False)
    for i, k in ((4, 'index'), (5, 'erate'), (6, 'loss')):
        eqcheck(K, k + ' history', r[i], g.s[k])
    K.eq('data unmodified', x, x0)
