"""Factorization models: construction for a contract, and the specification automata of their training."""
from pv import alg, tv as T, symex as S, tfstub as F, npstub as N, loop as L
from pv.alg import VAR, ZERO, ONE, newvar
from pv.symex import ENG
from pv.sim import Sim, Ghost, Shared, eqv, length_of, astv, scalar as isscalar
from pv.tv import TV, Unsupported
from . import spec

WHERE = {
    'CP_ALS': ('cp', 'CP_Args'), 'NCP_BCU': ('ncp', 'NCP_Args'), 'HOSVD': ('tucker', 'HOSVD_Args'),
    'HOOI': ('tucker', 'HOOI_Args'), 'NTUCKER_BCU': ('ntucker', 'NTUCKER_Args'),
}
ITER = ('CP_ALS', 'NCP_BCU', 'HOOI', 'NTUCKER_BCU')
CORE = ('HOSVD', 'HOOI', 'NTUCKER_BCU')


ASSUMES = ['requested steps at least 1, validation_internal -1 or positive',
           'the data is not the zero tensor and no step divides by zero (column maxima, Lipschitz constants, norms)',
           'svd and pinv are functions of their matrix (uninterpreted)',
           'session values are stored and fetched exactly']


class Model(object):
    """a built model, its data and the sizes involved"""

    def __init__(self, K, cls, order, tag='', verbose='fork', tol=True, vi='fork'):
        self.K, self.cls, self.order = K, cls, order
        mod, an = WHERE[cls]
        M = K.mod('tensorD.factorization.' + mod)
        env = K.mod('tensorD.factorization.env')
        self.dims = K.dims(*['%sI%d' % (tag, i) for i in range(order)])
        self.X = K.tv(tag + 'X', self.dims)
        data = N.NDArray(self.X)
        X0 = self.X

        class Provider(object):
            def full_tensor(self):
                return data
        self.data = data
        self.env = env.Environment(Provider(), '/tmp/summary')
        C = getattr(M, cls)
        A = getattr(C, an)
        kw = {}
        if cls != 'HOSVD':
            kw['tol'] = S.realnum(tag + 'tol')
            kw['verbose'] = ENG.choose('verbose') if verbose == 'fork' else verbose
            if vi == 'fork':
                kw['validation_internal'] = -1 if kw['verbose'] is True or ENG.choose('no validation') else S.intnum(tag + 'vi', pos=True)
            elif vi is not None:
                kw['validation_internal'] = vi
            self.tol = S.topoly(kw['tol'])
        if cls in CORE:
            self.ranks = K.dims(*['%sR%d' % (tag, i) for i in range(order)])
            r = L.PList([K.intdim('%sR%d' % (tag, i)) for i in range(order)])
            self.facts()
            self.args = A(r, **kw)
        else:
            self.rank = K.dim(tag + 'R')
            self.args = A(K.intdim(tag + 'R'), **kw)
        self.m = C(self.env)
        self.m.build_model(self.args)

    def facts(self):
        """requested ranks a truncated decomposition can have"""
        if self.cls == 'NTUCKER_BCU':
            return
        for n in range(self.order):
            if self.order == 1:
                ENG.assume(S.eq(self.ranks[n] - 1))
            ENG.assume(S.gt(self.dims[n] - self.ranks[n] + 1))
            o = [m for m in range(self.order) if m != n]
            ENG.assume(S.gt(T.prod([self.dims[m] for m in o]) - self.ranks[n] + 1))
            if self.cls == 'HOOI':
                ENG.assume(S.gt(T.prod([self.ranks[m] for m in o]) - self.ranks[n] + 1))

    def data_kept(self):
        self.K.eq('data unmodified', self.data, self.X)

    # published results
    def factors(self, n=None):
        f = self.m.factors
        self.K.true('one factor per mode', isinstance(f, (list, tuple)) and len(f) == self.order, repr(type(f)))
        return [f[i] for i in range(self.order)]

    def reconstruction(self):
        """of the published factors with weights or core"""
        K = self.K
        U = [K.val(f) for f in self.factors()]
        for n, u in enumerate(U):
            K.true('factor %d is a matrix' % n, u.rank == 2)
            K.true('rows of factor %d' % n, u.size(0) == self.dims[n], u.size(0).key)
        if self.cls in CORE:
            return spec.tucker(K.val(self.m.core), U)
        lam = K.val(self.m.lambdas)
        R = U[0].size(1)
        K.true('one weight per component', lam.numel == R, '%s weights' % lam.numel.key)
        lam = lam.reshape([R])
        return spec.kruskal(lambda r: lam.at(r), U)


# ------------------------------------------------------------------ vocabulary of the specifications
def ew(f, *ts):
    return T.ew(f, *ts)


def norm(t):
    t = t.fresh()
    return alg.sqrt(spec.sum_(t.shape, lambda *i: t.at(*i) * t.at(*i)))


def sq(t):
    t = t.fresh()
    return spec.sum_(t.shape, lambda *i: t.at(*i) * t.at(*i))


def scal(t, p):
    return ew(lambda a: a * p, t)


def relu(t):
    return ew(alg.relu, t)


def sub(a, b):
    return ew(lambda x, y: x - y, a, b)


def add(a, b):
    return ew(lambda x, y: x + y, a, b)


def sigma_max(v):
    """largest singular value"""
    s, _, _ = F.svd_tv(v)
    if s.rank == 0 or not s.axes[0]:
        return s.at(ZERO)
    k = newvar(s.size(0))
    return alg.reduce_fn('rmax', s.at(VAR(k)), k, s.size(0))


def colmax(t):
    """largest entry of every column"""
    t = t.fresh()
    n = t.size(0)

    def fn(r):
        if spec.one(n):
            return t.at(ZERO, r)
        k = newvar(n)
        return alg.reduce_fn('rmax', t.at(VAR(k), r), k, n)
    return TV.build([t.size(1)], fn, t.dtype)


def pinv(v):
    return T.matrix_fn('pinv', v, [v.size(1), v.size(0)])


def left_singular(t, r):
    """the r leading left singular vectors"""
    _, u, _ = F.svd_tv(t)
    return spec.build([u.size(0), r], lambda i, j: u.at(i, j), t.dtype)


def gram(a):
    return spec.matmul(a, a, ta=True)


def others(n, order):
    return [m for m in range(order) if m != n]


def kr_skip(A, n):
    return spec.khatri([A[m] for m in reversed(others(n, len(A)))])


def modeprods(t, ms, skip=None, transpose=False):
    for n, m in enumerate(ms):
        if n != skip:
            t = spec.mode_product(t, m, n, transpose)
    return t


def metrics(X, full):
    """(loss, relative residual, objective) of a reconstruction"""
    d = sub(full, X)
    n2 = sq(d)
    cnt = spec.sum_(X.shape, lambda *i: alg.ne0(X.at(*i)))
    s = spec.sum_(X.shape, lambda *i: alg.ne0(X.at(*i)) * (full.at(*i) - X.at(*i)) * (full.at(*i) - X.at(*i)))
    loss = alg.sqrt(s * alg.inv(cnt))
    rel = alg.sqrt(n2) * alg.inv(norm(X))
    obj = n2.scale(alg.Fraction(1, 2))
    return [T.let(TV.scalar(p)).at() for p in (loss, rel, obj)]


# ------------------------------------------------------------------ automata
class Observed(Ghost):
    """stop rule and metrics, from the reconstruction each step obtains"""

    def __init__(self, M, rule=True, hist=True):
        Ghost.__init__(self, M.K)
        self.M = M
        self.rule = rule
        self.keep = hist

    def start(self, sim):
        if self.rule:
            self.s['obj0'] = S.mk(ZERO)
            self.s['nstall'] = 0
            self.stopped = False
        if self.keep:
            self.s['hist'] = L.PList()

    def observed(self, sim):
        sh = self.M.X.shape
        fs = [t for t in sim.fetched if t.rank == len(sh) and all(a == b for a, b in zip(t.shape, sh))]
        if not fs:
            raise Unsupported('the step\'s reconstruction is not observable')
        return fs[-1]

    def step(self, sim):
        loss, rel, obj = [sim.adopt(p) for p in metrics(self.M.X, self.observed(sim))]
        if self.keep:
            self.s['hist'].append(L.PList([S.mk(loss), S.mk(rel)]))
        if not self.rule:
            return
        obj0 = S.topoly(self.s['obj0'])
        if not sim.generic and sim.kk == ONE:
            obj0 = obj + 1
        change = S.mk(obj - obj0)
        crit = bool(abs(change) / S.mk(obj0 + 1) < S.mk(self.M.tol))
        self.s['nstall'] = (self.s['nstall'] + 1) if crit else 0
        self.stopped = bool(S.mk(rel) < S.mk(self.M.tol)) or bool(self.s['nstall'] >= 3)
        if self.M.cls in ('NCP_BCU', 'NTUCKER_BCU'):
            self.s['obj0'] = S.mk(obj if bool(S.mk(obj) < S.mk(obj0)) else obj0)
        else:
            self.s['obj0'] = S.mk(obj)


def initial(M, sim, shape):
    """the initial content of the model's variables of this shape"""
    r = []
    for s in getattr(F.STATE, 'all_sessions', []):
        for v in sorted(s.store, key=lambda v: v.name):
            t = s.store[v]
            if t.rank == len(shape) and all(a == b for a, b in zip(t.shape, shape)) and not t.body.is_const():
                r.append(t)
    if not r:
        raise Unsupported('no initial value of shape %s found' % [d.key for d in shape])
    return r[0]


class CPGhost(Ghost):
    """alternating least squares in mode order with the newest factors"""

    def __init__(self, M):
        Ghost.__init__(self, M.K)
        self.M = M

    def start(self, sim):
        for n in range(self.M.order):
            self.s['A%d' % n] = initial(self.M, sim, [self.M.dims[n], self.M.rank])
        self.s['lambda'] = TV.build([self.M.rank], lambda r: ONE)

    def step(self, sim):
        o = self.M.order
        A = [self.s['A%d' % n] for n in range(o)]
        for n in range(o):
            V = spec.hadamard([gram(A[m]) for m in others(n, o)])
            B = spec.matmul(spec.matmul(spec.unfold(self.M.X, n), kr_skip(A, n)), pinv(V))
            lam = colmax(B)
            A[n] = sim.adopt(T.let(TV.build(B.shape, lambda i, r: B.at(i, r) * alg.inv(lam.at(r)))))
        for n in range(o):
            self.s['A%d' % n] = A[n]
        self.s['lambda'] = lam


class BCUGhost(Ghost):
    """block-coordinate update with extrapolation; for the Tucker model the core is the first block"""

    def __init__(self, M):
        Ghost.__init__(self, M.K)
        self.M = M
        self.core = M.cls == 'NTUCKER_BCU'
        self.blocks = (['g'] if self.core else []) + ['A%d' % n for n in range(M.order)]

    def start(self, sim):
        M, s = self.M, self.s
        for b in self.blocks:
            if b == 'g':
                v = initial(M, sim, M.ranks)
            else:
                n = int(b[1:])
                v = initial(M, sim, [M.dims[n], M.ranks[n] if self.core else M.rank])
            s[b] = s[b + '_ext'] = s[b + '_prev'] = v
            s['L_' + b] = S.mk(ONE)
        s['t'] = S.mk(ONE)
        s['obj0'] = S.mk(ZERO)

    def step(self, sim):
        M, s, o = self.M, self.s, self.M.order
        A = [s['A%d' % n] for n in range(o)]
        L0, L1 = {}, {}

        def put(b, grad, lip):
            L0[b] = S.topoly(s['L_' + b])
            L1[b] = lip = sim.adopt(T.let(TV.scalar(lip))).at()
            return sim.adopt(T.let(relu(sub(s[b + '_ext'], scal(grad, alg.inv(lip))))))
        if self.core:
            AtA = [gram(a) for a in A]
            lip = ONE
            for g in AtA:
                lip = lip * sigma_max(g)
            grad = sub(modeprods(s['g_ext'], AtA), modeprods(M.X, A, transpose=True))
            core = put('g', grad, lip)
        for n in range(o):
            if self.core:
                B = spec.unfold(modeprods(core, A, skip=n), n)
                V = spec.matmul(B, B, tb=True)
                XB = spec.matmul(spec.unfold(M.X, n), B, tb=True)
            else:
                V = spec.hadamard([gram(A[m]) for m in others(n, o)])
                XB = spec.matmul(spec.unfold(M.X, n), kr_skip(A, n))
            b = 'A%d' % n
            A[n] = put(b, sub(spec.matmul(s[b + '_ext'], V), XB), sigma_max(V))
        new = {'A%d' % n: A[n] for n in range(o)}
        if self.core:
            new['g'] = core
            full = spec.tucker(core, A)
        else:
            full = spec.kruskal(None, A)
        obj = sim.adopt(metrics(M.X, full)[2])
        obj0 = S.topoly(s['obj0'])
        if not sim.generic and sim.kk == ONE:
            obj0 = obj + 1
        t0 = S.topoly(s['t'])
        if bool(S.mk(obj) < S.mk(obj0)):
            t1 = (alg.sqrt(t0 * t0 * 4 + 1) + 1).scale(alg.Fraction(1, 2))
            t1 = T.let(TV.scalar(t1)).at()
            w = (t0 - 1) * alg.inv(t1)
            for b in self.blocks:
                wb = T.let(TV.scalar(amin(w, alg.sqrt(L0[b] * alg.inv(L1[b]))))).at()
                s[b + '_ext'] = T.let(add(new[b], scal(sub(new[b], s[b + '_prev']), wb)))
                s[b + '_prev'] = new[b]
            s['t'] = S.mk(t1)
            obj0 = obj
        else:
            for b in self.blocks:
                s[b + '_ext'] = s[b + '_prev']
        for b in self.blocks:
            s[b] = new[b]
            s['L_' + b] = S.mk(L1[b])
        s['obj0'] = S.mk(obj0)


def amin(a, b):
    return alg.minp(a, b)


class HOOIGhost(Ghost):
    def __init__(self, M):
        Ghost.__init__(self, M.K)
        self.M = M

    def start(self, sim):
        M = self.M
        for n in range(M.order):
            self.s['A%d' % n] = T.let(left_singular(spec.unfold(M.X, n), M.ranks[n]))
        self.s['core'] = TV.build(M.ranks, lambda *i: ZERO)

    def step(self, sim):
        M, o = self.M, self.M.order
        A = [self.s['A%d' % n] for n in range(o)]
        for n in range(o):
            Y = modeprods(M.X, A, skip=n, transpose=True)
            A[n] = sim.adopt(T.let(left_singular(spec.unfold(Y, n), M.ranks[n])))
        for n in range(o):
            self.s['A%d' % n] = A[n]
        self.s['core'] = modeprods(M.X, A, transpose=True)


def train(M, ghost, shared):
    """the real train(steps) under the invariant; returns (history, sim)"""
    K = M.K
    steps = K.intdim('steps')
    sim = Sim(K, ghost, steps, shared)
    ENG.sim = sim
    try:
        h = M.m.train(steps)
    finally:
        ENG.sim = None
    if not sim.finished:
        if shared.mode != 'final' or shared.entered:
            raise S.PathEnd()
        raise Unsupported('no training loop over the requested steps was found')
    return h, sim


def eqcheck(K, label, got, want):
    from pv.contract import Failed
    K.checks += 1
    ok, why = eqv(got, want)
    if not ok:
        a, b = astv(got), astv(want)
        raise Failed(label, why)


def rough(n):
    """longer runs on noisy data, where the extrapolation of the non-negative models overshoots"""
    def battery(tier, seed):
        for i in range(n * (1 if tier == 'quick' else 6)):
            yield dict(func='train', config=dict(cls=('NCP_BCU', 'NTUCKER_BCU')[i % 5 == 4], order=2 + i % 2, kind='rough',
                                                 steps=40, tol=(3e-3, 0.0, 3e-3, 1e-2)[i % 4]), seed=seed * 1000 + 900 + i)
    return battery
