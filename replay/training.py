"""Training runs of the real models against numpy oracles, step by step."""
import contextlib
import importlib
import itertools
import os
import numpy as np
from . import lib
from .lib import Violated, true, same, close, exact, raises

WHERE = {
    'CP_ALS': ('cp', 'CP_Args'), 'NCP_BCU': ('ncp', 'NCP_Args'), 'HOSVD': ('tucker', 'HOSVD_Args'),
    'HOOI': ('tucker', 'HOOI_Args'), 'NTUCKER_BCU': ('ntucker', 'NTUCKER_Args'),
}
ITER = ('CP_ALS', 'NCP_BCU', 'HOOI', 'NTUCKER_BCU')
CORE = ('HOSVD', 'HOOI', 'NTUCKER_BCU')
NONNEG = ('NCP_BCU', 'NTUCKER_BCU')


class Provider(object):
    def __init__(self, x):
        self.x = x

    def full_tensor(self):
        return self.x


def environment(x, name='summary'):
    from tensorD.factorization.env import Environment
    return Environment(Provider(x), summary_path=os.path.join(os.getcwd(), name))


def build(cls, X, rank, env=None, **kw):
    M = importlib.import_module('tensorD.factorization.' + WHERE[cls][0])
    C = getattr(M, cls)
    m = C(env or environment(X))
    args = getattr(C, WHERE[cls][1])(rank, **kw)
    m.build_model(args)
    return m


# ------------------------------------------------------------------ tensors
def unfold(t, n):
    return np.moveaxis(t, n, 0).reshape(t.shape[n], -1)


def ttm(t, m, n):
    return np.moveaxis(np.tensordot(m, t, (1, n)), 0, n)


def ttms(t, ms, skip=None, tr=False):
    for n, m in enumerate(ms):
        if n != skip:
            t = ttm(t, m.T if tr else m, n)
    return t


def mttkrp(X, A, n):
    """unfolding times Khatri-Rao product of the other factors"""
    R = A[0].shape[1]
    r = np.zeros((X.shape[n], R))
    for k in range(R):
        t = X
        for m in range(len(A) - 1, -1, -1):
            if m != n:
                t = np.tensordot(t, A[m][:, k], (m, 0))
        r[:, k] = t
    return r


def had(A, n):
    v = np.ones((A[0].shape[1],) * 2)
    for m, a in enumerate(A):
        if m != n:
            v = v * (a.T @ a)
    return v


def kruskal(A, lam=None):
    R = A[0].shape[1]
    lam = np.ones(R) if lam is None else np.asarray(lam, float).reshape(-1)
    full = np.zeros([a.shape[0] for a in A])
    for k in range(R):
        t = np.asarray(lam[k])
        for a in A:
            t = np.multiply.outer(t, a[:, k])
        full = full + t
    return full


def metrics(X, full):
    X, full = X.astype(float), np.asarray(full, float)
    nz = X != 0
    d = full - X
    loss = np.sqrt((d[nz] ** 2).sum() / nz.sum())
    return loss, np.sqrt((d ** 2).sum()) / np.sqrt((X ** 2).sum()), 0.5 * (d ** 2).sum()


# ------------------------------------------------------------------ observation
class State(object):
    """what a model publishes"""

    def __init__(self, m, cls):
        self.cls = cls
        f = m.factors
        self.A = [np.array(a, float) for a in f] if f is not None else None
        g = getattr(m, 'core', None) if cls in CORE else None
        self.g = None if g is None else np.array(g, float)
        l = getattr(m, 'lambdas', None) if cls in ('CP_ALS', 'NCP_BCU') else None
        self.lam = None if l is None else np.array(l, float)
        fl = m.full
        self.full = None if fl is None or callable(fl) else np.array(fl, float)

    def rebuilt(self):
        if self.cls in CORE:
            return ttms(self.g, self.A)
        return kruskal(self.A, self.lam)


class Recorder(object):
    """states at the boundaries of the session runs of one train call, variable contents included"""

    def __init__(self, m, cls):
        self.m, self.cls = m, cls
        self.states = []
        self.vars = []
        self.flags = []
        self.last = None

    def look(self):
        f = self.m.full
        if f is None or callable(f):
            return
        f = np.array(f, float)
        if self.last is not None and f.shape == self.last.shape and np.array_equal(f, self.last, equal_nan=True):
            return
        self.last = f
        self.states.append(State(self.m, self.cls))

    @contextlib.contextmanager
    def on(self):
        tf = lib.tf
        S = tf.Session
        orig = S.run
        rec = self
        f0 = self.m.full
        self.last = None if f0 is None or callable(f0) else np.array(f0, float)

        def run(self, *a, **k):
            rec.look()
            rec.flags.append(bool(rec.m.train_finish() if callable(rec.m.train_finish) else rec.m.train_finish))
            r = orig(self, *a, **k)
            if not rec.states and len(rec.vars) < 6:
                snap = []
                for v in self.graph.get_collection('variables'):
                    try:
                        snap.append((v.name, np.array(orig(self, v))))
                    except Exception:
                        pass
                rec.vars.append(snap)
            return r
        own = 'run' in S.__dict__
        S.run = run
        try:
            yield self
        finally:
            if own:
                S.run = orig
            else:
                del S.run
        self.look()


class Degenerate(Exception):
    """the run divides by zero (outside the preconditions)"""


def degenerate(e):
    return 'did not converge' in str(e) or 'not invertible' in str(e)


def reseed(seed):
    np.random.seed(seed)


def trained(m, cls, steps, seed=0):
    """(history, states after every step, recorder) of one train call"""
    reseed(seed)
    rec = Recorder(m, cls)
    with rec.on():
        try:
            h = m.train(steps)
        except lib.tf.errors.InvalidArgumentError as e:
            if degenerate(e):
                raise Degenerate()
            raise
    return h, rec


def trajectory(m, cls, steps, seed=0):
    """(history, states after each step, variables before the first step)"""
    h, rec = trained(m, cls, steps, seed)
    K = len(h)
    st = rec.states
    if len(st) != K and K > 12:
        st = st[:1]
        K = len(st)
    if len(st) != K:
        st = []
        for k in range(1, K + 1):
            reseed(seed)
            hk = m.train(k)
            st.append(State(m, cls))
            if len(hk) != k:
                raise Violated('training for %d steps executed %d' % (k, len(hk)))
    for s, v in zip(st, range(K)):
        if cls == 'NCP_BCU':
            s.lam = None
        for a in s.A:
            true('a factor is a matrix', a.ndim == 2)
    return h, st, rec


# ------------------------------------------------------------------ single steps
class Off(Exception):
    pass


class Zero(Off):
    pass


def near(label, got, want, tol=2e-3, scale=None):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Off('%s: shape %s, expected %s' % (label, got.shape, want.shape))
    if not np.isfinite(want).all():
        return
    s = scale if scale is not None else max(np.abs(want).max(), 1e-6) if want.size else 1.0
    if not np.isfinite(got).all():
        raise Off('%s is not finite' % label)
    e = np.abs(got - want)
    if e.size and e.max() > tol * s:
        i = np.unravel_index(int(e.argmax()), e.shape) if e.ndim else ()
        raise Off('%s: entry %s is %r, expected %r' % (label, tuple(int(k) for k in i), float(got[i]), float(want[i])))


def cond(v):
    s = np.linalg.svd(v, compute_uv=False)
    return s[0] / max(s[-1], 1e-30)


def cp_step(X, A, new, lam):
    A = [np.array(a) for a in A]
    last = None
    for n in range(len(A)):
        V = had(A, n)
        c = cond(V)
        if c < 2e3:
            B = mttkrp(X, A, n) @ np.linalg.pinv(V)
            mx = B.max(axis=0)
            if np.all(np.abs(mx) > 1e-2 * np.abs(B).max()):
                near('factor %d' % n, new[n], B / mx, tol=2e-5 * c + 1e-3)
                last = (mx, c)
            else:
                last = None
        else:
            last = None
        A[n] = new[n]
    if last is not None and lam is not None:
        near('weights', np.asarray(lam).reshape(-1), last[0], tol=2e-5 * last[1] + 1e-3)


def svd_left(Y, r):
    u, s, _ = np.linalg.svd(Y, full_matrices=True)
    s = np.concatenate([s, np.zeros(max(0, r + 1 - len(s)))])
    return u[:, :r], s


def leading(label, U, Y, r):
    """U holds the r leading left singular vectors of Y (up to sign, and rotation where values coincide)"""
    if U.shape != (Y.shape[0], r):
        raise Off('%s: shape %s, expected %s' % (label, U.shape, (Y.shape[0], r)))
    near(label + ' orthonormal', U.T @ U, np.eye(r), scale=1.0)
    W, s = svd_left(Y, r)
    top = max(s[0], 1e-12)
    if r == Y.shape[0] or s[r - 1] - s[r] > 0.02 * top:
        near(label + ' spans the leading left singular space', U @ U.T, W @ W.T, scale=1.0, tol=5e-3)
    for k in range(r):
        gaps = [abs(s[k] - s[j]) for j in range(len(s)) if j != k and (j < Y.shape[0])]
        if gaps and min(gaps) < 0.02 * top:
            continue
        near(label + ' column %d' % k, abs(float(U[:, k] @ W[:, k])), 1.0, tol=5e-3)


def hooi_step(X, A, new, ranks, core):
    A = [np.array(a) for a in A]
    for n in range(len(A)):
        leading('factor %d' % n, new[n], unfold(ttms(X, A, n, True), n), ranks[n])
        A[n] = new[n]
    near('core', core, ttms(X, new, tr=True), scale=np.abs(X).max() * 3)


def hosvd(X, st, ranks):
    for n in range(X.ndim):
        leading('factor %d' % n, st.A[n], unfold(X, n), ranks[n])
    near('core', st.g, ttms(X, st.A, tr=True), scale=np.abs(X).max() * 3)
    near('full tensor', st.full, ttms(st.g, st.A), scale=np.abs(X).max() * 3)


class BCU(object):
    """extrapolation state of the block-coordinate models, replaced by published values where they are published"""

    def __init__(self, cls, X, blocks):
        self.cls, self.X = cls, X
        self.b = dict(blocks)
        self.ext = dict(blocks)
        self.prev = dict(blocks)
        self.L = {k: 1.0 for k in blocks}
        self.t = 1.0
        self.obj0 = None
        self.dec = True

    def copy(self):
        c = BCU(self.cls, self.X, self.b)
        c.dec = True
        c.ext, c.prev, c.L, c.t, c.obj0 = dict(self.ext), dict(self.prev), dict(self.L), self.t, self.obj0
        return c

    def step(self, st):
        """check the published state after one step; list of possible states afterwards"""
        X, N = self.X, self.X.ndim
        A = [self.b[n] for n in range(N)]
        L1 = {}

        def put(key, grad, lip, got, label):
            L1[key] = lip
            if not lip > 1e-6:
                raise Zero('division by zero')
            w = np.maximum(self.ext[key] - grad / max(lip, 1e-30), 0)
            near(label, got, w, scale=max(np.abs(w).max(), np.abs(self.ext[key]).max(), 1e-6))
        if self.cls == 'NTUCKER_BCU':
            G = [a.T @ a for a in A]
            lip = float(np.prod([np.linalg.svd(g, compute_uv=False)[0] for g in G]))
            put('g', ttms(self.ext['g'], G) - ttms(X, A, tr=True), lip, st.g, 'core')
        for n in range(N):
            if self.cls == 'NTUCKER_BCU':
                B = unfold(ttms(st.g, A, n), n)
                V, XB = B @ B.T, unfold(X, n) @ B.T
            else:
                V, XB = had(A, n), mttkrp(X, A, n)
            put(n, self.ext[n] @ V - XB, float(np.linalg.svd(V, compute_uv=False)[0]), st.A[n], 'factor %d' % n)
            A[n] = st.A[n]
        new = {n: A[n] for n in range(N)}
        if self.cls == 'NTUCKER_BCU':
            new['g'] = st.g
        if not all(np.isfinite(a).all() for a in A):
            return [self]
        obj = metrics(X, ttms(st.g, A) if self.cls == 'NTUCKER_BCU' else kruskal(A))[2]
        obj0 = obj + 1 if self.obj0 is None else self.obj0
        scale = 5e-6 * obj + 1e-6 * np.sqrt(2 * obj * (X ** 2).sum()) if self.obj0 is not None else 0
        out = []
        for dec in (True, False):
            if dec and obj < obj0 + scale or not dec and obj >= obj0 - scale:
                c = self.copy()
                if dec:
                    t1 = (1 + np.sqrt(1 + 4 * self.t ** 2)) / 2
                    w = (self.t - 1) / t1
                    for k in new:
                        wk = min(w, np.sqrt(self.L[k] / max(L1[k], 1e-30)))
                        c.ext[k] = new[k] + wk * (new[k] - self.prev[k])
                        c.prev[k] = new[k]
                    c.t = t1
                    c.obj0 = obj
                else:
                    for k in new:
                        c.ext[k] = self.prev[k]
                    c.obj0 = obj0
                c.dec = dec
                c.b, c.L = dict(new), dict(L1)
                out.append(c)
        return out


def starts(cls, rec, dims, ranks):
    """possible contents of the factors (and core) before the first step"""
    out, seen = [], set()
    for snap in rec.vars:
        by = {}
        for name, v in snap:
            by.setdefault(v.shape, []).append(v.astype(float))
        shapes = [(d, r) for d, r in zip(dims, ranks)]
        if cls == 'NTUCKER_BCU':
            shapes = [tuple(ranks)] + shapes
        if any(s not in by for s in shapes):
            continue
        dist = {}
        for q in set(shapes):
            u = {v.tobytes(): v for v in by[q] if np.isfinite(v).all()}
            dist[q] = list(u.values())
        combos = [{}]
        for q in sorted(set(shapes)):
            n = shapes.count(q)
            if len(dist[q]) ** n > 2000:
                return []
            ps = list(itertools.product(dist[q], repeat=n))   # two variables may hold equal values
            combos = [dict(c, **{str(q): p}) for c in combos for p in ps]
            if len(combos) > 2000:
                return []          # too many variables of these sizes to tell which is which
        for c in combos:
            vs = [c[str(q)][shapes[:i].count(q)] for i, q in enumerate(shapes)]
            k = b''.join(v.tobytes() for v in vs)
            if k in seen:
                continue
            seen.add(k)
            if cls == 'NTUCKER_BCU':
                b = {'g': vs[0]}
                vs = vs[1:]
            else:
                b = {}
            b.update({n: v for n, v in enumerate(vs)})
            out.append(b)
    return out


def check_steps(cls, X, ranks, st, rec):
    """every published state follows from the one before; returns statistics"""
    X = X.astype(float)
    for k, s in enumerate(st):
        if not all(np.isfinite(a).all() for a in s.A + [s.full] + ([] if s.g is None else [s.g])):
            st = st[:k + 1]          # nothing follows from a state that is not finite
            break
    info = dict(steps=len(st), restarts=0, first=False)
    if cls == 'HOOI':
        u = [svd_left(unfold(X, n), ranks[n])[0] for n in range(X.ndim)]
        ok = all(gap(unfold(X, n), ranks[n]) for n in range(X.ndim))
        for k, s in enumerate(st):
            if k or ok:
                try:
                    hooi_step(X, u, s.A, ranks, s.g)
                except Off as e:
                    raise Violated('step %d: %s' % (k + 1, e))
            u = s.A
        return info
    begin = starts(cls, rec, X.shape, ranks)
    if cls == 'CP_ALS':
        for k, s in enumerate(st):
            if k == 0 and not begin:
                continue
            try:
                if k:
                    cp_step(X, st[k - 1].A, s.A, s.lam)
                else:
                    some(begin, lambda b: cp_step(X, [b[n] for n in range(X.ndim)], s.A, s.lam))
                    info['first'] = True
            except Off as e:
                raise Violated('step %d: %s' % (k + 1, e))
        return info
    if not begin:
        return info
    cur = None
    info['first'] = True
    for k, s in enumerate(st):
        nxt, why, zero = [], None, False
        for c in ([BCU(cls, X, b) for b in begin] if k == 0 else cur):
            try:
                nxt += c.step(s)
            except Zero:
                zero = True          # what follows is undefined for this candidate
            except Off as e:
                why = why or e
        if not nxt and (why is None or zero):
            return info
        if not nxt:
            raise Violated('step %d: %s' % (k + 1, why))
        cur = nxt[:8]
        if not cur[0].dec:
            info['restarts'] += 1
    return info


def gap(Y, r):
    _, s = svd_left(Y, r)
    return r >= Y.shape[0] or s[r - 1] - s[r] > 0.05 * s[0]


def some(cands, f):
    why = None
    for c in cands:
        try:
            return f(c)
        except Off as e:
            why = why or e
    raise why


# ------------------------------------------------------------------ data
def data(rng, dims, kind, rank=2):
    if kind == 'positive':
        return (rng.rand(*dims) + 0.1).astype('float32')
    if kind == 'signed':
        return rng.randn(*dims).astype('float32')
    if kind == 'sparse':
        x = rng.randn(*dims) * (rng.rand(*dims) > 0.4)
        if not x.any():
            x.flat[0] = 1.5
        return x.astype('float32')
    if kind == 'scaled':
        return (rng.rand(*dims) * 40).astype('float32')
    A = [rng.rand(d, rank) + 0.05 for d in dims]
    x = kruskal(A)
    if kind == 'noisy':
        x = x + 0.02 * rng.rand(*dims)
    elif kind == 'rough':
        x = x + 0.6 * rng.rand(*dims)
    return x.astype('float32')        # 'low': exact low rank


KINDS = ('positive', 'signed', 'sparse', 'scaled', 'low', 'noisy')


def dims_for(rng, order, c=None):
    hi = {1: 8, 2: 7, 3: 6, 4: 4}.get(order, 3)
    d = [int(rng.randint(2, hi + 1)) for _ in range(order)]
    if rng.rand() < 0.5 and order <= hi - 1:
        d = [int(x) + 2 for x in rng.permutation(hi - 1)[:order]]
    return d


def ranks_for(rng, cls, dims):
    N = len(dims)
    if cls not in CORE:
        return int(rng.randint(1, 7 if cls == 'NCP_BCU' and rng.rand() < .5 else 4))
    if cls == 'NTUCKER_BCU':
        return [int(rng.randint(1, min(d, 3) + 1)) for d in dims]
    for _ in range(200):
        r = [int(rng.randint(1, min(d, 3) + 1)) for d in dims]
        if all(r[n] <= np.prod([r[m] for m in range(N) if m != n]) for n in range(N)):
            return r
    return [1] * N


def rlist(cls, ranks, dims):
    return list(ranks) if cls in CORE else [ranks] * len(dims)


def skip_degenerate(f):
    def g(*a):
        try:
            with np.errstate(all='ignore'):
                return f(*a)
        except Degenerate:
            return None
    return g


class Case(object):
    """a random model of the class under test"""

    def __init__(self, case, cls, **kw):
        g = case['config']
        self.c = lib.Ctx(case)
        self.g = g
        self.cls = cls
        rng = self.rng = self.c.rng('train')
        order = int(g.get('order', 3))
        self.kind = g.get('kind') or KINDS[int(rng.randint(len(KINDS)))]
        self.dims = dims_for(rng, order)
        self.ranks = ranks_for(rng, cls, self.dims)
        self.given(order)
        if self.kind == 'rough':
            self.X = data(rng, self.dims, 'rough', max(self.ranks) if cls in CORE else self.ranks)
        elif self.kind == 'low':
            self.X = data(rng, self.dims, 'low', 1 if cls in CORE else self.ranks)
        else:
            self.X = data(rng, self.dims, self.kind)
        self.X0 = self.X.copy()
        self.steps = int(g.get('steps') or getattr(self, 'fixed', 0) or rng.randint(1, 10))
        if cls in NONNEG and not g.get('steps') and not hasattr(self, 'fixed') and rng.rand() < 0.35:
            self.steps = int(rng.randint(25, 60))
        self.kw = {}
        if cls != 'HOSVD':
            self.kw = dict(tol=[0.0, 1e-4, 1e-2, 0.1, 0.4][int(rng.randint(5))], verbose=bool(rng.rand() < .25),
                           validation_internal=[-1, -1, 1, 2, 3, 5][int(rng.randint(6))])
            if g.get('tol') is not None:
                self.kw['tol'] = g['tol']
        self.kw.update(kw)
        self.m = build(cls, self.X, self.ranks, **self.kw)
        self.rl = rlist(cls, self.ranks, self.dims)

    def given(self, order):
        """sizes asked for by the case"""
        d = self.c.dims
        for n in range(order):
            self.dims[n] = min(int(d.get('I%d' % n, self.dims[n])), 80)
        if np.prod([float(q) for q in self.dims]) > 2e5:
            self.dims = [min(q, 12) for q in self.dims]
        if self.cls not in CORE:
            self.ranks = min(int(d.get('R', self.ranks)), 70)
        else:
            r = [int(d.get('R%d' % n, q)) for n, q in enumerate(self.ranks)]
            if all(q <= self.dims[n] and (self.cls == 'NTUCKER_BCU' or q <= np.prod([r[m] for m in range(order) if m != n]))
                   for n, q in enumerate(r)):
                self.ranks = r
            self.ranks = [min(q, s) for q, s in zip(self.ranks, self.dims)]
        if 'steps' in d:
            self.fixed = min(int(d['steps']), 70)

    def kept(self):
        exact('data unmodified', self.X, self.X0)
