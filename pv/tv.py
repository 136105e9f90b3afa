"""Symbolic tensors: shape with symbolic sizes + an element expression.

axes : one *group* of atomic index variables per axis (row-major mixed radix;
       the empty group is an axis of size 1).  A reshape only regroups the atomic
       variables when sizes line up, otherwise it introduces div/mod indices.
body : P over the atomic variables.
"""
import time
from fractions import Fraction
from . import alg
from .alg import P, VAR, CONST, ZERO, ONE, newvar, VARDIM, lift_num


class ShapeError(Exception):
    pass


class Unsupported(BaseException):
    """construct outside the verifier's subset (undecided, never a verdict)"""


def prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


class TV(object):
    __slots__ = ('axes', 'body', 'dtype')

    def __init__(self, axes, body, dtype):
        self.axes = axes
        self.body = body
        self.dtype = dtype

    # ---- construction
    @staticmethod
    def build(shape, fn, dtype='float32'):
        axes, idx = [], []
        for d in shape:
            d = lift_num(d)
            if d.is_const() and d.const == 1:
                axes.append([])
                idx.append(ZERO)
            else:
                v = newvar(d)
                axes.append([v])
                idx.append(VAR(v))
        return TV(axes, lift_num(fn(*idx)), dtype)

    @staticmethod
    def input(base, shape, dtype='float32'):
        return TV.build(shape, lambda *i: alg.EL(base, i), dtype)

    @staticmethod
    def scalar(p, dtype='float32'):
        return TV([], lift_num(p), dtype)

    # ---- views
    @property
    def rank(self):
        return len(self.axes)

    def size(self, n):
        return prod([VARDIM[v] for v in self.axes[n]])

    @property
    def shape(self):
        return [self.size(n) for n in range(self.rank)]

    @property
    def numel(self):
        return prod(self.shape)

    def __repr__(self):
        return 'TV(%s:%s = %s)' % ('x'.join(s.key for s in self.shape), self.dtype, self.body.key[:300])

    def fresh(self):
        m, axes = {}, []
        for g in self.axes:
            ng = []
            for v in g:
                n = newvar(VARDIM[v])
                m[v] = VAR(n)
                ng.append(n)
            axes.append(ng)
        return TV(axes, self.body.subst(m), self.dtype)

    def subst(self, m):
        t = self.fresh()
        return TV(t.axes, t.body.subst(m), self.dtype)

    def astype(self, dtype):
        return TV(self.axes, self.body, dtype)

    def at(self, *idx):
        """element at index polynomials (one per axis)"""
        assert len(idx) == self.rank, (len(idx), self.rank)
        m = {}
        for g, ix in zip(self.axes, idx):
            ix = lift_num(ix)
            if not g:
                continue
            if len(g) == 1:
                m[g[0]] = ix
            else:
                rest = ix
                sizes = [VARDIM[v] for v in g]
                for n, v in enumerate(g):
                    tail = prod(sizes[n + 1:])
                    if n == len(g) - 1:
                        m[v] = rest
                    else:
                        m[v] = alg.idiv(rest, tail)
                        rest = alg.imod(rest, tail)
        return self.body.subst(m)

    # ---- shape manipulation
    def transpose(self, perm=None):
        if perm is None:
            perm = list(range(self.rank))[::-1]
        perm = list(perm)
        if sorted(perm) != list(range(self.rank)):
            raise ShapeError('bad permutation %r for rank %d' % (perm, self.rank))
        return TV([self.axes[p] for p in perm], self.body, self.dtype)

    def reshape(self, dims):
        dims = [lift_num(d) for d in dims]
        total = self.numel
        neg = [n for n, d in enumerate(dims) if d.is_const() and d.const == -1]
        if len(neg) > 1:
            raise ShapeError('more than one -1 in reshape')
        if neg:
            rest = prod([d for n, d in enumerate(dims) if n != neg[0]])
            q = alg.divide_mono(total, rest)
            if q is None:
                raise ShapeError('cannot reshape %s elements into %s' % (total, [d.key for d in dims]))
            dims[neg[0]] = q
        if prod(dims) != total:
            raise ShapeError('cannot reshape %s elements into %s' % (total.key, [d.key for d in dims]))
        flat = [v for g in self.axes for v in g]
        m = {}
        groups = []
        ok = True
        stack = list(flat)
        for d in dims:
            g, need = [], d
            while not (need.is_const() and need.const == 1):
                if not stack:
                    ok = False
                    break
                v = stack.pop(0)
                dv = VARDIM[v]
                q = alg.divide_mono(need, dv)
                if q is not None:
                    g.append(v)
                    need = q
                    continue
                q = alg.divide_mono(dv, need)
                if q is None:
                    ok = False
                    break
                hi, lo = newvar(need), newvar(q)
                m[v] = VAR(hi) * q + VAR(lo)
                g.append(hi)
                need = ONE
                stack.insert(0, lo)
            if not ok:
                break
            groups.append(g)
        if ok and not stack:
            if m:
                body = self.body
                for v, e in m.items():
                    body = body.subst({v: e})
                return TV(groups, body, self.dtype)
            return TV(groups, self.body, self.dtype)
        # misaligned: div/mod
        new = TV.build(dims, lambda *i: ZERO, self.dtype)
        lin = ZERO
        for n, g in enumerate(new.axes):
            tail = prod(dims[n + 1:])
            if g:
                lin = lin + VAR(g[0]) * tail
        m, rest = {}, lin
        for n, v in enumerate(flat):
            tail = prod([VARDIM[u] for u in flat[n + 1:]])
            if n == len(flat) - 1:
                m[v] = rest
            else:
                m[v] = alg.idiv(rest, tail)
                rest = alg.imod(rest, tail)
        new.body = self.body.subst(m)
        return new

    def atomic(self):
        """every axis as at most one variable"""
        if all(len(g) <= 1 for g in self.axes):
            return self
        axes, m = [], {}
        for n, g in enumerate(self.axes):
            if len(g) <= 1:
                axes.append(g)
                continue
            v = newvar(self.size(n))
            rest = VAR(v)
            sizes = [VARDIM[u] for u in g]
            for k, u in enumerate(g):
                tail = prod(sizes[k + 1:])
                if k == len(g) - 1:
                    m[u] = rest
                else:
                    m[u] = alg.idiv(rest, tail)
                    rest = alg.imod(rest, tail)
            axes.append([v])
        return TV(axes, self.body.subst(m), self.dtype)

    def expand(self, axis):
        axes = list(self.axes)
        axes.insert(axis, [])
        return TV(axes, self.body, self.dtype)

    def squeeze(self, axes):
        for a in axes:
            s = self.size(a)
            if not (s.is_const() and s.const == 1):
                raise ShapeError('cannot squeeze axis of size %s' % s)
        return TV([g for n, g in enumerate(self.axes) if n not in axes], self.body, self.dtype)

    # ---- reductions
    def sum(self, axes=None):
        axes = list(range(self.rank)) if axes is None else axes
        t = self
        body = t.body
        for a in axes:
            for v in t.axes[a]:
                body = body.sum(v, VARDIM[v])
        return TV([g for n, g in enumerate(t.axes) if n not in axes], body, t.dtype)

    def reduce(self, kind, axes=None):
        axes = list(range(self.rank)) if axes is None else axes
        body = self.body
        vs = [v for a in axes for v in self.axes[a]]
        for v in vs:
            body = alg.reduce_fn(kind, body, v, VARDIM[v])
        return TV([g for n, g in enumerate(self.axes) if n not in axes], body, self.dtype)


def _refine(ga, gb):
    la, lb = list(ga), list(gb)
    out, sa, sb = [], [], []
    while la or lb:
        if not la or not lb:
            return None
        a, b = la[0], lb[0]
        da, db = VARDIM[a], VARDIM[b]
        if da == db:
            n = newvar(da)
            sa.append((a, VAR(n)))
            sb.append((b, VAR(n)))
            out.append(n)
            la.pop(0)
            lb.pop(0)
            continue
        q = alg.divide_mono(da, db)
        if q is not None:
            hi, lo = newvar(db), newvar(q)
            sa.append((a, VAR(hi) * q + VAR(lo)))
            la[0:1] = [hi, lo]
            continue
        q = alg.divide_mono(db, da)
        if q is not None:
            hi, lo = newvar(da), newvar(q)
            sb.append((b, VAR(hi) * q + VAR(lo)))
            lb[0:1] = [hi, lo]
            continue
        return None
    return out, sa, sb


def _flatten(g):
    tot = prod([VARDIM[v] for v in g])
    n = newvar(tot)
    rest = VAR(n)
    m = []
    sizes = [VARDIM[v] for v in g]
    for k, u in enumerate(g):
        tail = prod(sizes[k + 1:])
        if k == len(g) - 1:
            m.append((u, rest))
        else:
            m.append((u, alg.idiv(rest, tail)))
            rest = alg.imod(rest, tail)
    return n, m


def same_size(a, b):
    return a == b


def align(ts):
    """broadcast list of TVs to a common index space -> (axes, bodies)"""
    rank = max(t.rank for t in ts)
    ts = [t.fresh() for t in ts]
    gs = [[[] for _ in range(rank - t.rank)] + list(t.axes) for t in ts]
    subs = [[] for _ in ts]
    axes = []
    for n in range(rank):
        cur = None
        owners = []
        for k, t in enumerate(ts):
            g = gs[k][n]
            sz = prod([VARDIM[v] for v in g])
            if sz.is_const() and sz.const == 1:
                for v in g:
                    subs[k].append((v, ZERO))
                continue
            if cur is None:
                cur = list(g)
                owners.append(k)
                continue
            if prod([VARDIM[v] for v in cur]) != sz:
                raise ShapeError('incompatible sizes %s and %s' % (
                    prod([VARDIM[v] for v in cur]).key, sz.key))
            r = _refine(cur, g)
            if r is not None:
                out, sa, sb = r
                for o in owners:
                    subs[o] += sa
                subs[k] += sb
                cur = out
            else:
                va, ma = _flatten(cur)
                vb, mb = _flatten(g)
                for o in owners:
                    subs[o] += ma
                subs[k] += mb + [(vb, VAR(va))]
                cur = [va]
            owners.append(k)
        axes.append(cur or [])
    bodies = []
    for t, s in zip(ts, subs):
        b = t.body
        for v, e in s:
            b = b.subst({v: e})
        bodies.append(b)
    return axes, bodies


def ew(fn, *ts, dtype=None):
    axes, bodies = align(ts)
    return TV(axes, fn(*bodies), dtype or ts[0].dtype)


def einsum(spec, ts):
    """explicit-output einsum"""
    spec = spec.replace(' ', '')
    if '->' not in spec or '.' in spec:
        raise Unsupported('einsum form ' + spec)
    lhs, out = spec.split('->')
    ins = lhs.split(',')
    if len(ins) != len(ts):
        raise ShapeError('einsum %r got %d operands' % (spec, len(ts)))
    grp = {}     # letter -> list of vars
    pend = []
    ts = [t.fresh() for t in ts]
    bodies = [t.body for t in ts]
    seenin = {}
    for k, (letters, t) in enumerate(zip(ins, ts)):
        if len(letters) != t.rank:
            raise ShapeError('einsum %r: operand %d has rank %d' % (spec, k, t.rank))
        for c, g in zip(letters, t.axes):
            if c not in grp:
                grp[c] = list(g)
                seenin.setdefault(c, []).append(k)
                continue
            cur = grp[c]
            sa_, sb_ = prod([VARDIM[v] for v in cur]), prod([VARDIM[v] for v in g])
            if sa_ != sb_:
                raise ShapeError('einsum %r: label %s has sizes %s and %s' % (spec, c, sa_.key, sb_.key))
            r = _refine(cur, g)
            if r is None:
                va, ma = _flatten(cur)
                vb, mb = _flatten(g)
                r = [va], ma, mb + [(vb, VAR(va))]
            outg, sa, sb = r
            for o in set(seenin[c]):
                for v, e in sa:
                    bodies[o] = bodies[o].subst({v: e})
            for v, e in sb:
                bodies[k] = bodies[k].subst({v: e})
            # a label repeated inside the same operand
            grp[c] = outg
            # variables of other labels are untouched
            seenin[c].append(k)
    for c in out:
        if c not in grp:
            raise ShapeError('einsum %r: output label %s not in inputs' % (spec, c))
    if len(set(out)) != len(out):
        raise ShapeError('einsum %r: repeated output label' % spec)
    body = ONE
    for b in bodies:
        body = body * b
    for c in sorted(grp):
        if c not in out:
            for v in grp[c]:
                body = body.sum(v, VARDIM[v])
    return TV([grp[c] for c in out], body, ts[0].dtype)


def matmul(a, b, ta=False, tb=False):
    if a.rank != 2 or b.rank != 2:
        raise ShapeError('matmul needs rank-2 operands, got %d and %d' % (a.rank, b.rank))
    return einsum('%s,%s->ac' % ('ba' if ta else 'ab', 'cb' if tb else 'bc'), [a, b])


def matrix_fn(kind, t, outsizes, dtype=None, full=False, extra=''):
    """uninterpreted matrix function of a closed rank-2 tensor (svd factors, pinv)."""
    t = t.atomic().fresh()
    bound = []
    for n, g in enumerate(t.axes):
        bound.append((g[0] if g else None, t.size(n)))
    vs = [v for v, _ in bound]
    m = {v: VAR('%%r%d' % i) for i, v in enumerate(vs) if v}
    body = t.body.subst(m)
    free = [v for v in body.freevars() if not v.startswith('%r')]
    if free:
        raise Unsupported('matrix function of an index-dependent matrix')
    name = kind + '#' + alg.digest('%s|%s|%s|%s' % (full, extra, ';'.join(d.key for _, d in bound), body.key))
    alg.DEFS.setdefault(name, dict(kind=kind, matrix=True, params=[], body=body, full=full, extra=extra,
                                   bound=[('%%r%d' % i, d) for i, (_, d) in enumerate(bound)]))
    if kind == 'svds':
        alg.NONNEG.add(name)
    return TV.build(outsizes, lambda *i: alg.EL(name, i), dtype or t.dtype)


def let(t, hint='let'):
    """name the content of t (a definitional abbreviation keyed by the content)"""
    t = t.atomic().fresh()
    vs = [g[0] if g else None for g in t.axes]
    live = [v for v in vs if v]
    free = t.body.freevars() - set(live)
    if free:
        raise Unsupported('let of an index-dependent tensor')
    # already a bare element in order?
    if len(t.body.t) == 1:
        (tm, c), = t.body.t.items()
        if c == 1 and not tm.b and len(tm.f) == 1 and tm.f[0][1] == 1 and tm.f[0][0][0] == 'e':
            a = tm.f[0][0]
            if len(a[2]) == len(vs) and all(
                    (p._var == v if v else (p.is_const() and p.const == 0)) for p, v in zip(a[2], vs)):
                return t
    if t.body.is_const():
        return t
    params, body = alg.close(t.body, live)
    name = 'let#' + alg.digest(';'.join(s.key for s in t.shape) + '|' + body.key)
    if name not in alg.DEFS:
        alg.DEFS[name] = dict(kind='let', params=params, body=body, nonneg=alg.is_nonneg(body),
                              shape=[s for s in t.shape],
                              dims=[s for s, v in zip(t.shape, vs) if v])
        if alg.DEFS[name]['nonneg']:
            alg.NONNEG.add(name)
    nm = name

    def fn(*idx):
        return alg.EL(nm, [i for i, v in zip(idx, vs) if v])
    return TV.build(t.shape, fn, t.dtype)


def equal(a, b, unfold=True):
    """(ok, reason) syntactic equality of shape, dtype and all elements"""
    if a.rank != b.rank:
        return False, 'rank %d vs %d' % (a.rank, b.rank)
    for n in range(a.rank):
        if a.size(n) != b.size(n):
            return False, 'axis %d has size %s, expected %s' % (n, a.size(n).key, b.size(n).key)
    if a.dtype != b.dtype:
        return False, 'dtype %s, expected %s' % (a.dtype, b.dtype)
    axes, (x, y) = align([a, b])
    if x == y:
        return True, ''
    # axes of constant size: element by element
    for g in axes:
        for v in g:
            d = VARDIM[v]
            if d.is_const() and 1 < d.const <= 64:
                bad = None
                for i in range(int(d.const)):
                    m = {v: alg.CONST(i)}
                    sub = [TV([[w for w in h if w != v] for h in axes], t.subst(m), a.dtype) for t in (x, y)]
                    ok, bad = equal(*sub, unfold=unfold)
                    if not ok:
                        return False, 'at %s=%d: %s' % (v, i, bad)
                return True, ''
    ex, ey = alg.expand(x), alg.expand(y)
    if ex is not None and ey is not None and (ex == ey or alg.vanishes(ex - ey)):
        return True, ''
    if unfold and unfolded_equal(axes, x, y, a.dtype):
        return True, ''
    return False, 'element %s  expected %s' % (x.key[:400], y.key[:400])


PROOF_SECONDS = 10
PROOF_UNTIL = None
SAMPLER = [None, None]   # [kit, valuation]: sample values that tell which equalities are worth proving
_PROVED = {}


def sample(f):
    """f(valuation) for some valuations of the inputs, None when it has no (finite) value"""
    K, envs = SAMPLER
    if K is None:
        return None
    import numpy as np
    from . import contract, neval
    if envs is None:
        envs = SAMPLER[1] = [contract._env(K, 3 * i) for i in (1, 2, 3, 5, 7)]
    r = []
    for env in envs:
        try:
            with np.errstate(all='ignore'):
                x = np.asarray(f(env), float)
        except (neval.NoEval, ValueError, IndexError, FloatingPointError, np.linalg.LinAlgError, OverflowError, KeyError):
            r.append(None)
            continue
        if np.all(np.abs(x) < 1e8):
            r.append(x)
        else:
            r.append(None)
    return r


def close_samples(x, y):
    """True / False / None (no sample value)"""
    import numpy as np
    if not x or not y or len(x) != len(y):
        return None
    yes = no = 0
    for a, b in zip(x, y):
        if a is None or b is None:
            continue
        if a.shape != b.shape:
            return False
        if np.allclose(a, b, rtol=1e-5, atol=1e-8):
            yes += 1
        else:
            no += 1
    return None if not yes and not no else yes >= 3 * no and yes > 0


def _sample_let(name):
    d = alg.DEFS[name]
    return sample(lambda env: env.tensor(d['body'], list(d['params']), [env.dim(q) for q in d['dims']]))


def _maybe_same(a, b):
    da, db = alg.DEFS[a], alg.DEFS[b]
    if [s.key for s in da['shape']] != [s.key for s in db['shape']] or list(da['params']) != list(db['params']):
        return False
    return bool(close_samples(_sample_let(a), _sample_let(b)))


def _same_let(a, b):
    k = (a, b)
    if k not in _PROVED:
        _PROVED[k] = False
        d = alg.DEFS[a]
        m = {v: VAR(newvar(n)) for v, n in zip(d['params'], d['dims'])}
        _PROVED[k] = _prove(d['body'].subst(m), alg.DEFS[b]['body'].subst(m))
    return _PROVED[k]


def _prove(x, y):
    for rnd in range(12):
        if x == y or alg.vanishes(x - y):
            return True
        cx, cy = alg.let_names(x), alg.let_names(y)
        dx, dy = cx - cy, cy - cx
        if not dx and not dy:
            dx = dy = cx
            if not cx:
                return False
        ren = {}
        if cx != cy:
            for b in sorted(dy):
                for a in sorted(dx):
                    if _maybe_same(a, b) and _same_let(a, b):
                        ren[b] = a
                        break
        if ren:
            y = alg.inline(y, ren)
            continue
        x, y = alg.inline(x, dict.fromkeys(dx)), alg.inline(y, dict.fromkeys(dy))
    return False


def unfolded_equal(axes, x, y, dtype):
    """equality modulo definitional abbreviations: those only one side uses are matched or unfolded"""
    global PROOF_UNTIL
    if not alg.let_names(x) and not alg.let_names(y):
        return False
    if x.is_const() or y.is_const():
        return False
    old = PROOF_UNTIL
    try:
        PROOF_UNTIL = min(old or 1e18, time.time() + PROOF_SECONDS)
        return _prove(x, y)
    except alg.TooBig:
        return False
    finally:
        PROOF_UNTIL = old


def evaluate(t, env):
    """numeric ndarray of a TV"""
    import numpy as np
    vs, ds, shape = [], [], []
    for g in t.axes:
        n = 1
        for v in g:
            d = env.dim(VARDIM[v])
            vs.append(v)
            ds.append(d)
            n *= d
        shape.append(n)
    return np.asarray(env.tensor(t.body, vs, ds)).reshape(shape)
