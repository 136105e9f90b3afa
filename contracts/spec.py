"""Specification functions, written from the property statements (independent of the code)."""
from pv import alg
from pv.alg import P, VAR, ZERO, ONE, newvar
from pv.tv import TV
from pv import tv as T


def one(d):
    return d.is_const() and d.const == 1


def group(d):
    """a fresh axis of size d: (group, index)"""
    d = alg.lift_num(d)
    if one(d):
        return [], ZERO
    v = newvar(d)
    return [v], VAR(v)


def regroup(t, groups):
    """the tensor whose axis g enumerates (row-major) the indices of t's axes groups[g]"""
    t = t.fresh()
    return TV([[v for ax in g for v in t.axes[ax]] for g in groups], t.body, t.dtype)


def unfold(t, n):
    """T_(n)[i_n, j], j enumerating the other indices with the lowest-numbered mode fastest"""
    return regroup(t, [[n], [m for m in range(t.rank - 1, -1, -1) if m != n]])


def build(shape, fn, dtype='float32'):
    return TV.build(shape, fn, dtype)


def sum_(dims, fn):
    """sum over fresh indices ranging over dims of fn(*indices)"""
    vs = [(newvar(d), d) if not one(d) else (None, d) for d in map(alg.lift_num, dims)]
    body = fn(*[VAR(v) if v else ZERO for v, _ in vs])
    for v, d in vs:
        if v:
            body = body.sum(v, d)
    return body


def mode_product(t, m, n, transpose=False):
    """t x_n m : sum over i_n of t[.., i_n, ..] m[j, i_n] (m[i_n, j] transposed)"""
    J = m.size(1) if transpose else m.size(0)
    I = t.size(n)
    shape = list(t.shape)
    shape[n] = J

    def fn(*ix):
        def term(k):
            jx = list(ix)
            jx[n] = k
            return t.at(*jx) * (m.at(k, ix[n]) if transpose else m.at(ix[n], k))
        return sum_([I], term)
    return TV.build(shape, fn, t.dtype)


def khatri(ms):
    """column-wise Kronecker product, row index of ms[0] slowest"""
    ms = [m.fresh() for m in ms]
    rg, r = group(ms[0].size(1))
    axes = []
    body = ONE
    for m in ms:
        g, i = group(m.size(0))
        axes += g
        body = body * m.at(i, r)
    return TV([axes, rg], body, ms[0].dtype)


def kron(ms):
    rows, cols = [], []
    body = ONE
    for m in ms:
        (gi, i), (gj, j) = group(m.size(0)), group(m.size(1))
        rows += gi
        cols += gj
        body = body * m.at(i, j)
    return TV([rows, cols], body, ms[0].dtype)


def hadamard(ms):
    r = ms[0]
    for m in ms[1:]:
        r = T.ew(lambda a, b: a * b, r, m)
    return r


def matmul(a, b, ta=False, tb=False):
    """sum_k a[i,k] b[k,j]; the summed axes are matched group by group"""
    return T.matmul(a, b, ta, tb)


def scalar(p, dtype='float32'):
    return TV.scalar(p, dtype)


def total(t):
    t = t.fresh()
    return sum_(t.shape, lambda *i: t.at(*i))


def kruskal(lam, U, dtype=None):
    """sum_r lam_r u0[i0,r] u1[i1,r] ..."""
    R = U[0].size(1)
    shape = [u.size(0) for u in U]

    def fn(*ix):
        def term(r):
            p = lam(r) if lam is not None else ONE
            for u, i in zip(U, ix):
                p = p * u.at(i, r)
            return p
        return sum_([R], term)
    return TV.build(shape, fn, dtype or U[0].dtype)


def tucker(core, U):
    t = core
    for n, u in enumerate(U):
        t = mode_product(t, u, n)
    return t
