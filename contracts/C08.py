from pv.contract import Ob
from pv import alg, tv as T
from pv.tv import TV
from . import spec
from .C06 import skips, kept

FUNCS = ['tensorD.base.ops.inner', 'tensorD.base.ops.max_single_value_mul', 'tensorD.base.ops.xcb']


def obligations(tier):
    for order in range(1, (8 if tier == 'quick' else 16) + 1):
        yield Ob('ops.inner', dict(order=order), inner)
    yield Ob('ops.inner', dict(case='reject'), reject)
    for n in range(1, (8 if tier == 'quick' else 16) + 1):
        for sk in (skips(n, tier) if n <= 5 else [None, 0, n - 1, [0, n - 1], [2, 3]]):
            yield Ob('ops.max_single_value_mul', dict(n=n, skip=sk), msv)
    for r in range(1, (4 if tier == 'quick' else 9)):
        yield Ob('ops.xcb', dict(R=r), xcb)
    yield Ob('ops.xcb', dict(R='symbolic'), xcb)


def inner(K):
    ops = K.mod('tensorD.base.ops')
    d = K.dims(*['I%d' % i for i in range(K.ob.config['order'])])
    a, b = K.const('a', d), K.const('b', d)
    K.eq('sum of products', ops.inner(a, b), spec.scalar(spec.sum_(d, lambda *i: a.val.at(*i) * b.val.at(*i))))
    K.eq('square', ops.inner(a, a), spec.scalar(spec.sum_(d, lambda *i: a.val.at(*i) * a.val.at(*i))))


def reject(K):
    ops = K.mod('tensorD.base.ops')
    for s, t in (((2, 3), (3, 2)), ((2, 3), (6,)), ((2, 3), (2, 3, 1)), ((1, 3), (2, 3)), ((4,), (1,)),
                 ((2, 2, 3), (2, 3, 2))):
        a, b = K.const('a%s%s' % (s, t), s), K.const('b%s%s' % (s, t), t)
        K.raises('different shapes rejected', ValueError, lambda: ops.inner(a, b))


def sigma_max(t):
    """largest singular value (the dependency's svd contract names the spectrum)"""
    s = T.matrix_fn('svds', t, [alg.imin(t.size(0), t.size(1))])
    return s.reduce('rmax')


def msv(K):
    c = K.ob.config
    ops = K.mod('tensorD.base.ops')
    ms = [K.const('m%d' % i, K.dims('I%d' % i, 'J%d' % i)) for i in range(c['n'])]
    sk = list(c['skip']) if isinstance(c['skip'], list) else c['skip']
    p = alg.ONE
    for i in kept(c['n'], c['skip']):
        p = p * sigma_max(ms[i].val).body
    arg = list(ms)
    K.eq('product of the largest singular values', ops.max_single_value_mul(arg, sk), spec.scalar(p))
    K.true('input list unmodified', len(arg) == len(ms) and all(a is b for a, b in zip(arg, ms)))


def xcb(K):
    """xcb(X, C, B)[i, r] = sum_jk X[i,j,k] B[j,r] C[k,r]"""
    ops = K.mod('tensorD.base.ops')
    R = K.ob.config['R']
    I, J, Kd = K.dims('I', 'J', 'K')
    Rd = alg.DIM('R') if R == 'symbolic' else alg.CONST(R)
    X, C, B = K.const('X', [I, J, Kd]), K.const('C', [Kd, Rd]), K.const('B', [J, Rd])
    want = TV.build([I, Rd], lambda i, r: spec.sum_([J, Kd], lambda j, k: X.val.at(i, j, k) * B.val.at(j, r) * C.val.at(k, r)))
    K.eq('defining sum', ops.xcb(X, C, B), want)
    K.eq('= X_(1) (C khatri-rao B)', ops.xcb(X, C, B), spec.matmul(spec.unfold(X.val, 0), spec.khatri([C.val, B.val])))
