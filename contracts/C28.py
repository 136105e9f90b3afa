from pv.contract import Ob
from pv import alg, tv as T, symex as S
from pv.symex import ENG
from . import spec

FUNCS = ['tensorD.demo.DataGenerator.synthetic_data_cp', 'tensorD.demo.DataGenerator.synthetic_data_tucker']
ASSUMES = ['numpy.random.rand draws from [0, 1) and randn from the standard normal distribution, independently']


def obligations(tier):
    hi = 6 if tier == 'quick' else 8
    for order in range(1, hi):
        for noise in ('default', 'symbol'):
            for kind in ('list', 'tuple'):
                yield Ob('synthetic_data_cp', dict(order=order, noise=noise, kind=kind), cp)
                yield Ob('synthetic_data_tucker', dict(order=order, noise=noise, kind=kind), tucker)


def draws(K, kind, *dims):
    """the draws of this kind and these sizes, each used once, in order"""
    r = [d for d in K.left if d[1] == kind and [a.key for a in d[0].shape] == [alg.lift_num(x).key for x in dims]]
    if kind == 'uniform':
        K.true('from the unit interval', all(d[2] == alg.ZERO and d[3] == alg.ONE for d in r), '%s' % [d[2:] for d in r])
    K.true('a %s draw of sizes %s' % (kind, [alg.lift_num(x).key for x in dims]), r, '%s' % [(d[1], d[0].shape) for d in K.left])
    return r


def noisy(K, order, t, scale):
    """t plus the non-negative part of scaled standard normal noise"""
    D = K.dims(*['I%d' % i for i in range(order)])
    n = draws(K, 'normal', *D)
    K.true('one noise tensor', len(n) == 1)
    n = n[0][0]
    return T.ew(lambda a, b: a + alg.relu(b * scale), t, n)


def args(K, default):
    g = K.ob.config
    if g['noise'] == 'default':
        return [], alg.lift_num(default)
    s = S.realnum('noise', nonneg=True)
    return [s], S.topoly(s)


def uniform(K, order, ranks):
    """the factor drawn for every mode"""
    D = K.dims(*['I%d' % i for i in range(order)])
    U = []
    for n in range(order):
        c = [d for d in draws(K, 'uniform', D[n], ranks[n]) if not any(d[0] is u for u in U)]
        K.true('a factor for mode %d' % n, c)
        U.append(c[0][0])
    return U


def cp(K):
    g = K.ob.config
    o = g['order']
    m = K.mod('tensorD.demo.DataGenerator')
    N = [K.intdim('I%d' % i) for i in range(o)]
    a, s = args(K, alg.Fraction(1, 10))
    r = m.synthetic_data_cp(N if g['kind'] == 'list' else tuple(N), K.intdim('R'), *a)
    K.left = K.draws()
    U = uniform(K, o, [K.dim('R')] * o)
    K.eq('non-negative tensor of the drawn factors plus noise', r, noisy(K, o, spec.kruskal(None, U), s), dtype=False)


def tucker(K):
    g = K.ob.config
    o = g['order']
    m = K.mod('tensorD.demo.DataGenerator')
    N = [K.intdim('I%d' % i) for i in range(o)]
    R = [K.intdim('R%d' % i) for i in range(o)]
    a, s = args(K, alg.Fraction(4, 100))
    if g['kind'] == 'tuple':
        N, R = tuple(N), tuple(R)
    r = m.synthetic_data_tucker(N, R, *a)
    K.left = K.draws()
    D = K.dims(*['R%d' % i for i in range(o)])
    U = uniform(K, o, D)
    c = draws(K, 'uniform', *D)
    K.eq('non-negative tensor of the drawn core and factors plus noise', r, noisy(K, o, spec.tucker(c[0][0], U), s), dtype=False)
