import itertools
from pv.contract import Ob
from . import spec

FUNCS = ['tensorD.base.ops.ttm', 'tensorD.base.ops._skip']
MAXORDER = 13     # the einsum alphabet of ttm ends here


def obligations(tier):
    for order in range(1, MAXORDER + 1):
        for tr in (False, True):
            yield Ob('ops.ttm', dict(order=order, kind='all', t=tr), ttm)
            if order > 1:
                yield Ob('ops.ttm', dict(order=order, kind='prefix', n=order - 1, t=tr), ttm)
            full = 4 if tier == 'quick' else 5
            if order <= full:
                for k in range(1, order + 1):
                    for ax in itertools.permutations(range(order), k):
                        yield Ob('ops.ttm', dict(order=order, kind='axis', axis=ax, t=tr), ttm)
                for k in range(0, order):
                    for sk in itertools.combinations(range(order), k):
                        for m in sorted({order, max(sk, default=-1) + 1, order - 1} - {0}):
                            if m <= order and m > max(sk, default=-1) and len(sk) < m:
                                yield Ob('ops.ttm', dict(order=order, kind='skip', skip=sk, m=m, t=tr), ttm)
                                if k == 1:
                                    yield Ob('ops.ttm', dict(order=order, kind='skip1', skip=sk, m=m, t=tr), ttm)
                                if k > 1 and m == order:
                                    yield Ob('ops.ttm', dict(order=order, kind='skip', skip=sk[::-1], m=m, t=tr), ttm)
            else:
                yield Ob('ops.ttm', dict(order=order, kind='axis', axis=tuple(range(order))[::-1], t=tr), ttm)
                yield Ob('ops.ttm', dict(order=order, kind='axis', axis=(order - 1, 0, order // 2), t=tr), ttm)
                for s in range(order):
                    yield Ob('ops.ttm', dict(order=order, kind='skip1', skip=(s,), m=order, t=tr), ttm)
                yield Ob('ops.ttm', dict(order=order, kind='skip', skip=(0, order - 1), m=order, t=tr), ttm)
    yield Ob('ops.ttm', dict(order=3, kind='both', t=False), both)
    yield Ob('ops.ttm', dict(order=3, kind='single', t=False), single)


def ttm(K):
    c = K.ob.config
    ops = K.mod('tensorD.base.ops')
    order, tr = c['order'], c['t']
    dims = K.dims(*['I%d' % i for i in range(order)])
    J = K.dims(*['J%d' % i for i in range(order)])
    x = K.const('x', dims)

    def mat(i):
        return K.const('m%d' % i, [dims[i], J[i]] if tr else [J[i], dims[i]])
    kw = dict(transpose=tr)
    if c['kind'] in ('all', 'prefix'):
        axes = list(range(c.get('n', order)))
        mats = [mat(i) for i in axes]
        use = list(zip(axes, mats))
    elif c['kind'] == 'axis':
        axes = list(c['axis'])
        mats = [mat(i) for i in axes]
        kw['axis'] = list(axes)
        use = list(zip(axes, mats))
    else:
        mats = [mat(i) for i in range(c['m'])]
        kw['skip_matrices_index'] = c['skip'][0] if c['kind'] == 'skip1' else list(c['skip'])
        use = [(i, mats[i]) for i in range(c['m']) if i not in c['skip']]
    arg = list(mats)
    kw0 = dict(kw)
    got = ops.ttm(x, arg, **kw)
    want = x.val
    for i, m in use:
        want = spec.mode_product(want, m.val, i, tr)
    K.eq('composition of mode products', got, want)
    K.true('matrix list unmodified', len(arg) == len(mats) and all(a is b for a, b in zip(arg, mats)))
    K.same('arguments unmodified', kw, kw0)


def both(K):
    ops = K.mod('tensorD.base.ops')
    x = K.const('x', K.dims('I0', 'I1', 'I2'))
    ms = [K.const('m%d' % i, K.dims('J%d' % i, 'I%d' % i)) for i in range(3)]
    for ax in ([0, 1], [0], []):
        for sk in ([2], 2, 0, [0, 1], []):
            K.raises('axis and skip rejected', ValueError,
                     lambda: ops.ttm(x, ms, axis=ax, skip_matrices_index=sk))


def single(K):
    ops = K.mod('tensorD.base.ops')
    x = K.const('x', K.dims('I0', 'I1', 'I2'))
    for i in range(3):
        m = K.const('m%d' % i, K.dims('J%d' % i, 'I%d' % i))
        K.eq('one matrix, not in a list', ops.ttm(x, m, axis=[i]), spec.mode_product(x.val, m.val, i))
