from pv.contract import Ob
from . import spec

FUNCS = ['tensorD.base.type.TTensor.__init__', 'tensorD.base.type.TTensor.extract', 'tensorD.base.ops.ttm']


def obligations(tier):
    for order in range(1, 14):          # ttm's einsum alphabet ends at 13
        for dt in ('float32', 'float64'):
            for g in ('tensor', 'array'):
                for u in ('tensor', 'array'):
                    yield Ob('TTensor.extract', dict(order=order, dtype=dt, core=g, factors=u), extract)


def extract(K):
    c = K.ob.config
    TT = K.mod('tensorD.base.type').TTensor
    n = c['order']
    J = K.dims(*['J%d' % i for i in range(n)])
    I = K.dims(*['I%d' % i for i in range(n)])
    g = (K.const if c['core'] == 'tensor' else K.arr)('g', J, c['dtype'])
    U = [(K.const if c['factors'] == 'tensor' else K.arr)('u%d' % i, [I[i], J[i]], c['dtype']) for i in range(n)]
    arg = list(U)
    obj = TT(g, arg)
    want = spec.tucker(K.val(g), [K.val(u) for u in U])
    K.eq('core times factors', obj.extract(), want)
    K.eq('repeated extraction', obj.extract(), want)
    K.same('order', obj.order, n)
    K.true('factor list unmodified', len(arg) == len(U) and all(a is b for a, b in zip(arg, U)))
