from pv.contract import Ob
from pv.tv import TV
from . import spec

FUNCS = ['tensorD.base.type.KTensor.__init__', 'tensorD.base.type.KTensor.extract', 'tensorD.base.ops.khatri']


def obligations(tier):
    # khatri's einsum alphabet ends at 25 factors
    for order in range(1, 26):
        for ukind in ('tensor', 'array'):
            for dt in ('float32', 'float64'):
                for lam in ('none', 'arr1', 'arr2', 'arr1x', 'arr2x', 'ten1', 'ten2'):
                    if order > 6 and (lam not in ('none', 'arr1', 'ten2') or dt == 'float64' and tier == 'quick'):
                        continue
                    if ukind == 'array' and lam.startswith('ten') and dt == 'float64':
                        continue       # array factors are held in single precision: tensor weights must be too
                    yield Ob('KTensor.extract', dict(order=order, factors=ukind, dtype=dt, weights=lam), extract)


def extract(K):
    c = K.ob.config
    KT = K.mod('tensorD.base.type').KTensor
    R = K.dim('R')
    mk = K.const if c['factors'] == 'tensor' else K.arr
    U = [mk('u%d' % i, [K.dim('I%d' % i), R], c['dtype']) for i in range(c['order'])]
    other = 'float64' if c['dtype'] == 'float32' else 'float32'
    w = c['weights']
    lam = None
    if w != 'none':
        dims = [R] if '1' in w else [R, 1]
        lam = (K.const if w.startswith('ten') else K.arr)('lam', dims, other if w.endswith('x') else c['dtype'])
    vals = [K.val(u) for u in U]
    lv = K.val(lam) if lam is not None else None
    arg = list(U)
    obj = KT(arg) if lam is None else KT(arg, lam)
    want = spec.kruskal(None if lv is None else (lambda r: lv.at(r) if lv.rank == 1 else lv.at(r, 0)), vals, c['dtype'])
    got = obj.extract()
    K.eq('weighted sum of outer products', got, want, dtype=(c['factors'] == 'tensor'))
    K.same('order', obj.order, c['order'])
    K.eq('repeated extraction', obj.extract(), want, dtype=False)
    K.true('factor list unmodified', len(arg) == len(U) and all(a is b for a, b in zip(arg, U)))
    for u, v in zip(U, vals):
        K.eq('factor unmodified', u, v)
