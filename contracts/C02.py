from pv.contract import Ob
from . import spec

FUNCS = ['tensorD.base.ops.unfold', 'tensorD.base.ops.fold', 'tensorD.base.ops._gen_perm']


def obligations(tier):
    top = 8 if tier == 'quick' else 14
    for order in range(1, top + 1):
        for mode in range(order):
            yield Ob('ops.fold', dict(order=order, mode=mode), fold)


def fold(K):
    c = K.ob.config
    n, order = c['mode'], c['order']
    ops = K.mod('tensorD.base.ops')
    dims = K.dims(*['I%d' % i for i in range(order)])
    x = K.const('x', dims)
    shape = x.get_shape().as_list()
    # contract of fold: entry (i_0..i_N) is the matrix entry of the Kolda layout
    K.eq('fold of the layout', ops.fold(K.tf.constant(wrap(spec.unfold(x.val, n))), n, shape), x.val)
    K.eq('fold(unfold)', ops.fold(ops.unfold(x, n), n, shape), x.val)
    K.eq('tuple shape', ops.fold(ops.unfold(x, n), n, tuple(shape)), x.val)
    rest = 1
    for m in range(order):
        if m != n:
            rest = rest * dims[m]
    M = K.const('M', [dims[n], rest])
    K.eq('unfold(fold)', ops.unfold(ops.fold(M, n, shape), n), M.val)
    K.same('shape argument unchanged', [s for s in shape], x.get_shape().as_list())


def wrap(tv):
    from pv.npstub import wrap as w
    return w(tv)
