from pv.contract import Ob
from pv import alg
from . import spec, pitf_spec as PS
from .C24 import MODS, mk

FUNCS = ['tensorD.base.pitf_ops.SVT', 'tensorD.base.pitf_ops.shrink', 'tensorD.base.pitf_ops_numpy.SVT',
         'tensorD.base.pitf_ops_numpy.shrink']


def obligations(tier):
    for b in ('tf', 'np'):
        for mode in ('normal', 'complicated'):
            for sh in ('IJ', '1J', 'I1', 'II', '23', '32', '44', '51', '15'):
                for tao in ('symbol', 'zero'):
                    yield Ob('shrink', dict(backend=b, mode=mode, size=sh, tao=tao), shrink)


def shrink(K):
    g = K.ob.config
    m = K.mod(MODS[g['backend']])
    D = [alg.CONST(int(c)) if c.isdigit() else K.dim(c) for c in g['size']]
    dt = 'float32' if g['backend'] == 'tf' else 'float64'
    x = mk(K, 'x', D, dt)
    x0 = K.val(x)
    t = K.tv('tau', [], dt)
    if g['tao'] == 'zero':
        tao, tp = 0.0, alg.ZERO
    elif g['backend'] == 'tf':
        from pv.npstub import NDArray
        tao, tp = K.tf.constant(NDArray(t)), t.at()
    else:
        from pv.npstub import wrap
        tao, tp = wrap(t), t.at()
    r = m.shrink(x, tao, g['mode']) if g['mode'] != 'normal' else m.shrink(x, tao)
    K.eq_cases('U max(S - tao, 0) V^T (+ mean term)', r, PS.shrink(x0, tp, g['mode']))
    K.eq('argument unmodified', x, x0)
