from pv.contract import Ob
from . import spec

FUNCS = ['tensorD.base.ops.unfold', 'tensorD.base.ops._gen_perm']


def obligations(tier):
    top = 8 if tier == 'quick' else 16
    for order in range(1, top + 1):
        for mode in range(order):
            yield Ob('ops.unfold', dict(order=order, mode=mode), unfold)


def unfold(K):
    c = K.ob.config
    ops = K.mod('tensorD.base.ops')
    x = K.const('x', K.dims(*['I%d' % i for i in range(c['order'])]))
    K.eq('layout', ops.unfold(x, c['mode']), spec.unfold(x.val, c['mode']))
    if c['mode'] == 0:
        K.eq('default mode', ops.unfold(x), spec.unfold(x.val, 0))
