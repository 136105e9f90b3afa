import itertools
from pv.contract import Ob
from . import spec
from .C02 import wrap

FUNCS = ['tensorD.base.ops.t2mat', 'tensorD.base.ops.vectorize', 'tensorD.base.ops.vec_to_tensor']


def obligations(tier):
    top = 4 if tier == 'quick' else 5
    for order in range(1, top + 1):
        axes = list(range(order))
        for k in range(1, order + 1):
            for rows in itertools.permutations(axes, k):
                rest = [a for a in axes if a not in rows]
                rforms = ['list', 'tuple'] + (['int'] if k == 1 else [])
                if order == top:
                    rforms = ['int'] if k == 1 else [['list', 'tuple'][sum(rows) % 2]]
                for rf in rforms:
                    yield Ob('ops.t2mat', dict(order=order, r=rows, rf=rf, c=-1, cf='rest'), t2mat)
                    if not rest:
                        continue
                    perms = list(itertools.permutations(rest))
                    if order == top:
                        perms = perms[:1] + perms[-1:] if len(perms) > 1 else perms
                    for cols in perms:
                        for cf in ['list', 'tuple'] + (['int'] if len(cols) == 1 else []):
                            yield Ob('ops.t2mat', dict(order=order, r=rows, rf=rf, c=cols, cf=cf), t2mat)
    for order in range(1, (8 if tier == 'quick' else 16) + 1):
        yield Ob('ops.vectorize', dict(order=order), vec)


def form(v, f):
    return v[0] if f == 'int' else list(v) if f == 'list' else tuple(v)


def t2mat(K):
    c = K.ob.config
    ops = K.mod('tensorD.base.ops')
    x = K.const('x', K.dims(*['I%d' % i for i in range(c['order'])]))
    r = form(c['r'], c['rf'])
    if c['cf'] == 'rest':
        col, cols = -1, [a for a in range(c['order']) if a not in c['r']]
    else:
        col, cols = form(c['c'], c['cf']), c['c']
    got = ops.t2mat(x, r, col)
    K.eq('layout', got, spec.regroup(x.val, [list(c['r']), list(cols)]))
    K.same('r_axis unmodified', r, form(c['r'], c['rf']))
    K.same('c_axis unmodified', col, -1 if c['cf'] == 'rest' else form(c['c'], c['cf']))


def vec(K):
    n = K.ob.config['order']
    ops = K.mod('tensorD.base.ops')
    x = K.const('x', K.dims(*['I%d' % i for i in range(n)]))
    v = ops.vectorize(x)
    K.eq('row-major', v, spec.regroup(x.val, [list(range(n))]))
    shape = x.get_shape().as_list()
    K.eq('undone by reshape', ops.vec_to_tensor(v, shape), x.val)
    K.eq('tuple shape', ops.vec_to_tensor(v, tuple(shape)), x.val)
    w = spec.regroup(x.val, [list(range(n))])
    K.eq('vec_to_tensor', ops.vec_to_tensor(K.tf.constant(wrap(w)), shape), x.val)
    K.same('shape unmodified', list(shape), x.get_shape().as_list())
