import random
import numpy as np
from .lib import *
from .C01 import tfc, oracle_unfold
from .C07 import o_khatri, o_kron


def t2(x, rows, cols):
    return np.transpose(x, list(rows) + list(cols)).reshape(int(np.prod([x.shape[i] for i in rows])), -1)


def run(case):
    from contracts_names import names
    from tensorD.base.type import DTensor
    import tensorD.base.ops as ops
    c, g = Ctx(case), case['config']
    order = g['order']
    x = c.arr('x', [c.dim('I%d' % i) for i in range(order)])
    y = c.arr('y', x.shape)
    new = lambda: DTensor(tfc(x) if g['source'] == 'tensor' else x.copy())

    def check(what, res, want):
        true(what + ' gives a DTensor', isinstance(res, DTensor))
        close(what, ev(res.T), want)
        same(what + ' shape', [int(s) for s in res.shape], list(np.shape(want)))

    def apply(o, op):
        kind, a = op[0], op[1:]
        a = tuple(tuple(v) if isinstance(v, list) else v for v in a)
        if kind == 'vectorize':
            check(kind, o.vectorize(), x.ravel())
        elif kind == 'get_shape':
            same(kind, o.get_shape().as_list(), list(x.shape))
        elif kind == 'eval':
            from . import lib
            with lib.tf.Session().as_default():
                exact(kind, o.eval(), x)
        elif kind in ('add', 'hadamard', 'sub'):
            other = {'D': lambda: DTensor(tfc(y)), 't': lambda: tfc(y), 'n': lambda: y.copy(), 's': lambda: 2.5}[a[0]]()
            f = {'add': lambda p, q: p + q, 'hadamard': lambda p, q: p * q, 'sub': lambda p, q: p - q}[kind]
            check(kind, f(o, other), f(x.astype(float), 2.5 if a[0] == 's' else y))
        elif kind == 'getitem':
            close(kind, ev(o[:, 0] if a else o[0]), x[:, 0] if a else x[0])
        elif kind == 'unfold':
            check(kind, o.unfold() if a[0] == 'default' else o.unfold(a[0]), oracle_unfold(x, 0 if a[0] == 'default' else a[0]))
        elif kind == 'fold':
            check(kind, DTensor.fold(tfc(oracle_unfold(x, a[0])), a[0], list(x.shape)), x)
        elif kind == 't2mat':
            rows = [a[0]] if isinstance(a[0], int) else list(a[0])
            cols = [i for i in range(order) if i not in rows] if a[1] == -1 else list(a[1])
            check(kind, o.t2mat(a[0] if isinstance(a[0], int) else list(a[0]), a[1] if a[1] == -1 else list(a[1])), t2(x, rows, cols))
        elif kind == 'mul':
            p, q = ([0], [0]) if a[0] == 'default' else [[v] if isinstance(v, int) else list(v) for v in a]
            dz = [c.dim('Z%d' % i) for i in range(2)]
            for i, j in zip(p, q):
                dz[j] = x.shape[i]
            z = c.arr('z%s%s' % (p, q), dz)
            want = np.tensordot(x.astype(float), z.astype(float), (p, q))
            if a[0] == 'default':
                check(kind, o.mul(DTensor(tfc(z))), want)
            else:
                check(kind, o.mul(DTensor(tfc(z)), *[v if isinstance(v, int) else list(v) for v in a]), want)
        else:
            z = c.arr('w' + kind, [c.dim('W0'), x.shape[1] if kind == 'khatri' else c.dim('W1')])
            check(kind, getattr(o, kind)(DTensor(tfc(z)) if a[0] == 'D' else tfc(z)), (o_kron if kind == 'kron' else o_khatri)([x, z]))
        exact('held tensor unchanged after ' + kind, ev(o.T), x)

    if case['func'] != 'DTensor':
        apply(new(), (case['func'].split('.')[1],) + tuple(g['args']))
        return
    ops_ = names(order)
    rnd = random.Random(case.get('seed', 0))
    for _ in range(3):
        o = new()
        for _ in range(7):
            apply(o, rnd.choice(ops_))
