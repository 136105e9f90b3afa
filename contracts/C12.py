from pv.contract import Ob
from pv import alg
from . import spec

FUNCS = ['tensorD.loss.l2', 'tensorD.loss.rmse', 'tensorD.loss.rmse_ignore_zero']


def obligations(tier):
    for order in range(0, (8 if tier == 'quick' else 16) + 1):
        for dt in ('float32', 'float64'):
            yield Ob('loss', dict(order=order, dtype=dt), losses)
    yield Ob('loss', dict(case='reject'), reject)


def losses(K):
    c = K.ob.config
    loss = K.mod('tensorD.loss')
    d = K.dims(*['I%d' % i for i in range(c['order'])])
    f, h = K.const('f', d, c['dtype']), K.const('h', d, c['dtype'])
    dt = c['dtype']

    def sq(*i):
        e = f.val.at(*i) - h.val.at(*i)
        return e * e
    S = spec.sum_(d, sq)
    K.eq('l2', loss.l2(f, h), spec.scalar(S * alg.CONST(1) * alg.lift_num(0.5), dt))
    n = alg.ONE
    for x in d:
        n = n * x
    K.eq('rmse', loss.rmse(f, h), spec.scalar(alg.sqrt(S * alg.inv(n)), dt))
    Z = spec.sum_(d, lambda *i: sq(*i) * alg.ne0(f.val.at(*i)))
    cnt = spec.sum_(d, lambda *i: alg.ne0(f.val.at(*i)))
    K.eq('rmse_ignore_zero', loss.rmse_ignore_zero(f, h), spec.scalar(alg.sqrt(Z * alg.inv(cnt)), dt))
    K.eq('reference unmodified', f, f.val)


def reject(K):
    loss = K.mod('tensorD.loss')
    err = K.mod('tensorD.base').TensorErr
    for s, t in (((2, 3), (3, 2)), ((2, 3), (6,)), ((2, 3), (2, 3, 1)), ((1, 3), (2, 3)), ((2, 3), (1, 3)),
                 ((2, 3), (3,)), ((2, 3), ()), ((4,), (1,)), ((2, 2, 3), (2, 3, 2))):
        a, b = K.const('a%s%s' % (s, t), s), K.const('b%s%s' % (s, t), t)
        K.raises('rmse rejects', err, lambda: loss.rmse(a, b))
        K.raises('rmse_ignore_zero rejects', err, lambda: loss.rmse_ignore_zero(a, b))
