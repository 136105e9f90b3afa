from pv.contract import Ob
from pv import alg, symex as S
from . import spec
from .C24 import MODS, mk

FUNCS = ['tensorD.base.pitf_ops.cone_projection_operator', 'tensorD.base.pitf_ops_numpy.cone_projection_operator']


def obligations(tier):
    for b in ('tf', 'np'):
        for n in ('n', '1', '3'):
            yield Ob('cone_projection_operator', dict(backend=b, length=n), cone)


def cone(K):
    g = K.ob.config
    b = g['backend']
    m = K.mod(MODS[b])
    dt = 'float32' if b == 'tf' else 'float64'
    n = alg.CONST(int(g['length'])) if g['length'].isdigit() else K.dim('n')
    x = mk(K, 'x', [n], dt)
    x0 = K.val(x)
    t0 = K.tv('t', [], dt)
    if b == 'tf':
        from pv.npstub import NDArray
        t = K.tf.constant(NDArray(t0))
    else:
        from pv.npstub import wrap
        t = wrap(t0)
    norm = alg.sqrt(spec.sum_([n], lambda i: x0.at(i) * x0.at(i)))
    tp = t0.at()
    px, pt = m.cone_projection_operator(x, t)
    px, pt = K.split(px), K.split(pt)
    inside = bool(S.neg(S.gt(norm - tp)))
    polar = not inside and bool(S.neg(S.gt(tp + norm)))
    if inside:
        sx, st = x0, t0
    elif polar:
        sx, st = spec.build([n], lambda i: alg.ZERO, dt), spec.scalar(alg.ZERO, dt)
    else:
        a = (norm + tp) * alg.inv(norm) * alg.lift_num(0.5)
        sx, st = spec.build([n], lambda i: a * x0.at(i), dt), spec.scalar(a * norm, dt)
    where = 'inside the cone' if inside else 'inside the polar cone' if polar else 'between the cones'
    if polar and px.rank == 0:
        px = spec.build([n], (lambda z: lambda i: z.at())(px), dt)
    K.eq(where + ': vector', px, sx, dtype=False)
    K.eq(where + ': height', pt, st, dtype=False)
