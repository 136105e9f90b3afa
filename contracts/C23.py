from pv.contract import Ob
from pv import alg
from . import spec, pitf_spec as PS

FUNCS = ['tensorD.base.pitf_ops.%s' % f for f in ('generate', 'centralization', 'subspace', 'sample_rule4mat')] + \
        ['tensorD.base.pitf_ops_numpy.%s' % f for f in ('generate', 'centralization', 'subspace', 'sample_rule4mat')]
MODS = dict(tf='tensorD.base.pitf_ops', np='tensorD.base.pitf_ops_numpy')


def obligations(tier):
    for b in ('tf', 'np'):
        yield Ob('centralization', dict(backend=b), centralization)
        for m in 'ABC':
            yield Ob('subspace', dict(backend=b, mode=m), subspace)
        yield Ob('sample_rule4mat', dict(backend=b), rule4mat)


def centralization(K):
    b = K.ob.config['backend']
    m = K.mod(MODS[b])
    x = K.const('x', K.dims('I', 'J'), 'float32') if b == 'tf' else K.arr('x', K.dims('I', 'J'), 'float64')
    x0 = K.val(x)
    K.eq('columns minus their means', m.centralization(x), PS.centre(x0))
    K.eq('argument unmodified', x, x0)


def factors(K, shape, rank, seen=0):
    """the two fresh standard-normal draws of these sizes"""
    ds = K.draws()[seen:]
    K.true('two random factors', len(ds) == 2, '%d random draws' % len(ds))
    K.true('normally distributed', all(d[1] == 'normal' for d in ds), 'draws of kind %s' % [d[1] for d in ds])
    u = [d[0] for d in ds if d[0].shape == [alg.lift_num(shape[0]), alg.lift_num(rank)]]
    v = [d[0] for d in ds if d[0].shape == [alg.lift_num(shape[1]), alg.lift_num(rank)]]
    K.true('of the requested sizes and rank', len(u) == 1 and len(v) == 1, 'sizes %s' % [d[0].shape for d in ds])
    return u[0], v[0]


def subspace(K):
    g = K.ob.config
    m = K.mod(MODS[g['backend']])
    I, J, R = K.intdim('I'), K.intdim('J'), K.intdim('R')
    r = m.subspace((I, J), R, g['mode'])
    K.val(r)
    u, v = factors(K, K.dims('I', 'J'), K.dim('R'))
    K.eq('projected product', r, PS.project(spec.matmul(u, v, tb=True), g['mode']))


def rule4mat(K):
    b = K.ob.config['backend']
    m = K.mod(MODS[b])
    sh = [K.intdim('I%d' % i) for i in range(3)]
    rk = [K.intdim(r) for r in ('RA', 'RB', 'RC')]
    r = m.sample_rule4mat(sh, *rk) if b == 'tf' else m.sample_rule4mat(sh, *(rk + [K.intdim('n')]))
    K.true('three matrices', len(r) == 3)
    D = K.dims('I0', 'I1', 'I2')
    RD = K.dims('RA', 'RB', 'RC')
    ds = K.draws()
    K.true('six random factors', len(ds) == 6 and all(d[1] == 'normal' for d in ds))
    for n, (p, q, _) in enumerate(PS.PAIRS):
        u = [d[0] for d in ds if d[0].shape == [D[p], RD[n]]]
        v = [d[0] for d in ds if d[0].shape == [D[q], RD[n]]]
        K.true('factor sizes', len(u) == 1 and len(v) == 1)
        K.eq('matrix ' + 'ABC'[n], r[n], PS.project(spec.matmul(u[0], v[0], tb=True), 'ABC'[n]))
