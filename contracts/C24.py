from pv.contract import Ob
from pv import alg, symex as S
from . import spec, pitf_spec as PS

FUNCS = ['tensorD.base.pitf_ops.%s' % f for f in
         ('sample3D_rule', 'Pomega_mat', 'index_value_append', 'adjoint_operator', 'Pomega_tensor', 'Pomega_Pair')] + \
        ['tensorD.base.pitf_ops_numpy.%s' % f for f in
         ('sample3D_rule', 'Pomega_mat', 'adjoint_operator', 'Pomega_tensor', 'Pomega_Pair')]
MODS = dict(tf='tensorD.base.pitf_ops', np='tensorD.base.pitf_ops_numpy')
ASSUMES = ['tf.random_uniform and numpy.random.randint draw integers from their half-open range',
           'SparseTensor to dense and array stores: a later store to the same place wins']


def obligations(tier):
    for b in ('tf', 'np'):
        yield Ob('sample3D_rule', dict(backend=b), rule)
        for d in range(3):
            for sh in ('list', 'tensor') if b == 'tf' else ('list', 'tuple'):
                yield Ob('Pomega_mat', dict(backend=b, dim=d, shape=sh), pomega_mat)
                yield Ob('adjoint_operator', dict(backend=b, dim=d, shape=sh), adjoint)
        yield Ob('Pomega_tensor', dict(backend=b), pomega_tensor)
        yield Ob('Pomega_Pair', dict(backend=b), pomega_pair)


def shapes(K, kind):
    s = [K.intdim('I%d' % i) for i in range(3)]
    if kind == 'tuple':
        return tuple(s)
    return s


def rule(K):
    b = K.ob.config['backend']
    m = K.mod(MODS[b])
    n = K.intdim('n')
    r = m.sample3D_rule(shapes(K, 'list'), n)
    K.true('three index lists', len(r) == 3)
    for i in range(3):
        t = K.val(r[i])
        K.true('integers', t.dtype.startswith('int'), t.dtype)
        K.true('one index per sample', t.rank == 1 and t.size(0) == K.dim('n'))
        e = t.at(alg.VAR(alg.newvar(K.dim('n'))))
        K.true('not negative', ~S.gt(-e) if isinstance(S.gt(-e), S.Cond) else not S.gt(-e))
        K.true('below the size of its mode', S.gt(K.dim('I%d' % i) - e))
        K.true('drawn at random', any(e2 in [d[0].at(*(list(t.shape and [alg.VAR(v) for v in e.freevars()])))
                                             for d in K.draws()] for e2 in [e]) or bool(e.freevars()))


def samples(K):
    b = K.ob.config['backend']
    ix = [K.index(c, K.dim('n'), K.dim('I%d' % i), 'int32' if b == 'tf' else 'int64') for i, c in enumerate('abc')]
    if b == 'tf':
        return ix, [K.tf.constant(wrapi(x)) for x in ix]
    return ix, [wrapi(x) for x in ix]


def wrapi(x):
    from pv import npstub as N
    return N.NDArray(x)


def dtypes(K):
    return ('float32', 'float64') if K.ob.config['backend'] == 'tf' else ('float64',)


def mk(K, name, dims, dt):
    return K.const(name, dims, dt) if K.ob.config['backend'] == 'tf' else K.arr(name, dims, dt)


def shp(K):
    k = K.ob.config.get('shape', 'list')
    if k == 'tensor':
        x = K.tf.constant(K.arr('x', K.dims('I0', 'I1', 'I2')))
        return K.tf.shape(x)
    return shapes(K, k)


def pomega_mat(K):
    m = K.mod(MODS[K.ob.config['backend']])
    D = K.dims('I0', 'I1', 'I2')
    p, q, o = PS.PAIRS[K.ob.config['dim']]
    ix, spl = samples(K)
    for dt in dtypes(K):
        mat = mk(K, 'm' + dt, [D[p], D[q]], dt)
        m0 = K.val(mat)
        r = m.Pomega_mat(spl, mat, shp(K), K.intdim('n'), K.ob.config['dim'])
        K.eq('scaled entries at the sample indices', r, PS.sample_mat(m0, ix[p], ix[q], D[o]))
        K.eq('matrix unmodified', mat, m0)


def adjoint(K):
    m = K.mod(MODS[K.ob.config['backend']])
    D = K.dims('I0', 'I1', 'I2')
    p, q, o = PS.PAIRS[K.ob.config['dim']]
    ix, spl = samples(K)
    for dt in dtypes(K):
        v = mk(K, 'v' + dt, K.dims('n'), dt)
        v0 = K.val(v)
        r = m.adjoint_operator(spl, v, shp(K), K.intdim('n'), K.ob.config['dim'])
        K.eq('sample i at its place', r, PS.place(v0, ix[p], ix[q], D[p], D[q]))


def pomega_tensor(K):
    b = K.ob.config['backend']
    m = K.mod(MODS[b])
    D = K.dims('I0', 'I1', 'I2')
    ix, spl = samples(K)
    for dt in dtypes(K):
        x = mk(K, 'x' + dt, D, dt)
        x0 = K.val(x)
        n = K.intdim('n')
        r = m.Pomega_tensor(spl, x, n) if b == 'tf' else m.Pomega_tensor(spl, x, shapes(K, 'list'), n)
        K.eq('entries at the sample indices', r, PS.sample_tensor(x0, ix))


def pomega_pair(K):
    m = K.mod(MODS[K.ob.config['backend']])
    D = K.dims('I0', 'I1', 'I2')
    ix, spl = samples(K)
    for dt in dtypes(K):
        ms = [mk(K, c + dt, [D[p], D[q]], dt) for c, (p, q, o) in zip('XYZ', PS.PAIRS)]
        r = m.Pomega_Pair(spl, ms[0], ms[1], ms[2], shapes(K, 'list'), K.intdim('n'))
        parts = [PS.sample_mat(K.val(x), ix[p], ix[q], D[o]) for x, (p, q, o) in zip(ms, PS.PAIRS)]
        K.eq('sum of the three samplings', r, spec.build([K.dim('n')], lambda k: parts[0].at(k) + parts[1].at(k) +
                                                         parts[2].at(k), dt))
