import importlib
import numpy as np
from .lib import *
from . import lib
from . import pitf


def run(case):
    c, g = Ctx(case), case['config']
    b, f = g['backend'], case['func']
    M = importlib.import_module('tensorD.base.pitf_ops' + ('' if b == 'tf' else '_numpy'))
    r = c.rng('sz')
    for rep in range(2):
        sh = [int(x) for x in r.randint(1, 6, size=3)]
        n = int(r.randint(1, 12))
        if f == 'sample3D_rule':
            n = 200
            s = M.sample3D_rule(sh, n)
            s = ev(*s) if b == 'tf' else s
            same('three lists', len(s), 3)
            for k in range(3):
                a = np.asarray(s[k])
                same('one per sample', a.shape, (n,))
                true('integers', a.dtype.kind == 'i', str(a.dtype))
                true('inside mode %d' % k, a.min() >= 0 and a.max() < sh[k], '%s of %d' % (a[:9], sh[k]))
                true('every index can be drawn', len(set(a.tolist())) == sh[k], '%s of %d' % (sorted(set(a.tolist())), sh[k]))
            continue
        ix = [r.randint(0, d, size=n) for d in sh]
        if rep:
            for k in range(3):
                ix[k][n // 2:] = ix[k][:n - n // 2]        # repeated positions
        spl = [lib.tf.constant(x.astype('int32')) for x in ix] if b == 'tf' else [x.copy() for x in ix]
        ops = (lib.tf.constant if b == 'tf' else np.array)
        e = ev if b == 'tf' else np.asarray
        kind = g.get('shape', 'list')
        shp = tuple(sh) if kind == 'tuple' else lib.tf.constant(sh) if kind == 'tensor' else list(sh)
        for dt in (('float32', 'float64') if b == 'tf' else ('float64',)):
            if f == 'Pomega_mat':
                p, q, o = pitf.PAIRS[g['dim']]
                m = c.arr('m%d%s' % (rep, dt), (sh[p], sh[q]), dt)
                close('Pomega_mat %s %s' % (sh, n), e(M.Pomega_mat(spl, ops(m), shp, n, g['dim'])),
                      pitf.sample_mat(m, ix[p], ix[q], sh[o]))
            elif f == 'adjoint_operator':
                p, q, o = pitf.PAIRS[g['dim']]
                v = c.arr('v%d%s' % (rep, dt), (n,), dt)
                close('adjoint_operator %s %s' % (sh, [x.tolist() for x in ix]),
                      e(M.adjoint_operator(spl, ops(v), shp, n, g['dim'])), pitf.place(v, ix[p], ix[q], sh[p], sh[q]))
            elif f == 'Pomega_tensor':
                x = c.arr('x%d%s' % (rep, dt), sh, dt)
                close('Pomega_tensor', e(M.Pomega_tensor(spl, ops(x), n) if b == 'tf' else
                                         M.Pomega_tensor(spl, ops(x), list(sh), n)), x[tuple(ix)])
            else:
                ms = [c.arr('%s%d%s' % (k, rep, dt), (sh[p], sh[q]), dt) for k, (p, q, o) in zip('XYZ', pitf.PAIRS)]
                w = sum(pitf.sample_mat(m, ix[p], ix[q], sh[o]) for m, (p, q, o) in zip(ms, pitf.PAIRS))
                close('Pomega_Pair', e(M.Pomega_Pair(spl, ops(ms[0]), ops(ms[1]), ops(ms[2]), list(sh), n)), w)
