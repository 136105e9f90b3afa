import numpy as np
from .lib import *
from .C01 import shape_of, tfc


def mode_product(t, m, n, tr):
    m = m.T if tr else m
    t = np.moveaxis(t, n, 0)
    r = np.zeros((m.shape[0],) + t.shape[1:])
    for j in range(m.shape[0]):
        for k in range(m.shape[1]):
            r[j] += float(m[j, k]) * t[k]
    return np.moveaxis(r, 0, n)


def run(case):
    import tensorD.base.ops as ops
    c, g = Ctx(case), case['config']
    order, tr = g['order'], g['t']
    x = c.arr('x', shape_of(c, order))
    hi = 4 if order < 6 else 2
    if g['kind'] in ('both', 'single'):
        ms = [c.arr('m%d' % i, [c.dim('J%d' % i), x.shape[i]]) for i in range(3)]
        if g['kind'] == 'single':
            for i in range(3):
                close('single matrix', ev(ops.ttm(tfc(x), tfc(ms[i]), axis=[i])), mode_product(x.astype(float), ms[i], i, False))
            return
        for ax in ([0, 1], [0], []):
            for sk in ([2], 2, 0, [0, 1], []):
                raises('axis and skip', ValueError, lambda: ops.ttm(tfc(x), [tfc(m) for m in ms], axis=ax, skip_matrices_index=sk))
        return

    def mat(i):
        J = c.dim('J%d' % i, 1, hi)
        return c.arr('m%d' % i, [x.shape[i], J] if tr else [J, x.shape[i]])
    kw = dict(transpose=tr)
    if g['kind'] in ('all', 'prefix'):
        axes = list(range(g.get('n', order)))
        mats = [mat(i) for i in axes]
        use = list(zip(axes, mats))
    elif g['kind'] == 'axis':
        axes = list(g['axis'])
        mats = [mat(i) for i in axes]
        kw['axis'] = list(axes)
        use = list(zip(axes, mats))
    else:
        mats = [mat(i) for i in range(g['m'])]
        kw['skip_matrices_index'] = g['skip'][0] if g['kind'] == 'skip1' else list(g['skip'])
        use = [(i, mats[i]) for i in range(g['m']) if i not in g['skip']]
    want = x.astype(float)
    for i, m in use:
        want = mode_product(want, m, i, tr)
    arg = [tfc(m) for m in mats]
    arg0, kw0 = list(arg), {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    close('ttm', ev(ops.ttm(tfc(x), arg, **kw)), want)
    true('matrix list unmodified', len(arg) == len(arg0) and all(a is b for a, b in zip(arg, arg0)))
    same('arguments unmodified', kw, kw0)
