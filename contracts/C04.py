import itertools
from pv.contract import Ob
from . import spec
from pv.tv import TV

FUNCS = ['tensorD.base.ops.mul', 'tensorD.base.ops.t2mat']


def obligations(tier):
    top = 3 if tier == 'quick' else 4
    for p in range(1, top + 1):
        for q in range(1, top + 1):
            for k in range(1, min(p, q) + 1):
                A = list(itertools.permutations(range(p), k))
                B = list(itertools.permutations(range(q), k))
                if tier == 'quick' and len(A) * len(B) > 12:
                    pairs = [(A[i % len(A)], B[(i * 5 + 1) % len(B)]) for i in range(12)]
                else:
                    pairs = itertools.product(A, B)
                for n, (a, b) in enumerate(pairs):
                    f = ['list', 'tuple'][n % 2]
                    yield Ob('ops.mul', dict(p=p, q=q, a=a, b=b, f=f), mul)
                    if k == 1:
                        yield Ob('ops.mul', dict(p=p, q=q, a=a, b=b, f='int'), mul)


def mul(K):
    c = K.ob.config
    ops = K.mod('tensorD.base.ops')
    da = K.dims(*['I%d' % i for i in range(c['p'])])
    db = K.dims(*['J%d' % i for i in range(c['q'])])
    for i, j in zip(c['a'], c['b']):
        db[j] = da[i]
    x, y = K.const('x', da), K.const('y', db)
    form = {'int': lambda v: v[0], 'list': list, 'tuple': tuple}[c['f']]
    a, b = form(c['a']), form(c['b'])
    got = ops.mul(x, y, a, b)
    ra = [i for i in range(c['p']) if i not in c['a']]
    rb = [j for j in range(c['q']) if j not in c['b']]

    def entry(*ix):
        def term(*ks):
            xi, yi = [None] * c['p'], [None] * c['q']
            for i, v in zip(ra, ix):
                xi[i] = v
            for j, v in zip(rb, ix[len(ra):]):
                yi[j] = v
            for i, j, v in zip(c['a'], c['b'], ks):
                xi[i], yi[j] = v, v
            return x.val.at(*xi) * y.val.at(*yi)
        return spec.sum_([da[i] for i in c['a']], term)
    K.eq('contraction', got, TV.build([da[i] for i in ra] + [db[j] for j in rb], entry))
    K.same('axes unmodified', (a, b), (form(c['a']), form(c['b'])))
