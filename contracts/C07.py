from pv.contract import Ob
from . import spec
from .C06 import skips, kept

FUNCS = ['tensorD.base.ops.khatri', 'tensorD.base.ops.kron', 'tensorD.base.ops._skip']


def obligations(tier):
    # the einsum alphabets end at 25 (khatri) and 13 (kron) matrices: these orders are all there are
    for f, top in (('khatri', 25), ('kron', 13)):
        for n in range(1, top + 1):
            sk = list(skips(n, tier)) if n <= (6 if tier == 'quick' else 8) else [None] + list(range(n)) + [[0, n - 1], [1, 2]]
            for s in sk:
                for rev in (False, True):
                    yield Ob('ops.' + f, dict(n=n, skip=s, reverse=rev), prod)


def prod(K):
    c = K.ob.config
    ops = K.mod('tensorD.base.ops')
    n = c['n']
    kh = K.ob.func == 'ops.khatri'
    ms = [K.const('m%d' % i, K.dims('I%d' % i, 'R' if kh else 'J%d' % i)) for i in range(n)]
    arg = list(ms)
    sk = list(c['skip']) if isinstance(c['skip'], list) else c['skip']
    use = [ms[i].val for i in kept(n, c['skip'])]
    if c['reverse']:
        use = use[::-1]
    fn = ops.khatri if kh else ops.kron
    want = (spec.khatri if kh else spec.kron)(use)
    K.eq('product in list order', fn(arg, sk, c['reverse']), want)
    K.eq('keywords', fn(arg, reverse=c['reverse'], skip_matrices_index=sk), want)
    if not c['reverse']:
        K.eq('default order', fn(arg, sk), want)
    if c['reverse']:
        K.eq('reverse = the reversed list', fn([ms[i] for i in kept(n, c['skip'])][::-1]), want)
    K.true('input list unmodified', len(arg) == len(ms) and all(a is b for a, b in zip(arg, ms)))
    K.same('skip unmodified', sk, c['skip'])
