import itertools
from pv.contract import Ob
from . import spec

FUNCS = ['tensorD.base.ops.hadamard', 'tensorD.base.ops._skip']


def skips(n, tier):
    """every skip argument (None, int, list in both orders) leaving at least one matrix"""
    yield None
    for i in range(n):
        if n > 1:
            yield i
    full = 5 if tier == 'quick' else 7
    for k in range(0, n):
        cs = list(itertools.combinations(range(n), k))
        if n > full:
            cs = cs[:2] + cs[-2:] if len(cs) > 4 else cs
        for c in dict.fromkeys(cs):
            yield list(c)
            if k > 1:
                yield list(c[::-1])


def kept(n, sk):
    if sk is None:
        return list(range(n))
    sk = [sk] if isinstance(sk, int) else sk
    return [i for i in range(n) if i not in sk]


def obligations(tier):
    top = 10 if tier == 'quick' else 24
    for n in range(1, top + 1):
        for sk in skips(n, tier):
            yield Ob('ops.hadamard', dict(n=n, skip=sk, rank=2), hadamard)
    for rank in (1, 3):
        yield Ob('ops.hadamard', dict(n=3, skip=1, rank=rank), hadamard)


def hadamard(K):
    c = K.ob.config
    ops = K.mod('tensorD.base.ops')
    d = K.dims(*['I%d' % i for i in range(c['rank'])])
    ms = [K.const('m%d' % i, d) for i in range(c['n'])]
    arg = list(ms)
    sk = list(c['skip']) if isinstance(c['skip'], list) else c['skip']
    got = ops.hadamard(arg, sk)
    K.eq('product over the kept positions', got, spec.hadamard([ms[i].val for i in kept(c['n'], c['skip'])]))
    K.true('input list unmodified', len(arg) == len(ms) and all(a is b for a, b in zip(arg, ms)))
    K.same('skip unmodified', sk, c['skip'])
    if sk is None:
        K.eq('default', ops.hadamard(ms), spec.hadamard([m.val for m in ms]))
    else:
        K.eq('keyword', ops.hadamard(ms, skip_matrices_index=sk),
             spec.hadamard([ms[i].val for i in kept(c['n'], c['skip'])]))
