from pv.contract import Ob
from pv import alg, npstub as N, tfstub as F, symex as S
from pv.symex import ENG
from pv.alg import VAR, newvar
from . import spec

FUNCS = ['tensorD.dataproc.reader.TensorReader.%s' % f for f in ('__init__', 'read', 'full_data', 'sparse_data')]
ASSUMES = ['csv.reader yields one list of strings per line, the empty list for an empty line',
           'int() and float() of a column give its number',
           'distinct rows hold distinct coordinates, or the last one wins']


def obligations(tier):
    for order in range(1, 6 if tier == 'quick' else 9):
        for ext in ('csv', 'txt'):
            for shape in ('none', 'list', 'tuple'):
                yield Ob('read', dict(order=order, ext=ext, shape=shape), read)
    for p in ('d.tsv', 'd.dat', 'd', 'd.csv.gz', 'd.csvx', 'd.'):
        yield Ob('read rejects', dict(path=p), reject)


def with_file(f):
    def hook(path, mode):
        hook.paths.append((path, mode))
        return f
    hook.paths = []
    return hook


def read(K):
    g = K.ob.config
    R = K.mod('tensorD.dataproc.reader')
    f = N.CsvFile('file', g['order'])
    path = '/data/dir.v2/x.' + g['ext']
    h = with_file(f)
    ENG.open_hook = h
    try:
        r = R.TensorReader(path)
        if g['shape'] == 'none':
            r.read()
        else:
            sh = [K.intdim('I%d' % i) for i in range(g['order'])]
            for j in range(g['order']):
                S.RANGE['file.i%d' % j] = (alg.ZERO, K.dim('I%d' % j), 'int64')
            r.read(sh if g['shape'] == 'list' else tuple(sh))
    finally:
        ENG.open_hook = None
    K.true('reads that file', [p for p, m in h.paths] == [path], str(h.paths))
    n = K.dim('file.entries')
    k = newvar(n)
    ij = [alg.EL('file.i%d' % j, [VAR(k)]) for j in range(g['order'])]
    if g['shape'] == 'none':
        dims = []
        for j in range(g['order']):
            w = newvar(n)
            dims.append(alg.reduce_fn('rmax', alg.EL('file.i%d' % j, [VAR(w)]), w, n) + 1)
    else:
        dims = K.dims(*['I%d' % i for i in range(g['order'])])
    K.eq('each entry at its coordinates, zero elsewhere', r.full_data,
         F.scatter_tv(n, k, ij, alg.EL('file.v', [VAR(k)]), dims, 'float64'))


def reject(K):
    R = K.mod('tensorD.dataproc.reader')
    f = N.CsvFile('file', 3)
    ENG.open_hook = with_file(f)
    import ctypes
    try:
        K.raises('unsupported file type', (ctypes.ArgumentError,), lambda: R.TensorReader(K.ob.config['path']).read())
    finally:
        ENG.open_hook = None
