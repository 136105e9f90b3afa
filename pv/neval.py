"""Numeric evaluation of normal forms: used to refute an equality (a concrete
separating valuation) and to cross-check the normaliser and the primitive contracts."""
import numpy as np
from . import alg
from .alg import P, kind_of, DEFS


class NoEval(Exception):
    pass


class Env(object):
    def __init__(self, dims, make=None, rng=None):
        self.dims = dims          # base -> int (0-ary dimension symbols)
        self.vals = {}            # base -> ndarray / callable
        self.make = make          # callable(base, nargs) -> ndarray for unknown inputs
        self.cache = {}
        self.rng = rng or np.random.RandomState(0)

    def scalar(self, p):
        return float(self.tensor(p, [], []))

    def dim(self, p):
        if p.is_const():
            return int(p.const)
        return int(round(float(self.tensor(p, [], []))))

    # ndarray over variables `vs` with sizes `ds`
    def tensor(self, p, vs, ds):
        vd = dict(zip(vs, ds))
        out = np.zeros(tuple(ds))
        for t, c in p.t.items():
            out = out + float(c) * self._term(t, vs, vd)
        return out

    def _term(self, t, vs, vd):
        vd = dict(vd)
        for i, d in enumerate(t.b):
            vd[i] = self.dim(d)
        ops = []
        ids = {}

        def vid(v):
            if v not in ids:
                ids[v] = len(ids)
            return ids[v]
        for v in vs:
            vid(v)
        for i in range(len(t.b)):
            vid(i)
        used = set()
        for a, e in t.f:
            av = sorted(alg.atom_vars(a), key=str)
            for v in av:
                if v not in vd:
                    raise NoEval('unbound variable %r' % (v,))
            arr = self._atom(a, av, [vd[v] for v in av])
            if e != 1:
                with np.errstate(all='ignore'):
                    arr = np.asarray(arr, float) ** e
            ops += [arr, [vid(v) for v in av]]
            used.update(av)
        for v in list(vs) + list(range(len(t.b))):
            if v not in used:
                ops += [np.ones(vd[v]), [vid(v)]]
        if not ops:
            return np.float64(1.0)
        return np.einsum(*ops, [vid(v) for v in vs], optimize='greedy')

    def _idx(self, p, av, ds):
        """index polynomial -> integer ndarray broadcastable over grid av"""
        grid = np.zeros(tuple(ds)) + self.tensor(p, av, ds)
        return np.rint(grid).astype(int)

    def _atom(self, a, av, ds):
        if a[0] == 'v':
            return np.arange(ds[0], dtype=float)
        base, args = a[1], a[2]
        key = (a, tuple(ds))
        if key in self.cache:
            return self.cache[key]
        r = self._base(base, args, av, ds)
        self.cache[key] = r
        return r

    def _args(self, args, av, ds):
        return [self._idx(p, av, ds) for p in args]

    def _base(self, base, args, av, ds):
        k = kind_of(base)
        if base == 'delta':
            x, y = self._args(args, av, ds)
            return (x == y).astype(float)
        if k == 'lt':
            x, y = [self.tensor(p, av, ds) for p in args]
            return (x < y).astype(float)
        if base in self.dims:
            return np.float64(self.dims[base])
        d = DEFS.get(base)
        if d is None or k == 'input':
            if base not in self.vals:
                if self.make is None:
                    raise NoEval('no value for ' + base)
                self.vals[base] = self.make(base, len(args))
            val = self.vals[base]
            if callable(val):
                return val(self, self._args(args, av, ds))
            if not args:
                return np.float64(val)
            idx = tuple(self._args(args, av, ds))
            for n, ix in enumerate(idx):
                if ix.size and (ix.min() < 0 or ix.max() >= val.shape[n]):
                    # out-of-range reads can only be multiplied by a zero indicator
                    pass
            idx = tuple(np.clip(ix, 0, max(0, val.shape[n] - 1)) for n, ix in enumerate(idx))
            return val[idx]
        if k == 'imin':
            return np.float64(min(self.dim(x) for x in d['of']))
        if d.get('matrix'):
            val = self._matrix(base, d, k)
            if callable(val):
                return val(self._args(args, av, ds))
            idx = tuple(self._args(args, av, ds))
            if not idx:
                return np.float64(val)
            return val[tuple(np.clip(ix, 0, max(0, val.shape[n] - 1)) for n, ix in enumerate(idx))]
        # lambda-lifted scalar function: evaluate the body on the grid of its arguments
        params = d['params']
        bound = d.get('bound', [])
        bd = [self.dim(x) for _, x in bound]
        if all(p._var is not None for p in args) and len({p._var for p in args}) == len(args):
            m = {v: n for v, n in zip(av, ds)}
            pd = [m[p._var] for p in args]
            key = ('def', base, tuple(pd))
            if key not in self.cache:
                self.cache[key] = self._fn(k, self.tensor(d['body'], params + [b for b, _ in bound], pd + bd), len(pd), bd)
            r = self.cache[key]
            # reorder to av
            perm = [[p._var for p in args].index(v) for v in av]
            return np.transpose(r, perm) if perm else r
        # general arguments: evaluate pointwise
        ixs = self._args(args, av, ds)
        if not ixs:
            return self._fn(k, self.tensor(d['body'], [b for b, _ in bound], bd), 0, bd)
        out = np.zeros(np.shape(ixs[0]))
        for pos in np.ndindex(*out.shape):
            m = {q: alg.CONST(int(ix[pos])) for q, ix in zip(params, ixs)}
            body = d['body'].subst(m)
            out[pos] = self._fn(k, self.tensor(body, [b for b, _ in bound], bd), 0, bd)
        return out

    def _fn(self, k, x, n, bd):
        x = np.asarray(x, float)
        ax = tuple(range(n, n + len(bd)))
        with np.errstate(all='ignore'):
            if k == 'let':
                return np.where(np.abs(x) < 1e-12, 0.0, x)
            if k == 'poly':
                return x
            if k == 'sqrt':
                return np.sqrt(x)
            if k == 'gt0':
                return (x > 1e-9).astype(float)
            if k == 'ne0':
                return (np.abs(x) > 1e-9).astype(float)
            if k == 'rmax':
                return x.max(axis=ax)
            if k == 'rmin':
                return x.min(axis=ax)
            if k == 'rprod':
                return x.prod(axis=ax)
            if k == 'pow':
                return np.power(np.take(x, 0, axis=ax[0]), np.take(x, 1, axis=ax[0]))
            if k == 'idiv':
                return np.floor_divide(np.take(x, 0, axis=ax[0]), np.take(x, 1, axis=ax[0]))
            if k == 'imod':
                return np.mod(np.take(x, 0, axis=ax[0]), np.take(x, 1, axis=ax[0]))
            if k == 'floor':
                return np.floor(x)
            if k == 'trunc':
                return np.trunc(x)
        raise NoEval('no numeric meaning for ' + k)

    def _matrix(self, base, d, k):
        key = ('mat', base)
        if key in self.cache:
            return self.cache[key]
        if k in ('svds', 'svdu', 'svdv', 'pinv'):
            M = self.tensor(d['body'], [b for b, _ in d['bound']], [self.dim(x) for _, x in d['bound']])
            if k == 'pinv':
                r = np.linalg.pinv(M, rcond=1e-10)
            else:
                u, s, vt = np.linalg.svd(M, full_matrices=True)
                r = {'svds': s, 'svdu': u, 'svdv': vt.T}[k]
        elif k == 'scatter':
            n = self.dim(d['n'])
            idx = [np.rint(self.tensor(p, [d['var']], [n])).astype(int) for p in d['idx']]
            vals = self.tensor(d['val'], [d['var']], [n])
            shape = [self.dim(x) for x in d['shape']]
            r = np.zeros(shape)
            for j in range(n):
                r[tuple(ix[j] for ix in idx)] = vals[j]
        else:
            raise NoEval(k)
        self.cache[key] = r
        return r
