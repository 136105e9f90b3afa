"""Contract stub of the NumPy API used by tensorD (arrays with symbolic sizes and contents)."""
from . import alg, loop as L, symex as S, tv as T
from .alg import P, VAR, CONST, ZERO, ONE, lift_num, newvar
from .symex import Num, Cond, ENG, mk, topoly
from .tv import TV, ShapeError, Unsupported
from . import tfstub as F
from .tfstub import DT, dtname, dims_of, dimp, axes_of, Module

_RANK = {'bool': 0, 'int8': 1, 'uint8': 1, 'int16': 2, 'int32': 3, 'int64': 4, 'float16': 5, 'float32': 6, 'float64': 7}


def _isone(p):
    return p.is_const() and p.const == 1


class NDArray(object):
    """an array: owns a cell (`_tv`) or is a view of another array"""
    __array_priority__ = 1000
    _heap = True

    def __init__(self, tv, root=None, vmap=None, ro=False):
        self._tv = tv
        self.root = root
        self.vmap = vmap
        self.ro = ro
        self._pv_stamp = ENG.loops[-1].stamp if ENG.loops else None

    # ---- content
    def _foreign(self):
        return bool(ENG.loops) and self._pv_stamp is not ENG.loops[-1].stamp

    def _load(self, idx):
        """record a load at idx (list of P/None); idx None = everything"""
        if self._foreign():
            lp = ENG.loops[-1]
            lp.record('load', self, idx)

    @property
    def tv(self):
        if self.root is None:
            self._load(None)
            self._pending(None)
            return self._tv
        r = self.root
        idx = [m if isinstance(m, P) else None for m in self.vmap]
        r._load(idx)
        pend = r._pending(idx)
        if pend is not None:
            return pend
        return self._view(r._tv)

    def _view(self, t):
        spec = []
        for m in self.vmap:
            if isinstance(m, P):
                spec.append(('i', m))
            else:
                st, sz, full = m
                spec.append(('s', slice(None) if full else slice(mk(st, True), mk(st + sz, True))))
        return F.slice_tv(t, spec, ())

    def _pending(self, idx):
        """a store of this iteration to this array precedes the load"""
        if not self._foreign():
            return None
        st = [d for k, o, d in ENG.loops[-1].effects if o is self and k == 'store']
        if not st:
            return None
        if idx is not None and len(st) == 1 and len(st[0][0]) == len(idx) and all(
                (a is None and b is None) or (a is not None and b is not None and a == b)
                for a, b in zip(st[0][0], idx)):
            return st[0][1]
        raise Unsupported('load after a store to the same array inside a generalised loop')

    @property
    def _meta(self):
        return self._tv if self.root is None else self._view(self.root._tv)

    # ---- description
    @property
    def shape(self):
        return tuple(mk(p, True) for p in self._meta.shape)

    @property
    def ndim(self):
        return self._meta.rank

    @property
    def size(self):
        return mk(self._meta.numel, True)

    @property
    def dtype(self):
        return DT[self._meta.dtype]

    @property
    def T(self):
        return transpose(self)

    def get_shape(self):
        raise AttributeError("'numpy.ndarray' object has no attribute 'get_shape'")

    def __repr__(self):
        return 'array(%s)' % (self._meta,)

    def __format__(self, spec):
        return '<array>'

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def _len(self):
        if self._meta.rank == 0:
            raise TypeError('len() of unsized object')
        return mk(self._meta.size(0), True)

    def __len__(self):
        n = self._len()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic array by C code')

    def _symiter(self):
        if self._meta.rank == 0:
            raise TypeError('iteration over a 0-d array')
        return self._meta.size(0), lambda k: self[mk(k, True)]

    def __iter__(self):
        n = self._meta.size(0)
        if not n.is_const():
            raise Unsupported('iteration over a symbolic array by C code')
        return iter([self[i] for i in range(int(n.const))])

    def _as_num(self):
        t = self._meta
        if not _isone(t.numel):
            return None
        t = self.tv
        return mk(t.at(*[ZERO] * t.rank) if t.rank else t.body, not t.dtype.startswith('float'))

    def _toint(self):
        n = self._as_num()
        if n is None:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return L._to_int(n)

    def _tofloat(self):
        n = self._as_num()
        if n is None:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return L._to_float(n)

    def __bool__(self):
        n = self._as_num()
        if n is None:
            if not self._meta.numel.is_const():
                c = S.eq(self._meta.numel - 1)
                if c is not False and ENG.decide(c):
                    raise Unsupported('truth value of an array of symbolic size')
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(n != 0)

    # ---- loops
    def _subst(self, m):
        t = self.tv
        if not (set(m) & t.body.freevars()):
            return self
        return NDArray(t.subst(m))

    def _carry(self, nm):
        t = self._meta
        return NDArray(TV.input(nm, t.shape, t.dtype))

    def _loop_final(self, lp, w, pre, cnames):
        raise Unsupported('loop-carried array')

    def _loop_sum(self, k, n, start):
        t = self.tv.fresh()
        r = wrap(TV(t.axes, t.body.sum(k, n), t.dtype))
        return r if isinstance(start, int) and start == 0 else start + r

    # ---- indexing
    def _index(self, ix):
        """-> (vmap over the root, plain?)  or None when the result is a copy"""
        if not isinstance(ix, tuple):
            ix = (ix,)
        ix = list(ix)
        real = [i for i in ix if i is not Ellipsis and i is not None]
        t = self._meta
        if len(real) > t.rank:
            raise IndexError('too many indices for array')
        if any(i is Ellipsis for i in ix):
            p = [n for n, i in enumerate(ix) if i is Ellipsis][0]
            ix[p:p + 1] = [slice(None)] * (t.rank - len(real))
        elif not any(i is None for i in ix):
            ix += [slice(None)] * (t.rank - len(real))
        if any(i is None for i in ix):
            return None
        out = []
        for n, i in enumerate(ix):
            d = t.size(n)
            if isinstance(i, slice):
                if i.step not in (None, 1):
                    return None
                if i.start is None and i.stop is None:
                    out.append((ZERO, d, True))
                    continue
                st = ZERO if i.start is None else F.norm_index(topoly(i.start), d)
                sp = d if i.stop is None else F.norm_index(topoly(i.stop), d)
                if sp != d:
                    sp = alg.imin(sp, d)
                out.append((st, sp - st, st == ZERO and sp == d))
                continue
            if isinstance(i, bool) or isinstance(i, (list, tuple)):
                return None
            if isinstance(i, NDArray):
                if i._meta.rank:
                    return None
                i = i._as_num()
            if isinstance(i, F.Dimension):
                i = i.value
            if isinstance(i, float) or isinstance(i, Num) and not i.isint and not L._intvalued(i.p):
                raise IndexError('only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices')
            if not isinstance(i, (int, Num)):
                return None
            p = F.norm_index(topoly(i), d)
            if not F.index_ok(p, d):
                if p.is_const() and d.is_const():
                    raise IndexError('index %s is out of bounds for axis with size %s' % (p, d))
                try:
                    F.need_index(p, d)
                except ShapeError as e:
                    raise IndexError(str(e))
            out.append(p)
        if self.root is None:
            return out
        comb, j = [], 0
        for m in self.vmap:
            if isinstance(m, P):
                comb.append(m)
                continue
            o = out[j]
            j += 1
            if isinstance(o, P):
                comb.append(m[0] + o)
            else:
                comb.append((m[0] + o[0], o[1], m[2] and o[2]))
        return comb

    def __getitem__(self, ix):
        v = self._index(ix)
        if v is None:
            return self._copyindex(ix)
        r = self.root if self.root is not None else self
        w = NDArray(None, r, v, self.ro)
        if all(isinstance(m, P) for m in v):
            t = w.tv
            return mk(t.body, not t.dtype.startswith('float'))
        return w

    def _copyindex(self, ix):
        t = self.tv
        ixs = list(ix) if isinstance(ix, tuple) else [ix]
        arrs = [i for i in ixs if isinstance(i, (NDArray, list)) and not (isinstance(i, NDArray) and i._meta.rank == 0)]
        if not arrs:
            spec = []
            real = [i for i in ixs if i is not None and i is not Ellipsis]
            out = []
            for i in ixs:
                if i is Ellipsis:
                    out += [slice(None)] * (t.rank - len(real))
                else:
                    out.append(i)
            ixs = out + [slice(None)] * (t.rank - len([i for i in out if i is not None]))
            for i in ixs:
                spec.append(('n', None) if i is None else ('s', i) if isinstance(i, slice) else ('i', topoly(i)))
            return wrap(F.slice_tv(t, spec, ()), ro=True)
        # integer-array indexing on the leading axes
        if len(arrs) != len(ixs) or any(asarray(a)._meta.rank != 1 for a in arrs):
            raise Unsupported('advanced indexing')
        ts = [asarray(a).tv for a in arrs]
        if any(x.dtype == 'bool' for x in ts):
            raise Unsupported('boolean mask indexing')
        axes, bs = T.align(ts)
        for b, n in zip(bs, range(len(bs))):
            if not F.index_ok(b, t.size(n)):
                F.need_index(b, t.size(n))
        t = t.fresh()
        return wrap(TV(axes + t.axes[len(bs):], F._at_partial(t, list(bs) + [None] * (t.rank - len(bs))), t.dtype))

    def _setitem(self, ix, v):
        if isinstance(ix, NDArray) and ix._meta.dtype == 'bool' and ix._meta.rank == self._meta.rank > 0:
            if asarray(v).ndim:
                raise Unsupported('mask assignment of an array')
            return self._setitem(Ellipsis, where(ix, v, self))
        vm = self._index(ix)
        r = self.root if self.root is not None else self
        if self.ro or r.ro:
            raise Unsupported('store through a copy or read-only view')
        if vm is None:
            raise Unsupported('advanced index assignment')
        r._store(vm, v)

    __setitem__ = _setitem

    def _store(self, vm, v):
        t = self._tv
        free = [m for m in vm if not isinstance(m, P)]
        val = asarray(v).tv
        if t.dtype.startswith('int') and val.dtype.startswith('float') and not L._intvalued(val.body):
            val = TV(val.axes, alg.lift('trunc', val.body), t.dtype)
        want = [m[1] for m in free]
        while val.rank > len(want) and _isone(val.size(0)):
            val = TV(val.axes[1:], val.body, val.dtype)
        if val.rank > len(want):
            raise ValueError('could not broadcast input array')
        holder = TV.build(want, lambda *i: ZERO, t.dtype)
        axes, (b, z) = T.align([val, holder])
        for g, w in zip(axes, want):
            if T.prod([alg.VARDIM[x] for x in g]) != w:
                raise ValueError('could not broadcast input array')
        val = TV(axes, b, t.dtype)
        if self._foreign():
            if any(not m[2] for m in free):
                raise Unsupported('partial slice store inside a generalised loop')
            ENG.loops[-1].record('store', self, [m if isinstance(m, P) else None for m in vm], val)
            return
        self._tv = _storetv(t, vm, val)

    def _apply_loop(self, lp, per):
        stores = [(c, [d for k, d in e if k == 'store']) for c, e in per]
        loads = [d for c, e in per for k, d in e if k == 'load']
        live = [(c, s) for c, s in stores if s]
        if not live:
            return
        if any(len(s) > 1 for _, s in live):
            raise Unsupported('several stores to one array per generic iteration')
        if ENG.loops and self._pv_stamp is not ENG.loops[-1].stamp:
            raise Unsupported('nested generic stores to an outer array')
        idx0 = live[0][1][0][0]
        for _, s in live:
            if any((a is None) != (b is None) or (a is not None and a != b) for a, b in zip(s[0][0], idx0)):
                raise Unsupported('conditional stores at different places')
        fixed = [p for p in idx0 if p is not None]
        inj = any(F._injective(p, lp.k) for p in fixed)
        for (li,) in loads:
            if li is None or not inj or len(li) != len(idx0) or any(
                    (a is None) != (b is None) or (a is not None and a != b) for a, b in zip(li, idx0)):
                raise Unsupported('loop-carried array dependence')
        t = self._tv
        cn = {nm for nm, _ in lp.carry.values()}
        for _, s in live:
            if L._mentions(s[0][1].body, cn) or any(L._mentions(p, cn) for p in fixed):
                raise Unsupported('store of a loop-carried value')
        k, n = lp.k, lp.n
        always = len(live) == len(per)
        vals = [s[0][1].fresh() for _, s in live]
        conds = [c for c, _ in live]
        old = t

        def at(v, pos):
            return v.at(*pos)
        if inj:
            def fn(*pos):
                fp = [p for p, q in zip(pos, idx0) if q is not None]
                gp = [p for p, q in zip(pos, idx0) if q is None]
                w = newvar(n)
                d = ONE
                for p, q in zip(fixed, fp):
                    d = d * alg.delta(p.subst({k: VAR(w)}), q)
                new, hit = ZERO, ZERO
                for c, v in zip(conds, vals):
                    g = ONE if len(per) == 1 or c is True else L.subst_value(c, {k: VAR(w)}).ind()
                    new = new + g * d * at(v, gp).subst({k: VAR(w)})
                    hit = hit + g * d
                if always:
                    hit = d
                return new.sum(w, n) + (ONE - hit.sum(w, n)) * old.at(*pos)
            self._tv = TV.build(t.shape, fn, t.dtype)
            return
        if not always or len(per) != 1 or len(fixed) != len(idx0) or not (t.body.is_const() and t.body.const == 0):
            raise Unsupported('non-injective store')
        self._tv = F.scatter_tv(n, k, fixed, vals[0].body, t.shape, t.dtype)

    # ---- methods
    def item(self, *key):
        if len(key) == 1 and isinstance(key[0], tuple):
            key = key[0]
        t = self._meta
        if not key:
            n = self._as_num()
            if n is None:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return n
        if len(key) == 1 and t.rank != 1:
            return reshape(self, (-1,))[key[0]]
        if len(key) != t.rank:
            raise ValueError('incorrect number of indices for array')
        return self[tuple(key)]

    def copy(self, order='C'):
        return NDArray(self.tv)

    def tolist(self):
        t = self._meta
        if t.rank == 0:
            return self._as_num()
        if not t.size(0).is_const():
            raise Unsupported('tolist of a symbolic array')
        return L.PList([x.tolist() if isinstance(x, NDArray) else x for x in self])

    def astype(self, d, *a, **k):
        d = dtname(d)
        t = self.tv
        return NDArray(_cast(t, d))

    def reshape(self, *s, **k):
        return reshape(self, s[0] if len(s) == 1 and not isinstance(s[0], (int, Num)) else s)

    def transpose(self, *p):
        return transpose(self, None if not p else (p[0] if len(p) == 1 and not isinstance(p[0], int) else p))

    def flatten(self, order='C'):
        if order != 'C':
            raise Unsupported('flatten order')
        return reshape(self, (-1,))

    ravel = flatten

    def squeeze(self, axis=None):
        t = self.tv
        ax = [n for n in range(t.rank) if _isone(t.size(n))] if axis is None else axes_of(axis, t.rank)
        return wrap(t.squeeze(ax))

    def sum(self, axis=None, **k):
        return sum_(self, axis, **k)

    def max(self, axis=None, **k):
        return max_(self, axis, **k)

    def min(self, axis=None, **k):
        return min_(self, axis, **k)

    def mean(self, axis=None, **k):
        return mean(self, axis, **k)

    def prod(self, axis=None):
        return prod(self, axis)

    def dot(self, o):
        return dot(self, o)

    def fill(self, v):
        self._setitem(Ellipsis, v)

    def __getattr__(self, n):
        if n.startswith('_') or n in ('tv', 'eval', 'get_shape', 'name', 'op'):
            raise AttributeError(n)
        raise Unsupported('ndarray.%s' % n)


def _cast(t, d):
    if t.dtype.startswith('float') and not d.startswith('float') and d != 'bool' and not L._intvalued(t.body):
        return TV(t.axes, alg.lift('trunc', t.body), d)
    if d == 'bool' and t.dtype != 'bool':
        return TV(t.axes, alg.ne0(t.body), d)
    return t.astype(d)


def _storetv(t, vm, val):
    """functional update of t at the places vm"""
    if all(not isinstance(m, P) and m[2] for m in vm):
        return TV(val.axes, val.body, t.dtype)

    def fn(*pos):
        c = ONE
        gp = []
        for m, p in zip(vm, pos):
            if isinstance(m, P):
                c = c * alg.delta(m, p)
            elif m[2]:
                gp.append(p)
            elif m[1].is_const():
                s = ZERO
                for j in range(int(m[1].const)):
                    s = s + alg.delta(m[0] + j, p)
                c = c * s
                gp.append(p - m[0])
            else:
                c = c * alg.gt0(m[0] + m[1] - p)
                if m[0] != ZERO:
                    c = c * alg.gt0(p - m[0] + 1)
                gp.append(p - m[0])
        return c * val.at(*gp) + (ONE - c) * t.at(*pos)
    return TV.build(t.shape, fn, t.dtype)


def wrap(t, ro=False):
    """TV -> NDArray, rank 0 -> number"""
    if t.rank == 0:
        if t.dtype == 'bool':
            if t.body.is_const():
                return bool(t.body.const)
            return S.neg(S.eq(t.body))
        return mk(t.body, not t.dtype.startswith('float'))
    return NDArray(t, ro=ro)


def _npdefault(x):
    return 'int64' if isinstance(x, int) or isinstance(x, Num) and x.isint else 'float64'


def asarray(x, dtype=None, order=None, copy=None):
    d = dtname(dtype)
    if isinstance(x, NDArray):
        if d and d != x._meta.dtype:
            return NDArray(_cast(x.tv, d))
        return x
    if isinstance(x, F.Dimension):
        x = x.value
    if isinstance(x, (F.Tensor, F.Variable)):
        raise Unsupported('numpy conversion of a symbolic tensor')
    if isinstance(x, F.TensorShape):
        x = x.as_list()
    if isinstance(x, bool):
        return NDArray(TV.scalar(lift_num(int(x)), d or 'bool'))
    if isinstance(x, Cond):
        return NDArray(TV.scalar(x.ind(), d or 'bool'))
    if isinstance(x, (int, float, Num, P)):
        t = TV.scalar(topoly(x), _npdefault(x))
        return NDArray(_cast(t, d) if d else t)
    if isinstance(x, L.SymRange) or isinstance(x, range):
        x = L._to_list(x)
    if isinstance(x, L.SSeq):
        r = L.PList()
        r.segs = [('s', x)]
        x = r
    if isinstance(x, L.PList) and x.segs is not None:
        s = x.single()
        if s is None:
            raise Unsupported('array from a mixed symbolic list')
        if s.guard is not None:
            raise Unsupported('array from a filtered list')
        e = asarray(s.val).tv.fresh()
        v = newvar(s.n)
        t = TV([[v]] + e.axes, e.body.subst({s.k: VAR(v)}), e.dtype)
        return NDArray(_cast(t, d) if d else t)
    if isinstance(x, (list, tuple)):
        es = [asarray(e).tv for e in L.tolist(x)]
        if not es:
            return NDArray(TV.build([0], lambda i: ZERO, d or 'float64'))
        if any(e.rank != es[0].rank for e in es):
            raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        for e in es:
            for a, b in zip(e.shape, es[0].shape):
                if a != b:
                    raise ValueError('inhomogeneous shape')
        dt = d or max([e.dtype for e in es], key=lambda n: _RANK[n])
        axes, bs = T.align(es)
        if len(es) == 1:
            return NDArray(TV([[]] + axes, bs[0], dt))
        v = newvar(len(es))
        body = ZERO
        for i, b in enumerate(bs):
            body = body + alg.delta(VAR(v), CONST(i)) * b
        return NDArray(TV([[v]] + axes, body, dt))
    raise Unsupported('array from %s' % type(x).__name__)


def array(x, dtype=None, copy=True, **k):
    r = asarray(x, dtype)
    return r.copy() if isinstance(x, NDArray) else r


# ------------------------------------------------------------------ elementwise
def _scalarlike(x):
    return isinstance(x, (int, float, Num, bool, Cond, F.Dimension))


def _promote(a, b, xa, xb):
    wa, wb = _scalarlike(xa), _scalarlike(xb)
    da, db = a.dtype, b.dtype
    if wa and not wb:
        return db if not (da.startswith('float') and not db.startswith('float')) else 'float64'
    if wb and not wa:
        return da if not (db.startswith('float') and not da.startswith('float')) else 'float64'
    if {da, db} in ({'float32', 'int64'}, {'float32', 'int32'}):
        return 'float64'
    return max(da, db, key=lambda n: _RANK[n])


def _bin(x, y, f, out=None, needfloat=False):
    if isinstance(x, (F.Tensor, F.Variable)) or isinstance(y, (F.Tensor, F.Variable)):
        return NotImplemented
    a, b = asarray(x).tv, asarray(y).tv
    dt = out or _promote(a, b, x, y)
    if needfloat and not dt.startswith('float'):
        dt = 'float64'
    try:
        r = T.ew(f, a, b, dtype=dt)
    except ShapeError as e:
        raise ValueError('operands could not be broadcast together: %s' % e)
    return wrap(r)


def _num2(f):
    return f


add = lambda x, y: _bin(x, y, lambda a, b: a + b)
subtract = lambda x, y: _bin(x, y, lambda a, b: a - b)
multiply = lambda x, y: _bin(x, y, lambda a, b: a * b)
divide = lambda x, y: _bin(x, y, lambda a, b: a / b, needfloat=True)
maximum = lambda x, y: _bin(x, y, alg.maxp)
minimum = lambda x, y: _bin(x, y, alg.minp)


def power(x, y):
    def f(a, b):
        if b.is_const() and b.const.denominator == 1:
            return a ** int(b.const)
        return alg.powr(a, b)
    return _bin(x, y, f)


def _cmp(f, op):
    def g(x, y):
        if y is None:
            return False
        r = _bin(x, y, f, out='bool')
        if isinstance(r, NDArray) and _isone(r._meta.numel):
            a, b = asarray(x)._as_num(), asarray(y)._as_num()
            return op(a, b)
        return r
    return g


import operator as _op
less = _cmp(lambda a, b: alg.gt0(b - a), _op.lt)
greater = _cmp(lambda a, b: alg.gt0(a - b), _op.gt)
less_equal = _cmp(lambda a, b: ONE - alg.gt0(a - b), _op.le)
greater_equal = _cmp(lambda a, b: ONE - alg.gt0(b - a), _op.ge)
equal = _cmp(lambda a, b: ONE - alg.ne0(a - b), _op.eq)
not_equal = _cmp(lambda a, b: alg.ne0(a - b), _op.ne)


def _rev(f):
    return lambda self, o: f(o, self)


for _n, _f in (('add', add), ('sub', subtract), ('mul', multiply), ('truediv', divide), ('pow', power)):
    setattr(NDArray, '__%s__' % _n, lambda self, o, f=_f: f(self, o))
    setattr(NDArray, '__r%s__' % _n, lambda self, o, f=_f: f(o, self))
for _n, _f in (('lt', less), ('gt', greater), ('le', less_equal), ('ge', greater_equal), ('eq', equal), ('ne', not_equal)):
    setattr(NDArray, '__%s__' % _n, lambda self, o, f=_f: f(self, o))


def _inplace(f):
    def g(self, o):
        r = f(self, o)
        if r is NotImplemented:
            return r
        rt = asarray(r).tv
        if self._meta.dtype.startswith('int') and rt.dtype.startswith('float'):
            raise TypeError('Cannot cast ufunc output from float64 to int64')
        self._setitem(Ellipsis, r)
        return self
    return g


for _n, _f in (('iadd', add), ('isub', subtract), ('imul', multiply), ('itruediv', divide)):
    setattr(NDArray, '__%s__' % _n, _inplace(_f))
NDArray.__neg__ = lambda self: negative(self)
NDArray.__abs__ = lambda self: abs_(self)
NDArray.__matmul__ = lambda self, o: matmul(self, o)
NDArray.__rmatmul__ = lambda self, o: matmul(o, self)
NDArray.__pos__ = lambda self: self


def _un(f, needfloat=False, out=None):
    def g(x):
        if isinstance(x, (F.Tensor, F.Variable)):
            raise Unsupported('numpy function of a symbolic tensor')
        t = asarray(x).tv
        dt = out or t.dtype
        if needfloat and not dt.startswith('float'):
            dt = 'float64'
        return wrap(TV(t.axes, f(t.body), dt))
    return g


negative = _un(lambda a: -a)
abs_ = _un(alg.absp)
sqrt = _un(alg.sqrt, True)
square = _un(lambda a: a * a)
sign = _un(lambda a: alg.gt0(a) - alg.gt0(-a))


def clip(x, lo, hi):
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported('np.where coordinates')
    a, b, d = asarray(c).tv, asarray(x).tv, asarray(y).tv
    dt = _promote(b, d, x, y)
    a = a if a.dtype == 'bool' else _cast(a, 'bool')
    return wrap(T.ew(alg.where, a, b, d, dtype=dt))


# ------------------------------------------------------------------ creation
def _dims(s):
    if isinstance(s, (int, Num)):
        return [dimp(s)]
    ds = dims_of(s)
    for p in ds:
        if p.is_const() and p.const < 0:
            raise ValueError('negative dimensions are not allowed')
    return ds


def zeros(shape, dtype='float64', order='C'):
    return NDArray(TV.build(_dims(shape), lambda *i: ZERO, dtname(dtype)))


def ones(shape, dtype='float64', order='C'):
    return NDArray(TV.build(_dims(shape), lambda *i: ONE, dtname(dtype)))


def full(shape, v, dtype=None, order='C'):
    return NDArray(TV.build(_dims(shape), lambda *i: topoly(v), dtname(dtype) or _npdefault(v)))


def zeros_like(x, dtype=None):
    t = asarray(x)._meta
    return NDArray(TV.build(t.shape, lambda *i: ZERO, dtname(dtype) or t.dtype))


def ones_like(x, dtype=None):
    t = asarray(x)._meta
    return NDArray(TV.build(t.shape, lambda *i: ONE, dtname(dtype) or t.dtype))


def eye(n, m=None, k=0, dtype='float64'):
    if not (isinstance(k, int) and k == 0):
        raise Unsupported('np.eye offset')
    n = dimp(n)
    m = n if m is None else dimp(m)
    return NDArray(TV.build([n, m], lambda i, j: alg.delta(i, j), dtname(dtype)))


def arange(*a, **k):
    a = [dimp(x) for x in a]
    lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported('np.arange step')
    return NDArray(TV.build([hi - lo], lambda i: lo + i, dtname(k.get('dtype')) or 'int64'))


def diag(x):
    t = asarray(x).tv
    if t.rank == 1:
        n = t.size(0)
        return NDArray(TV.build([n, n], lambda i, j: alg.delta(i, j) * t.at(i), t.dtype))
    if t.rank == 2:
        k = alg.imin(t.size(0), t.size(1))
        return NDArray(TV.build([k], lambda i: t.at(i, i), t.dtype))
    raise ValueError('Input must be 1- or 2-d.')


# ------------------------------------------------------------------ structure
def shape(x):
    return tuple(asarray(x).shape)


def ndim(x):
    return asarray(x).ndim


def reshape(x, s, order='C'):
    if order != 'C':
        raise Unsupported('reshape order')
    try:
        return NDArray(asarray(x).tv.reshape(_dims1(s)))
    except ShapeError as e:
        raise ValueError(str(e))


def _dims1(s):
    return [dimp(s)] if isinstance(s, (int, Num)) else dims_of(s)


def transpose(x, axes=None):
    t = asarray(x).tv
    return wrap(t.transpose(None if axes is None else [a % t.rank for a in L.tolist(axes)]), ro=True)


def expand_dims(x, axis):
    t = asarray(x).tv
    return NDArray(t.expand(axis % (t.rank + 1)))


def ravel(x):
    return reshape(x, (-1,))


def squeeze(x, axis=None):
    return asarray(x).squeeze(axis)


def stack(xs, axis=0):
    r = asarray(L.PList(L.tolist(xs)) if not (isinstance(xs, L.PList) and xs.segs is not None) else xs)
    if axis == 0:
        return r
    n = r.ndim
    p = list(range(1, n))
    p.insert(axis % n, 0)
    return NDArray(r.tv.transpose(p))


def _join(xs, axis):
    xs = [asarray(x) for x in L.tolist(xs)]
    if any(x.ndim != xs[0].ndim for x in xs):
        raise ValueError('all the input array dimensions must match')
    if axis is None:
        xs, axis = [ravel(x) for x in xs], 0
    dt = xs[0]._meta.dtype
    for x in xs[1:]:
        dt = _promote(TV.scalar(ZERO, dt), TV.scalar(ZERO, x._meta.dtype), xs[0], x)
    try:
        return NDArray(F.concat_tv([x.tv.astype(dt) for x in xs], axis % xs[0].ndim))
    except ShapeError as e:
        raise ValueError(str(e))


def concatenate(xs, axis=0):
    if isinstance(xs, L.PList) and xs.segs is not None:
        raise Unsupported('concatenation of a symbolic list')
    return _join(xs, axis)


def _atleast2(x):
    x = asarray(x)
    while x.ndim < 2:
        x = expand_dims(x, 0)
    return x


def vstack(xs):
    return _join([_atleast2(x) for x in L.tolist(xs)], 0)


def column_stack(xs):
    return _join([expand_dims(x, 1) if asarray(x).ndim == 1 else x for x in L.tolist(xs)], 1)


def hstack(xs):
    xs = [asarray(x) for x in L.tolist(xs)]
    return _join(xs, 0 if xs[0].ndim == 1 else 1)


def moveaxis(x, source, destination):
    r = asarray(x).ndim
    if not isinstance(source, int) or not isinstance(destination, int):
        raise Unsupported('np.moveaxis of several axes')
    p = [a for a in range(r) if a != source % r]
    p.insert(destination % r, source % r)
    return transpose(x, L.PList(p))


def swapaxes(x, a, b):
    r = asarray(x).ndim
    p = list(range(r))
    p[a], p[b] = p[b], p[a]
    return transpose(x, L.PList(p))


def flip(x, axis=None):
    t = asarray(x).tv
    ax = set(axes_of(axis, t.rank))
    return NDArray(TV.build(t.shape, lambda *i: t.at(*[t.size(n) - 1 - v if n in ax else v for n, v in enumerate(i)]), t.dtype))


def diagonal(x):
    if asarray(x).ndim != 2:
        raise Unsupported('diagonal')
    return diag(x)


def trace(x):
    return wrap(F._trace(asarray(x).tv))


def fill_diagonal(a, val, wrap=False):
    if not isinstance(a, NDArray) or a._meta.rank != 2 or wrap:
        raise Unsupported('np.fill_diagonal')
    t, v = a.tv, asarray(val).tv
    if v.rank > 1:
        raise Unsupported('np.fill_diagonal')
    at = (lambda i: v.at(i)) if v.rank else (lambda i: v.body)
    if v.rank and v.size(0) != alg.imin(t.size(0), t.size(1)):
        raise Unsupported('np.fill_diagonal with values of another length')
    a[:, :] = NDArray(TV.build(t.shape, lambda i, j: alg.delta(i, j) * at(i) + (ONE - alg.delta(i, j)) * t.at(i, j), t.dtype))


def argsort(x, axis=-1, kind=None):
    t = asarray(x).tv
    if t.rank != 1 or not t.size(0).is_const():
        raise Unsupported('np.argsort of symbolic values')
    vs = [t.at(CONST(i)) for i in range(int(t.size(0).const))]
    if any(not v.is_const() for v in vs):
        raise Unsupported('np.argsort of symbolic values')
    vs = [v.const for v in vs]
    if len(set(vs)) != len(vs) and kind not in ('stable', 'mergesort'):
        raise Unsupported('np.argsort of equal values')
    return asarray(L.PList(sorted(range(len(vs)), key=lambda i: vs[i])))


def copy(x):
    return asarray(x).copy()


def vdot(a, b):
    return dot(ravel(a), ravel(b))


def full_like(x, v, dtype=None):
    t = asarray(x)
    return full(t.shape, v, dtype or t.dtype)


# ------------------------------------------------------------------ reductions
def _keep(t, ax, keep):
    if keep:
        for a in sorted(ax):
            t = t.expand(a)
    return wrap(t)


def sum_(x, axis=None, dtype=None, keepdims=False):
    t = asarray(x).tv
    ax = axes_of(axis, t.rank)
    dt = 'int64' if t.dtype == 'bool' else t.dtype
    return _keep(t.sum(ax).astype(dt), ax, keepdims)


def mean(x, axis=None, keepdims=False):
    t = asarray(x).tv
    ax = axes_of(axis, t.rank)
    r = t.sum(ax)
    return _keep(TV(r.axes, r.body / T.prod([t.size(a) for a in ax]), t.dtype if t.dtype.startswith('float') else 'float64'),
                 ax, keepdims)


def max_(x, axis=None, keepdims=False):
    t = asarray(x).tv
    ax = axes_of(axis, t.rank)
    return _keep(t.reduce('rmax', ax), ax, keepdims)


def min_(x, axis=None, keepdims=False):
    t = asarray(x).tv
    ax = axes_of(axis, t.rank)
    return _keep(t.reduce('rmin', ax), ax, keepdims)


def prod(x, axis=None):
    if isinstance(x, (list, tuple)):
        if isinstance(x, L.PList) and x.segs is not None:
            t = asarray(x).tv
            return wrap(t.reduce('rprod'))
        xs = [y._as_num() if hasattr(y, '_as_num') else y for y in L.tolist(x)]
        if not xs:
            return mk(ONE)
        if all(isinstance(y, (int, float, Num)) for y in xs):
            r = ONE
            for y in xs:
                r = r * topoly(y)
            return mk(r, all(isinstance(y, int) or isinstance(y, Num) and y.isint for y in xs))
    t = asarray(x).tv
    ax = axes_of(axis, t.rank)
    return wrap(t.reduce('rprod', ax))


def count_nonzero(x):
    t = asarray(x).tv
    return wrap(TV(t.axes, alg.ne0(t.body), 'int64').sum())


# ------------------------------------------------------------------ products
def _lin(spec, a, b):
    ta, tb = asarray(a).tv, asarray(b).tv
    dt = _promote(ta, tb, a, b)
    try:
        return wrap(T.einsum(spec, [ta, tb]).astype(dt))
    except ShapeError as e:
        raise ValueError(str(e))


def matmul(a, b):
    if _scalarlike(a) or _scalarlike(b):
        raise ValueError('matmul: Input operand does not have enough dimensions')
    ra, rb = asarray(a).ndim, asarray(b).ndim
    sp = {(2, 2): 'ab,bc->ac', (1, 2): 'b,bc->c', (2, 1): 'ab,b->a', (1, 1): 'a,a->'}.get((ra, rb))
    if sp is None:
        raise Unsupported('matmul of ranks %d,%d' % (ra, rb))
    return _lin(sp, a, b)


def dot(a, b):
    if _scalarlike(a) or _scalarlike(b) or asarray(a).ndim == 0 or asarray(b).ndim == 0:
        return multiply(a, b)
    return matmul(a, b)


def inner(a, b):
    ra, rb = asarray(a).ndim, asarray(b).ndim
    if ra == 0 or rb == 0:
        return multiply(a, b)
    la = 'abcdefgh'[:ra - 1]
    lb = 'ijklmnop'[:rb - 1]
    return _lin('%sz,%sz->%s%s' % (la, lb, la, lb), a, b)


def outer(a, b):
    return _lin('a,b->ab', reshape(a, (-1,)), reshape(b, (-1,)))


def einsum(spec, *xs):
    ts = [asarray(x).tv for x in xs]
    spec = spec.replace(' ', '')
    if '->' not in spec:
        al = spec.replace(',', '')
        spec += '->' + ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    return wrap(T.einsum(spec, ts))


def kron(a, b):
    ta, tb = asarray(a).tv, asarray(b).tv
    if ta.rank != 2 or tb.rank != 2:
        raise Unsupported('kron')
    r = T.einsum('ab,cd->acbd', [ta, tb])
    return NDArray(r.reshape([ta.size(0) * tb.size(0), ta.size(1) * tb.size(1)]))


def tensordot(a, b, axes=2):
    raise Unsupported('np.tensordot')


# ------------------------------------------------------------------ linalg
def norm(x, ord=None, axis=None, keepdims=False):
    t = asarray(x).tv
    if not t.dtype.startswith('float'):
        t = t.astype('float64')
    if ord is None and axis is None:
        s = TV(t.axes, t.body * t.body, t.dtype).sum()
        return wrap(TV(s.axes, alg.sqrt(s.body), t.dtype))
    if axis is None and t.rank > 2:
        raise ValueError('Improper number of dimensions to norm.')
    if ord == 'fro' and axis is None and t.rank != 2:
        raise ValueError("Invalid norm order 'fro' for vectors")
    return wrap(F.norm_tv(t, ord, axis, keepdims, np_=True))


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    t = asarray(a).tv
    if t.rank != 2:
        raise Unsupported('svd of rank %d' % t.rank)
    if not t.dtype.startswith('float'):
        t = t.astype('float64')
    s, u, v = F.svd_tv(t, bool(full_matrices))
    if not compute_uv:
        return NDArray(s)
    return NDArray(u), NDArray(s), NDArray(v.transpose([1, 0]))


def pinv(a, rcond=None, hermitian=False):
    t = asarray(a).tv
    if t.rank != 2:
        raise Unsupported('pinv')
    return NDArray(T.matrix_fn('pinv', t, [t.size(1), t.size(0)]))


# ------------------------------------------------------------------ random
_rcount = [0]


def _rand(kind, ds, dt, lo=None, hi=None):
    """every call is a fresh draw"""
    if ENG.loops:
        raise Unsupported('random draw inside a generalised loop')
    nm = 'nprnd:%d:%s' % (_rcount[0], kind)
    _rcount[0] += 1
    if not dt.startswith('float'):
        S.INTBASE.add(nm)
    if lo is not None:
        F.RANGE[nm] = (lo, hi, dt)
        if lo.is_const() and lo.const >= 0:
            alg.NONNEG.add(nm)
    F.DRAWS[nm] = (kind, list(ds), lo, hi, dt)
    return wrap(TV.input(nm, ds, dt))


def rand(*s):
    return _rand('uniform', [dimp(x) for x in s], 'float64', ZERO, ONE)


def randn(*s):
    return _rand('normal', [dimp(x) for x in s], 'float64')


def randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    ds = [] if size is None else _dims(size)
    return _rand('randint', ds, 'int64', topoly(low), topoly(high))


def uniform(low=0.0, high=1.0, size=None):
    return _rand('uniform', [] if size is None else _dims(size), 'float64', topoly(low), topoly(high))


def normal(loc=0.0, scale=1.0, size=None):
    r = _rand('normal', [] if size is None else _dims(size), 'float64')
    if isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1:
        return r
    return r * scale + loc


def build_module():
    m = Module('numpy')
    d = m.__dict__
    for n, t in DT.items():
        if n not in ('string', 'bool'):
            d[n] = t
    d.update(concatenate=concatenate, vstack=vstack, hstack=hstack, column_stack=column_stack, moveaxis=moveaxis,
             swapaxes=swapaxes, flip=flip, diagonal=diagonal, trace=trace, fill_diagonal=fill_diagonal, argsort=argsort,
             copy=copy, vdot=vdot, full_like=full_like)
    d.update(ndarray=NDArray, array=array, asarray=asarray, add=add, subtract=subtract, multiply=multiply, divide=divide,
             true_divide=divide, maximum=maximum, minimum=minimum, power=power, negative=negative, abs=abs_, absolute=abs_,
             sqrt=sqrt, square=square, sign=sign, clip=clip, where=where, zeros=zeros, ones=ones, full=full,
             zeros_like=zeros_like, ones_like=ones_like, eye=eye, identity=eye, arange=arange, diag=diag, shape=shape,
             ndim=ndim, reshape=reshape, transpose=transpose, expand_dims=expand_dims, ravel=ravel, squeeze=squeeze,
             stack=stack, sum=sum_, mean=mean, average=mean, max=max_, amax=max_, min=min_, amin=min_, prod=prod,
             count_nonzero=count_nonzero, matmul=matmul, dot=dot, inner=inner, outer=outer, einsum=einsum, kron=kron,
             tensordot=tensordot, less=less, greater=greater, less_equal=less_equal, greater_equal=greater_equal,
             equal=equal, not_equal=not_equal, newaxis=None, inf=float('inf'), nan=float('nan'), pi=3.141592653589793,
             integer=DT['int64'], bool_=DT['bool'], float_=DT['float64'], int_=DT['int64'],
             set_printoptions=lambda *a, **k: None, empty=zeros)
    la = Module('numpy.linalg')
    la.__dict__.update(norm=norm, svd=svd, pinv=pinv)
    d['linalg'] = la
    rn = Module('numpy.random')
    rn.__dict__.update(rand=rand, randn=randn, randint=randint, uniform=uniform, normal=normal,
                       random_sample=lambda s=None: uniform(size=s), random=lambda s=None: uniform(size=s),
                       standard_normal=lambda s=None: normal(size=s), seed=lambda *a: None)
    d['random'] = rn
    return m


# ------------------------------------------------------------------ csv
class Cell(object):
    """text of one column"""

    def __init__(self, base, k, isint):
        self.base, self.k, self.isint = base, k, isint

    def _toint(self):
        if not self.isint:
            raise Unsupported('int() of the value column')
        return mk(alg.EL(self.base, [self.k]), True)

    def _tofloat(self):
        return Num(alg.EL(self.base, [self.k]), False)

    def _subst(self, m):
        return Cell(self.base, self.k.subst(m), self.isint)

    def strip(self, *a):
        return self


class Row(object):
    """row k of the file; raw rows may be blank, entry rows are the non-blank ones in order"""

    def __init__(self, f, k, raw):
        self.f, self.k, self.raw = f, k, raw

    def _len(self):
        n = self.f.order + 1
        if self.raw:
            return mk(alg.EL(self.f.name + '.nonblank', [self.k]) * n, True)
        return n

    def __len__(self):
        n = self._len()
        if isinstance(n, int):
            return n
        raise Unsupported('length of a possibly blank row')

    def __bool__(self):
        return bool(S.neg(S.eq(topoly(self._len()))))

    def cells(self):
        if self.raw:
            c = S.neg(S.eq(topoly(self._len())))
            if not ENG.valid(c):
                raise IndexError('list index out of range')
            raise Unsupported('columns of a raw row')
        f = self.f
        return L.PList([Cell('%s.i%d' % (f.name, j), self.k, True) for j in range(f.order)] +
                       [Cell(f.name + '.v', self.k, False)])

    def __getitem__(self, i):
        return self.cells()[i]

    def _symiter(self):
        if self.raw:
            raise Unsupported('iteration over a possibly blank row')
        return None

    def __iter__(self):
        return iter(self.cells())

    def _subst(self, m):
        return Row(self.f, self.k.subst(m), self.raw)

    def _filtered(self, guard, k):
        """the rows passing `guard` are exactly the non-blank ones"""
        if not self.raw or self.k != VAR(k):
            return None
        nb = S.neg(S.eq(alg.EL(self.f.name + '.nonblank', [self.k])))
        if ENG.valid(nb == guard) is not True:
            return None
        n = alg.DIM(self.f.name + '.entries')
        j = newvar(n, 'k')
        return n, j, Row(self.f, VAR(j), False)


class CsvFile(L.FileStub):
    def __init__(self, name, order):
        self.name, self.order = name, order
        alg.NONNEG.add(name + '.nonblank')
        for j in range(order):
            S.INTBASE.add('%s.i%d' % (name, j))
            alg.NONNEG.add('%s.i%d' % (name, j))

    def rows(self):
        n = alg.DIM(self.name + '.rows')
        k = newvar(n, 'k')
        return L.SSeq(n, k, Row(self, VAR(k), True))


def build_csv():
    m = Module('csv')

    def reader(f, *a, **k):
        if not isinstance(f, CsvFile) or a or k:
            raise Unsupported('csv.reader arguments')
        return f.rows()
    m.__dict__.update(reader=reader)
    return m
