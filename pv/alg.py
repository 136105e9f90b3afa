"""Sum-of-products normal form over tensor elements (the equational back end).

A value is a polynomial `P`: a finite map  Term -> rational.  A Term is
    SUM_{b0<d0} ... SUM_{bn<dn}  PRODUCT_j atom_j ^ e_j
with atoms
    ('v', x)            the value of index variable x   (str: free, int: bound)
    ('e', base, args)   element `args` of tensor / function `base`
where every arg is itself a (binder-free) P over index variables.

Nested scalar functions (sqrt, inverse of a sum, sign indicators, max, svd ...)
are lambda-lifted to a *base* whose name is a digest of the closed, canonical
body, so equality of values is equality of keys.  Equal keys imply equal values
(the key spells out the whole expression); different keys imply nothing.

The rules used: commutative-ring laws, sum exchange/distribution, summation of
a constant, elimination of Kronecker deltas, x*x^-1=1 (x != 0), sqrt(x)^2=x
(x >= 0), ind^2=ind for 0/1 indicators, x*ne0(x)=x.
"""
from fractions import Fraction
import hashlib
import itertools

DEFS = {}          # base -> dict(kind=..., params=[...], body=P ...)
VARDIM = {}        # free index variable -> size (P)
POSBASE = set()    # 0-ary bases known > 0 (dimensions)
NONNEG = set()     # bases known element-wise >= 0
INDK = ('gt0', 'ne0', 'delta', 'lt')   # idempotent indicator kinds
_fresh = itertools.count()
STATS = {'canon': 0, 'equal': 0}


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


def digest(s):
    return hashlib.blake2b(s.encode(), digest_size=9).hexdigest()


def kind_of(base):
    i = base.find('#')
    return base[:i] if i > 0 else base


# ---------------------------------------------------------------- terms
class Term(object):
    __slots__ = ('b', 'f', 'key', '_h')

    def __init__(self, b, f, key):
        self.b = b
        self.f = f
        self.key = key
        self._h = hash(key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or self.key == o.key

    def __repr__(self):
        return self.key


def _argkey(p, nm):
    # p: binder-free P
    v = p._var
    if v is not None:
        return nm(v)
    if p._const is not None:
        return str(p._const)
    if not p.hasbound() and nm is _plain:
        return '<' + p.key + '>'
    out = []
    for t, c in p.t.items():
        fs = sorted(_atomkey(a, nm) + ('^%d' % e if e != 1 else '') for a, e in t.f)
        out.append('%s*%s' % (c, '.'.join(fs)))
    return '<' + '+'.join(sorted(out)) + '>'


def _atomkey(a, nm):
    if a[0] == 'v':
        return '$' + nm(a[1])
    if not a[2]:
        return a[1]
    return a[1] + '(' + ','.join(_argkey(p, nm) for p in a[2]) + ')'


def _plain(v):
    return v if isinstance(v, str) else 'b%d' % v


def _avars(a, acc):
    if a[0] == 'v':
        acc.add(a[1])
    else:
        for p in a[2]:
            if p._var is not None:
                acc.add(p._var)
            elif p._const is None:
                p.vars_into(acc)


def atom_vars(a):
    s = set()
    _avars(a, s)
    return s


def _ren_atom(a, m):
    """rename variables (var->var) in an atom"""
    if a[0] == 'v':
        return ('v', m.get(a[1], a[1]))
    if not a[2]:
        return a
    return ('e', a[1], tuple(p.ren(m) for p in a[2]))


_mono_cache = {}


def _mkterm(b, items):
    """items: list of (atom, exp), bound vars already canonically numbered."""
    if not items and not b:
        return _EMPTY
    ks = sorted((_atomkey(a, _plain), e, i) for i, (a, e) in enumerate(items))
    f = tuple(items[i] for _, _, i in ks)
    key = '*'.join(k + ('^%d' % e if e != 1 else '') for k, e, _ in ks)
    if b:
        key = 'S[' + ';'.join(d.key for d in b) + ']' + key
    return Term(tuple(b), f, key)


def canon(b, facs):
    """b: list of dims P; facs: dict atom->exp using bound vars 0..len(b)-1"""
    STATS['canon'] += 1
    n = len(b)
    items = [(a, e) for a, e in facs.items() if e]
    if n == 0:
        return _mkterm((), items)
    if n == 1:
        return _mkterm(b, items)
    occ = [sorted(v for v in atom_vars(a) if isinstance(v, int)) for a, _ in items]
    col = [d.key for d in b]
    best = _label(b, items, occ, col, 0)
    return best


def _refine(items, occ, col):
    n = len(col)
    ncls = len(set(col))
    while ncls < n:
        sig = [[] for _ in range(n)]
        for (a, e), vs in zip(items, occ):
            for v in vs:
                def nm(x, v=v):
                    if isinstance(x, str):
                        return x
                    return '*' if x == v else '@' + col[x]
                sig[v].append(_atomkey(a, nm) + '^%d' % e)
        new = [digest(col[i] + '|' + '|'.join(sorted(sig[i]))) for i in range(n)]
        k = len(set(new))
        col = new
        if k == ncls:
            break
        ncls = k
    return col


def _label(b, items, occ, col, depth):
    n = len(b)
    col = _refine(items, occ, col)
    cls = {}
    for i, c in enumerate(col):
        cls.setdefault(c, []).append(i)
    if len(cls) == n:
        order = sorted(range(n), key=lambda i: col[i])
        m = {old: new for new, old in enumerate(order)}
        return _mkterm([b[i] for i in order],
                       [(_ren_atom(a, m), e) for a, e in items])
    tied = min((c for c in cls if len(cls[c]) > 1))
    mem = cls[tied]
    if len(mem) > 4 or depth > 5:
        mem = mem[:2] if depth <= 5 else mem[:1]
    best = None
    for i in mem:
        c2 = list(col)
        c2[i] = col[i] + '!'
        t = _label(b, items, occ, c2, depth + 1)
        if best is None or t.key < best.key:
            best = t
    return best


# ---------------------------------------------------------------- polynomials
class P(object):
    __slots__ = ('t', '_key', '_h', '_var', '_const', '_hb')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._h = None
        self._hb = None
        self._var = None
        self._const = None
        if not t:
            self._const = Fraction(0)
        elif len(t) == 1:
            (k, c), = t.items()
            if not k.b:
                if not k.f:
                    self._const = c
                elif len(k.f) == 1 and c == 1 and k.f[0][1] == 1 and k.f[0][0][0] == 'v':
                    self._var = k.f[0][0][1]

    # --- basic
    @property
    def key(self):
        if self._key is None:
            if self._const is not None:
                self._key = str(self._const)
            else:
                self._key = ' + '.join(
                    (str(c) + '*' if c != 1 else '') + k
                    for k, c in sorted((t.key, c) for t, c in self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        if not isinstance(o, P):
            return NotImplemented
        return self is o or self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return self.key

    def hasbound(self):
        if self._hb is None:
            s = set()
            self.vars_into(s)
            self._hb = any(isinstance(v, int) for v in s)
        return self._hb

    def vars_into(self, acc):
        for t in self.t:
            for a, _ in t.f:
                _avars(a, acc)

    def freevars(self):
        s = set()
        self.vars_into(s)
        return {v for v in s if isinstance(v, str)}

    def is_const(self):
        return self._const is not None

    @property
    def const(self):
        return self._const

    def ren(self, m):
        """var->var renaming for a binder-free P used as an index argument"""
        if self._var is not None:
            v = self._var
            if v in m:
                return VAR(m[v])
            return self
        if self._const is not None:
            return self
        s = set()
        self.vars_into(s)
        if not any(v in m for v in s):
            return self
        out = {}
        for t, c in self.t.items():
            assert not t.b
            f = {}
            for a, e in t.f:
                a2 = _ren_atom(a, m)
                f[a2] = f.get(a2, 0) + e
            t2 = canon([], f)
            out[t2] = out.get(t2, 0) + c
        return P({k: v for k, v in out.items() if v})

    # --- ring
    def __add__(self, o):
        o = lift_num(o)
        if self._const == 0:
            return o
        if o._const == 0:
            return self
        d = dict(self.t)
        for k, c in o.t.items():
            s = d.get(k, 0) + c
            if s:
                d[k] = s
            else:
                d.pop(k, None)
        return P(d)
    __radd__ = __add__

    def __neg__(self):
        return P({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift_num(o))

    def __rsub__(self, o):
        return lift_num(o) - self

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return P({k: v * c for k, v in self.t.items()})

    def __mul__(self, o):
        o = lift_num(o)
        if self._const is not None:
            return o.scale(self._const)
        if o._const is not None:
            return self.scale(o._const)
        res = []
        for t1, c1 in self.t.items():
            for t2, c2 in o.t.items():
                res.append(_multerm(t1, t2).scale(c1 * c2))
        return addall(res)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(lift_num(o))

    def __rtruediv__(self, o):
        return lift_num(o) * inv(self)

    def __pow__(self, n):
        if isinstance(n, int):
            if n < 0:
                return inv(self) ** (-n)
            r = ONE
            for _ in range(n):
                r = r * self
            return r
        return powr(self, lift_num(n))

    # --- substitution
    def subst(self, m):
        """m: free var -> P (binder-free)."""
        if not m:
            return self
        fv = self.freevars()
        m = {k: v for k, v in m.items() if k in fv}
        if not m:
            return self
        if self._var is not None:
            return m[self._var]
        if all(v._var is not None for v in m.values()):
            mm = {k: v._var for k, v in m.items()}
            out = {}
            for t, c in self.t.items():
                f = {}
                special = False
                for a, e in t.f:
                    a2 = _ren_atom(a, mm)
                    if a2[0] == 'e' and a2[1] == 'delta' and a2[2][0] == a2[2][1]:
                        continue
                    f[a2] = f.get(a2, 0) + e
                    if a2[0] == 'e' and kind_of(a2[1]) in INDK:
                        f[a2] = 1
                t2 = canon(list(t.b), f)
                out[t2] = out.get(t2, 0) + c
            return P({k: v for k, v in out.items() if v})
        return addall([_subst_term(t, m).scale(c) for t, c in self.t.items()])

    # --- summation
    def sum(self, var, dim):
        res = []
        for t, c in self.t.items():
            res.append(_sumterm(t, var, dim).scale(c))
        return addall(res)


def addall(ps):
    d = {}
    for p in ps:
        for k, c in p.t.items():
            d[k] = d.get(k, 0) + c
    return P({k: v for k, v in d.items() if v})


def lift_num(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return CONST(Fraction(x))
    if isinstance(x, Fraction):
        return CONST(x)
    if isinstance(x, float):
        return CONST(frac_of_float(x))
    raise TypeError('not a number: %r' % (x,))


def frac_of_float(x):
    if x != x or x in (float('inf'), float('-inf')):
        raise TypeError('non-finite float')
    f = Fraction(x).limit_denominator(1000)
    if abs(float(f) - x) <= 1e-15 * max(1.0, abs(x)) and (x == 0) == (f == 0):
        return f
    return Fraction(repr(x))


_const_cache = {}
_EMPTY = Term((), (), '1')


def CONST(c):
    c = Fraction(c)
    r = _const_cache.get(c)
    if r is None:
        r = P({_EMPTY: c} if c else {})
        _const_cache[c] = r
    return r


ZERO = CONST(0)
ONE = CONST(1)
_var_cache = {}


def VAR(v):
    r = _var_cache.get(v)
    if r is None:
        a = ('v', v)
        r = P({Term((), ((a, 1),), '$' + _plain(v)): Fraction(1)})
        _var_cache[v] = r
    return r


def names(p):
    """base names occurring in p"""
    r, stack = set(), [p]
    while stack:
        q = stack.pop()
        for t in q.t:
            for b in t.b:
                if isinstance(b, P):
                    stack.append(b)
            for a, _ in t.f:
                if a[0] == 'e':
                    r.add(a[1])
                    stack.extend(a[2])
    return r


def SYM(name):
    return EL(name, ())


def EL(base, args):
    a = ('e', base, tuple(lift_num(x) for x in args))
    return P({_mkterm((), [(a, 1)]): Fraction(1)})


def DIM(name):
    POSBASE.add(name)
    return SYM(name)


def newvar(dim, hint='x'):
    v = '%s%d' % (hint, next(_fresh))
    VARDIM[v] = lift_num(dim)
    return v


def monomial(facs):
    """dict atom->exp (binder free, after normalisation) -> P"""
    return _norm_term([], facs)


TICK = None         # called now and then during long computations


def _norm_term(b, f):
    if TICK is not None:
        TICK()
    """normalise special atoms in a factor dict; returns P"""
    f = dict(f)
    extra = []
    for a in list(f):
        if a[0] != 'e':
            continue
        e = f[a]
        if e == 0:
            del f[a]
            continue
        base = a[1]
        k = kind_of(base)
        if k in INDK:
            if e > 1:
                f[a] = 1
            if k == 'delta':
                p, q = a[2]
                if p == q:
                    del f[a]
                elif p._const is not None and q._const is not None:
                    return ZERO
        elif k == 'sqrt' and abs(e) >= 2:
            d, r = divmod(abs(e), 2)
            s = 1 if e > 0 else -1
            f[a] = s * r
            if r == 0:
                del f[a]
            extra.append((base, a[2], s * d))
        elif k == 'poly' and e > 0:
            del f[a]
            extra.append((base, a[2], e))
    # x * ne0(x) = x for monomial x
    for a in list(f):
        if a[0] == 'e' and a in f and kind_of(a[1]) == 'ne0':
            d = DEFS[a[1]]
            body = d['body'].subst(dict(zip(d['params'], a[2]))) if not any(
                p.hasbound() for p in a[2]) else None
            if body is None:
                # substitute bound vars by temporary free names
                m = {}
                for p in a[2]:
                    s = set()
                    p.vars_into(s)
                    for v in s:
                        if isinstance(v, int):
                            m[v] = '?%d' % v
                inv_m = {v: k for k, v in m.items()}
                body = d['body'].subst(dict(zip(d['params'], [p.ren(m) for p in a[2]])))
                if len(body.t) == 1:
                    (bt, bc), = body.t.items()
                    if not bt.b and all(f.get(_ren_atom(x, inv_m), 0) >= e > 0 for x, e in bt.f):
                        del f[a]
                        continue
            elif len(body.t) == 1:
                (bt, bc), = body.t.items()
                if not bt.b and all(f.get(x, 0) >= e > 0 for x, e in bt.f):
                    del f[a]
                    continue
            # ne0(x)*gt0(x) = gt0(x)
            for g in f:
                if g[0] == 'e' and kind_of(g[1]) == 'gt0' and g[2] == a[2] and \
                        DEFS[g[1]]['body'] == d['body'] and DEFS[g[1]]['params'] == d['params']:
                    del f[a]
                    break
    if not extra:
        return P({canon(list(b), f): Fraction(1)})
    # multiply by the expanded definitions; rename bound variables to free ones first
    m = {i: '?%d' % i for i in range(len(b))}
    base = P({canon([], {_ren_atom(a, m): e for a, e in f.items()}): Fraction(1)})
    for bs, args, e in extra:
        d = DEFS[bs]
        body = d['body'].subst(dict(zip(d['params'], [p.ren(m) for p in args])))
        base = base * (body ** e if e > 0 else inv(body) ** (-e))
    for i in range(len(b)):
        base = base.sum('?%d' % i, b[i])
    return base


def _mulfac(f, a, e):
    f[a] = f.get(a, 0) + e
    if f[a] == 0:
        del f[a]


def _needs_norm(f):
    for a, e in f.items():
        if a[0] == 'e':
            k = kind_of(a[1])
            if k in INDK or (k == 'sqrt' and abs(e) >= 2) or (k == 'poly' and e > 0):
                return True
    return False


def _multerm(t1, t2):
    n1 = len(t1.b)
    f = {}
    for a, e in t1.f:
        f[a] = e
    if t2.b and n1:
        m = {i: i + n1 for i in range(len(t2.b))}
        for a, e in t2.f:
            _mulfac(f, _ren_atom(a, m), e)
    else:
        for a, e in t2.f:
            _mulfac(f, a, e)
    b = list(t1.b) + list(t2.b)
    if _needs_norm(f):
        return _norm_term(b, f)
    return P({canon(b, f): Fraction(1)})


def _open(t, tag='?o'):
    """replace bound variables by fresh free names; returns (names, facs)"""
    names = []
    for d in t.b:
        v = newvar(d, tag)
        names.append(v)
    m = dict(enumerate(names))
    return names, {_ren_atom(a, m): e for a, e in t.f}


def _subst_term(t, m):
    names, facs = _open(t)
    acc = ONE
    simple = {}
    for a, e in facs.items():
        if a[0] == 'v':
            if a[1] in m:
                acc = acc * (m[a[1]] ** e)
            else:
                _mulfac(simple, a, e)
        else:
            vs = atom_vars(a)
            if any(v in m for v in vs):
                args = tuple(p.subst(m) for p in a[2])
                q = apply_base(a[1], args)
                acc = acc * (q ** e)
            else:
                _mulfac(simple, a, e)
    acc = acc * _norm_term([], simple)
    for v, d in zip(names, t.b):
        acc = acc.sum(v, d)
    return acc


def expand(p, limit=16, most=4000):
    """sums over constant ranges (at most `limit`) written out; None when that is too large"""
    out = []
    n = 0
    for t, c in p.t.items():
        if not any(d.is_const() and d.const <= limit for d in t.b):
            out.append(P({t: c}))
            continue
        names, facs = _open(t)
        small = [(v, int(d.const)) for v, d in zip(names, t.b) if d.is_const() and d.const <= limit]
        keep = [(v, d) for v, d in zip(names, t.b) if not (d.is_const() and d.const <= limit)]
        base = _norm_term([], facs)
        work = [base]
        for v, d in small:
            work = [q.subst({v: CONST(i)}) for q in work for i in range(d)]
            n += len(work)
            if n > most:
                return None
        for q in work:
            for v, d in keep:
                q = q.sum(v, d)
            out.append(q.scale(c))
    return addall(out)


def apply_base(base, args):
    """element `args` of base, simplifying delta / idiv / imod"""
    args = tuple(lift_num(x) for x in args)
    if base == 'delta':
        return delta(*args)
    d = DEFS.get(base)
    if d is not None and args and d.get('kind') in RELIFT and len(d.get('params', ())) == len(args) and \
            not d.get('matrix') and any(x._const is not None for x in args):
        return relift(d, args)
    return EL(base, args)


RELIFT = ('gt0', 'ne0', 'sqrt', 'rmax', 'rmin')


def relift(d, args):
    """the defined function at (partly) constant arguments, in canonical form"""
    k = d['kind']
    m = dict(zip(d['params'], args))
    if k in ('rmax', 'rmin'):
        (b, dim), = d['bound']
        if d.get('extra'):
            return lift(k, d['body'].subst(m), extra=d['extra'], fixed=[(b, dim)])
        v = newvar(dim)
        m[b] = VAR(v)
        return reduce_fn(k, d['body'].subst(m), v, dim)
    p = d['body'].subst(m)
    return {'gt0': gt0, 'ne0': ne0, 'sqrt': sqrt}[k](p)


def delta(p, q):
    p = lift_num(p)
    q = lift_num(q)
    if p == q:
        return ONE
    d = p - q
    if d._const is not None:
        return ZERO
    if p.key > q.key:
        p, q = q, p
    return EL('delta', (p, q))


LE_HOOK = None      # semantic fallback: path condition implies a <= b


def _dim_le(a, b):
    """a <= b known"""
    if a == b:
        return True
    d = b - a
    if d._const is not None:
        return d._const >= 0
    if _dim_le0(a, b):
        return True
    return bool(LE_HOOK and LE_HOOK(a, b))


def _dim_le0(a, b):
    # a = imin(x,y)
    if len(a.t) == 1:
        (t, c), = a.t.items()
        if c == 1 and not t.b and len(t.f) == 1 and t.f[0][1] == 1 and t.f[0][0][0] == 'e':
            bs = t.f[0][0][1]
            if kind_of(bs) == 'imin':
                return any(_dim_le(x, b) for x in DEFS[bs]['of'])
    return False


def _sumterm(t, var, dim):
    # does var occur?
    hit = False
    for a, _ in t.f:
        if var in atom_vars(a):
            hit = True
            break
    if not hit:
        return P({t: Fraction(1)}) * dim
    # delta elimination
    if any(a[0] == 'e' and a[1] == 'delta' for a, _ in t.f):
        names, facs = _open(t)
        dims = dict(zip(names, t.b))
        dims[var] = dim
        todo = [var] + names
        p = _norm_term([], facs)
        return _sum_delta(p, todo, dims)
    n = len(t.b)
    m = {var: n}
    f = {}
    for a, e in t.f:
        _mulfac(f, _ren_atom(a, m), e)
    return P({canon(list(t.b) + [dim], f): Fraction(1)})


def _sum_delta(p, todo, dims):
    """sum p (no binders inside) over the variables in todo, eliminating deltas"""
    for v in todo:
        for t in p.t:
            for a, e in t.f:
                if a[0] == 'e' and a[1] == 'delta':
                    x, y = a[2]
                    for s, o in ((x, y), (y, x)):
                        if s._var == v and v not in o.freevars():
                            ok = False
                            if o._var is not None:
                                od = dims.get(o._var) or VARDIM.get(o._var)
                                ok = od is not None and _dim_le(od, dims[v])
                            elif o._const is not None:
                                dc = dims[v]
                                ok = o._const == 0 or (dc._const is not None and 0 <= o._const < dc._const)
                            if ok:
                                if len(p.t) != 1:
                                    break
                                q = p.subst({v: o})
                                rest = [w for w in todo if w != v]
                                return _sum_delta(q, rest, dims)
    # no more eliminations
    out = p
    for v in todo:
        res = []
        for t, c in out.t.items():
            if any(v in atom_vars(a) for a, _ in t.f):
                n = len(t.b)
                f = {}
                for a, e in t.f:
                    _mulfac(f, _ren_atom(a, {v: n}), e)
                res.append(P({canon(list(t.b) + [dims[v]], f): c}))
            else:
                res.append(P({t: c}) * dims[v])
        out = addall(res)
    return out


# ---------------------------------------------------------------- lambda lifting
def _free_order(p, fixed=()):
    """canonical order of the free index variables of p"""
    fv = [v for v in p.freevars() if v not in fixed]
    if len(fv) <= 1:
        return fv
    col = {v: VARDIM[v].key if v in VARDIM else '?' for v in fv}
    for _ in range(3):
        if len(set(col.values())) == len(fv) and _ > 0:
            break
        new = {}
        for v in fv:
            m = {u: '@' + col[u] for u in fv if u != v}
            m[v] = '*'
            sig = sorted('%s:%s' % (c, canon(list(t.b), _renf(t, m)).key) for t, c in p.t.items())
            new[v] = digest(col[v] + '|' + '|'.join(sig))
        same = len(set(new.values())) == len(set(col.values())) and _ > 0
        col = new
        if same:
            break
    return sorted(fv, key=lambda v: (col[v], v))


def _renf(t, m):
    f = {}
    for a, e in t.f:
        _mulfac(f, _ren_atom(a, m), e)
    return f


def close(p, order):
    """closed body with canonical parameter names p0.. ; returns (params, body)"""
    params = ['%%%d' % i for i in range(len(order))]
    body = p.subst({v: VAR(q) for v, q in zip(order, params)})
    return params, body


def lift(kind, p, extra='', fixed=(), info=None):
    """atom kind(p) with p's free index variables abstracted.
    fixed: variables of p that are bound by the function itself (list of (var, dim))"""
    fx = [v for v, _ in fixed]
    order = _free_order(p, fx)
    params, body = close(p, order)
    if fx:
        m = {v: VAR('%%r%d' % i) for i, v in enumerate(fx)}
        body = body.subst(m)
    name = kind + '#' + digest(extra + '|' + ';'.join(d.key for _, d in fixed) + '|' +
                               str(len(params)) + '|' + body.key)
    if name not in DEFS:
        d = dict(kind=kind, params=params, body=body, extra=extra,
                 bound=[('%%r%d' % i, dd) for i, (_, dd) in enumerate(fixed)])
        if info:
            d.update(info)
        DEFS[name] = d
    if 'dims' not in DEFS[name] and all(v in VARDIM for v in order):
        DEFS[name]['dims'] = [VARDIM[v] for v in order]
    return EL(name, [VAR(v) for v in order])


def lam(tvars, p):
    """digest key of the closed lambda  (tvars) -> p ; free vars beyond tvars stay"""
    params = ['%%%d' % i for i in range(len(tvars))]
    return params, p.subst({v: VAR(q) for v, q in zip(tvars, params)})


# ---------------------------------------------------------------- scalar functions
def _lead(p):
    return min(p.t, key=lambda t: t.key)


def _leadcoef(p):
    """coefficient of the leading term, whatever the free variables are called"""
    cs = set(p.t.values())
    if len(cs) == 1:
        return cs.pop()
    order = _free_order(p)
    if order:
        p = close(p, order)[1]
    return p.t[_lead(p)]


def _content(p):
    """common binder-free factors (atom->min exp over all terms)"""
    common = None
    for t in p.t:
        if True:
            fs = {a: e for a, e in t.f if not any(isinstance(v, int) for v in atom_vars(a))}
        if common is None:
            common = dict(fs)
        else:
            for a in list(common):
                if a in fs and (fs[a] > 0) == (common[a] > 0):
                    common[a] = min(common[a], fs[a]) if fs[a] > 0 else max(common[a], fs[a])
                else:
                    del common[a]
    return common or {}


def _is_mono(p):
    if len(p.t) != 1:
        return None
    (t, c), = p.t.items()
    return (t, c) if not t.b else None


def inv(p):
    if p._const is not None:
        if p._const == 0:
            raise ZeroDivisionError('division by the zero polynomial')
        return CONST(1 / p._const)
    m = _is_mono(p)
    if m:
        t, c = m
        return _norm_term([], {a: -e for a, e in t.f}).scale(1 / c)
    com = _content(p)
    # indicators cannot be divided out
    com = {a: e for a, e in com.items() if not (a[0] == 'e' and kind_of(a[1]) in INDK)}
    pre = ONE
    if com:
        invc = _norm_term([], {a: -e for a, e in com.items()})
        p = p * invc
        pre = invc
    if p._const is not None:
        return pre.scale(1 / p._const)
    m = _is_mono(p)
    if m:
        return pre * inv(p)
    lc = _leadcoef(p)
    q = p.scale(1 / lc)
    a = lift('poly', q)
    (t, _), = a.t.items()
    return pre * _norm_term([], {t.f[0][0]: -1}).scale(1 / lc)


def atom_pos(a):
    return a[0] == 'e' and (a[1] in POSBASE or
                            (kind_of(a[1]) == 'sqrt' and _mono_pos(DEFS[a[1]]['body'])) or
                            (kind_of(a[1]) == 'poly' and is_pos(DEFS[a[1]]['body'])))


def _mono_pos(p):
    m = _is_mono(p)
    return bool(m) and m[1] > 0 and all(atom_pos(a) for a, e in m[0].f)


def is_pos(p):
    return bool(p.t) and all(c > 0 and all(atom_pos(a) for a, _ in t.f) for t, c in p.t.items())


def _sqrt_frac(c):
    from math import isqrt
    n, d = c.numerator, c.denominator
    if n >= 0:
        a, b = isqrt(n), isqrt(d)
        if a * a == n and b * b == d:
            return Fraction(a, b)
    return None


def sqrt(p):
    if p._const is not None:
        r = _sqrt_frac(p._const)
        if r is not None:
            return CONST(r)
        return lift('sqrt', p)
    out = ONE
    # pull out positive dimension factors and rational squares
    com = {a: e for a, e in _content(p).items() if a[0] == 'e' and atom_pos(a)}
    if com:
        p = p * _norm_term([], {a: -e for a, e in com.items()})
        for a, e in com.items():
            q, r = divmod(e, 2)
            if q:
                out = out * _norm_term([], {a: q})
            if r:
                if kind_of(a[1]) == 'sqrt':
                    out = out * lift('sqrt', _norm_term([], {a: 1}))
                else:
                    out = out * lift('sqrt', P({_mkterm((), [(a, 1)]): Fraction(1)}))
    if p._const is not None:
        return out * sqrt(p)
    lc = _leadcoef(p)
    if lc > 0:
        r = _sqrt_frac(lc)
        if r is not None:
            out = out * CONST(r)
        elif lc != 1:
            out = out * lift('sqrt', CONST(lc))
        p = p.scale(1 / lc)
    # perfect squares of non-negative atoms
    m = _is_mono(p)
    if m and m[1] == 1 and all(e % 2 == 0 and atom_nonneg(a) for a, e in m[0].f):
        return out * _norm_term([], {a: e // 2 for a, e in m[0].f})
    return out * lift('sqrt', p)


def powr(p, q):
    if q._const is not None:
        c = q._const
        if c.denominator == 1:
            return p ** int(c)
        if c.denominator == 2:
            return sqrt(p) ** int(c.numerator)
    if p._const == 1:
        return ONE
    # (x)^(q) with x = sqrt(y): keep as is
    return lift2('pow', p, q)


def lift2(kind, p, q):
    v = newvar(2, '?w')
    both = delta(VAR(v), CONST(0)) * p + delta(VAR(v), CONST(1)) * q
    VARDIM[v] = CONST(2)
    return lift(kind, both, fixed=[(v, CONST(2))])


def gt0(p):
    if p._const is not None:
        return ONE if p._const > 0 else ZERO
    p, s = _orient(p)
    if is_pos(p) and s > 0:
        return ONE
    if is_pos(p) and s < 0:
        return ZERO
    g = lift('gt0', p)
    if s > 0:
        return g
    return ne0(p) - g


def ne0(p):
    if p._const is not None:
        return ONE if p._const != 0 else ZERO
    p, _ = _orient(p)
    if is_pos(p):
        return ONE
    # single indicator: ne0(ind)=ind
    if len(p.t) == 1:
        (t, c), = p.t.items()
        if not t.b and len(t.f) == 1 and t.f[0][0][0] == 'e' and kind_of(t.f[0][0][1]) in INDK:
            return P({t: Fraction(1)})
    return lift('ne0', p)


def _bare(p):
    """p without its common factors and with leading coefficient 1"""
    com = _content(p)
    if com:
        p = p * _norm_term([], {a: -e for a, e in com.items()})
    return p.scale(Fraction(1) / _leadcoef(p))


def vanishes(p, depth=0):
    """p is zero, also using  q*(1 - [q != 0]) = 0"""
    if not p.t:
        return True
    if depth > 6:
        return False
    hits = []
    for t in p.t:
        for a, e in t.f:
            if a[0] == 'e' and e == 1 and kind_of(a[1]) == 'ne0' and a[1] in DEFS and a not in hits and \
                    not any(isinstance(v, int) for v in atom_vars(a)):
                hits.append(a)
    for a in hits:
        A, B = [], []
        for t, c in p.t.items():
            f = dict(t.f)
            if f.pop(a, None) is not None:
                A.append(_drop(t, a).scale(c))
            else:
                B.append(P({t: c}))
        A, B = addall(A), addall(B)
        if not A.t:
            continue
        q = DEFS[a[1]]['body'].subst(dict(zip(DEFS[a[1]]['params'], a[2])))
        if not q.t or _bare(A) != _bare(q):
            continue
        if vanishes(A + B, depth + 1):
            return True
    return False


def _drop(t, a):
    """term t without its factor a"""
    names, facs = _open(t)
    facs.pop(a)
    r = _norm_term([], facs)
    for v, d in zip(names, t.b):
        r = r.sum(v, d)
    return r


def _orient(p):
    """strip positive factors; leading coefficient becomes 1; returns (p, sign)"""
    com = {a: e for a, e in _content(p).items() if a[0] == 'e' and atom_pos(a)}
    if com:
        p = p * _norm_term([], {a: -e for a, e in com.items()})
    lc = _leadcoef(p)
    s = 1 if lc > 0 else -1
    return p.scale(Fraction(1) / lc), s


def relu(p):
    if p._const is not None:
        return p if p._const > 0 else ZERO
    if is_nonneg(p):
        return p
    q, s = _orient(p)
    g = lift('gt0', q)
    if s > 0:
        return p * g
    return p - p * g


def maxp(a, b):
    d = a - b
    if d._const is not None:
        return a if d._const >= 0 else b
    q, s = _orient(d)
    if s < 0:
        a, b, d = b, a, -d
    return b + relu(d)


def minp(a, b):
    return a + b - maxp(a, b)


def absp(a):
    return maxp(a, -a)


def where(c, a, b):
    return c * a + (ONE - c) * b


def atom_nonneg(a):
    if a[0] == 'v':
        return True
    if a[1] in NONNEG or a[1] in POSBASE:
        return True
    k = kind_of(a[1])
    if k in INDK or k in ('sqrt', 'svds', 'imin', 'imod', 'idiv'):
        return True
    if k in ('rmax', 'rmin', 'rprod'):
        return is_nonneg(DEFS[a[1]]['body'])
    if k == 'pow':
        return True
    if k == 'poly':
        return is_nonneg(DEFS[a[1]]['body'])
    if k == 'let':
        return bool(DEFS[a[1]].get('nonneg'))
    return False


def is_nonneg(p, depth=0):
    bad = [t for t, c in p.t.items()
           if not (c > 0 and all(e % 2 == 0 or atom_nonneg(a) for a, e in t.f))]
    if not bad:
        return True
    # relu pattern: P = g*R + S
    if depth < 4:
        seen = set()
        for t in bad:
            for a, e in t.f:
                if a[0] == 'e' and kind_of(a[1]) == 'gt0' and a not in seen:
                    seen.add(a)
                    if any(isinstance(v, int) for v in atom_vars(a)):
                        continue
                    R, S = {}, {}
                    for tt, c in p.t.items():
                        fs = dict(tt.f)
                        if a in fs:
                            fs.pop(a)
                            t2 = canon(list(tt.b), fs)
                            R[t2] = R.get(t2, 0) + c
                        else:
                            S[tt] = c
                    R, S = P({k: v for k, v in R.items() if v}), P(S)
                    d = DEFS[a[1]]
                    Q = d['body'].subst(dict(zip(d['params'], a[2])))
                    ratio = _posratio(R, Q)
                    if ratio and (S._const == 0 or is_nonneg(S, depth + 1)):
                        return True
                    if ratio:
                        S2 = S + R
                        if S2._const == 0 or is_nonneg(S2, depth + 1):
                            return True
    # bound relu inside a sum: sum of nonneg terms where every term group is nonneg under its binders
    if any(t.b for t in p.t) and depth < 4:
        bs = {tuple(d.key for d in t.b) for t in p.t}
        if len(bs) == 1 and len(p.t) > 1:
            pass
    return False


def _posratio(R, Q):
    """R = m*Q with m a positive monomial?"""
    if not R.t or not Q.t or len(R.t) != len(Q.t):
        return None
    tq = _lead(Q)
    for tr in R.t:
        # candidate ratio from tr / tq (only binder-free handled, plus identical-binder constants)
        if [d.key for d in tr.b] == [d.key for d in tq.b] and tr == tq:
            c = R.t[tr] / Q.t[tq]
            if c > 0 and Q.scale(c) == R:
                return c
        if not tr.b and not tq.b:
            fr, fq = dict(tr.f), dict(tq.f)
            m = dict(fr)
            for a, e in fq.items():
                m[a] = m.get(a, 0) - e
                if m[a] == 0:
                    del m[a]
            if all(atom_nonneg(a) or e % 2 == 0 for a, e in m.items()):
                c = R.t[tr] / Q.t[tq]
                if c > 0:
                    mm = _norm_term([], m).scale(c)
                    if mm * Q == R:
                        return c
    return None


def imin(a, b):
    if a == b:
        return a
    d = a - b
    if d._const is not None:
        return a if d._const <= 0 else b
    if is_pos(d):
        return b
    if is_pos(-d):
        return a
    if LE_HOOK:
        if LE_HOOK(a, b):
            return a
        if LE_HOOK(b, a):
            return b
    x, y = sorted([a, b], key=lambda p: p.key)
    name = 'imin#' + digest(x.key + '|' + y.key)
    DEFS.setdefault(name, dict(kind='imin', of=[x, y], params=[], body=None))
    POSBASE.add(name)
    return SYM(name)


def idiv(p, d):
    if p._const is not None and d._const is not None:
        return CONST(p._const // d._const)
    # (hi*d + lo) div d with lo a variable of size d
    q, r = _divlin(p, d)
    if r is not None:
        return q
    return lift2('idiv', p, d)


def imod(p, d):
    if p._const is not None and d._const is not None:
        return CONST(p._const % d._const)
    q, r = _divlin(p, d)
    if r is not None:
        return r
    return lift2('imod', p, d)


def _divlin(p, d):
    """write p = q*d + r with 0<=r<d syntactically"""
    q, r = [], []
    for t, c in p.t.items():
        qq = divide_mono(P({t: c}), d)
        if qq is not None:
            q.append(qq)
        else:
            r.append(P({t: c}))
    r = addall(r)
    q = addall(q)
    ub = upper(r)
    if ub is not None and _dim_le(ub, d - 1) and all(c >= 0 for c in r.t.values()):
        return q, r
    return None, None


def upper(p):
    """upper bound of an index polynomial"""
    out = ZERO
    for t, c in p.t.items():
        if t.b or c < 0:
            return None
        m = ONE.scale(c)
        for a, e in t.f:
            if a[0] == 'v':
                vd = VARDIM.get(a[1])
                if vd is None:
                    return None
                m = m * ((vd - 1) ** e)
            elif a[1] in POSBASE and e > 0:
                m = m * (P({_mkterm((), [(a, 1)]): Fraction(1)}) ** e)
            else:
                return None
        out = out + m
    return out


def divide_mono(p, d):
    """exact quotient p/d as a polynomial with non-negative exponents and integer coefficients, or None"""
    if d._const is not None:
        if d._const == 0:
            return None
        q = p.scale(1 / d._const)
        return q if all(c.denominator == 1 for c in q.t.values()) else None
    if p == d:
        return ONE
    m = _is_mono(d)
    if not m:
        # polynomial divisor: only exact multiples by a monomial
        if len(p.t) == len(d.t):
            tp, td = _lead(p), _lead(d)
            c = p.t[tp] / d.t[td]
            if d.scale(c) == p and c.denominator == 1:
                return CONST(c)
        return None
    t, c = m
    df = dict(t.f)
    out = {}
    for pt, pc in p.t.items():
        if pt.b:
            return None
        f = dict(pt.f)
        for a, e in df.items():
            if f.get(a, 0) < e:
                return None
            f[a] -= e
            if f[a] == 0:
                del f[a]
        k = pc / c
        if k.denominator != 1:
            return None
        t2 = canon([], f)
        out[t2] = out.get(t2, 0) + k
    return P(out)


def reduce_fn(kind, p, var, dim):
    """rmax / rmin / rprod of p over var<dim"""
    if dim._const == 1:
        return p.subst({var: ZERO})
    if dim._const is not None and dim._const <= (64 if kind == 'rprod' else 8) and kind in ('rmax', 'rmin', 'rprod'):
        vals = [p.subst({var: CONST(i)}) for i in range(int(dim._const))]
        r = vals[0]
        for x in vals[1:]:
            r = {'rmax': maxp, 'rmin': minp, 'rprod': lambda a, b: a * b}[kind](r, x)
        return r
    if var not in p.freevars():
        if kind == 'rprod':
            return powr(p, dim)
        return p
    return lift(kind, p, fixed=[(var, dim)])


# ---------------------------------------------------------------- unfolding of definitional abbreviations
class TooBig(Exception):
    pass


def let_names(p):
    """names of the abbreviations p mentions (also inside other definitions, not inside abbreviations)"""
    r, seen, stack = set(), set(), [p]
    while stack:
        for n in names(stack.pop()):
            if n in DEFS and n not in seen:
                seen.add(n)
                if DEFS[n].get('kind') == 'let':
                    r.add(n)
                elif DEFS[n].get('body') is not None:
                    stack.append(DEFS[n]['body'])
    return r


def inline(p, which, memo=None, most=3000):
    """p with every abbreviation in `which` renamed (which[n] a name) or replaced by its definition (None)"""
    memo = {} if memo is None else memo
    if TICK is not None:
        TICK()
    out = []
    for t, c in p.t.items():
        if not any(a[0] == 'e' and (a[1] in DEFS or any(q._const is None for q in a[2])) for a, _ in t.f):
            out.append(P({t: c}))
            continue
        nms, facs = _open(t)
        simple = {}
        acc = ONE
        hit = False
        for a, e in facs.items():
            q = _inline_atom(a, which, memo, most) if a[0] == 'e' else None
            if q is None:
                _mulfac(simple, a, e)
            else:
                hit = True
                acc = acc * (q ** e)
                if len(acc.t) > most:
                    raise TooBig()
        if not hit:
            out.append(P({t: c}))
            continue
        acc = acc * _norm_term([], simple)
        for v, d in zip(nms, t.b):
            acc = acc.sum(v, d)
        out.append(acc.scale(c))
        memo[None] = memo.get(None, 0) + len(acc.t)
        if memo[None] > 20 * most:
            raise TooBig()
    return addall(out)


def _inline_def(name, which, memo, most):
    """the definition's body after replacement, None when nothing changes"""
    if name in memo:
        return memo[name]
    b = DEFS[name].get('body')
    r = None
    if b is not None and let_names(b) & set(which):
        d = DEFS[name]
        ps = list(zip(d.get('params', ()), d.get('dims', ()))) + [(v, dim) for v, dim in d.get('bound', ()) if v]
        new = [newvar(dim) for _, dim in ps]
        t = b.subst({v: VAR(n) for (v, _), n in zip(ps, new)})
        q = inline(t, which, memo, most)
        if q != t:
            r = q.subst({n: VAR(v) for (v, _), n in zip(ps, new)})
    memo[name] = r
    return r


def _inline_atom(a, which, memo, most):
    name = a[1]
    args = tuple(inline(x, which, memo, most) if x._const is None and x._var is None else x for x in a[2])
    d = DEFS.get(name)
    if d is None:
        return None if args == a[2] else apply_base(name, args)
    k = d['kind']
    if k == 'let':
        if name in which:
            if which[name] is not None:
                return EL(which[name], args)
            return d['body'].subst(dict(zip(d['params'], args)))
        return None if args == a[2] else EL(name, args)
    nb = _inline_def(name, which, memo, most)
    if nb is None:
        return None if args == a[2] else apply_base(name, args)
    if d.get('matrix'):
        nm = name.split('#')[0] + '#' + digest('%s|%s|%s|%s' % (
            d.get('full'), d.get('extra', ''), ';'.join(x.key for _, x in d['bound']), nb.key))
        DEFS.setdefault(nm, dict(d, body=nb))
        if name in NONNEG:
            NONNEG.add(nm)
        return EL(nm, args)
    if k in RELIFT or k == 'poly':
        m = dict(zip(d['params'], args))
        if k in ('rmax', 'rmin'):
            (b, dim), = d['bound']
            if d.get('extra'):
                return lift(k, nb.subst(m), extra=d['extra'], fixed=[(b, dim)])
            v = newvar(dim)
            m[b] = VAR(v)
            return reduce_fn(k, nb.subst(m), v, dim)
        q = nb.subst(m)
        return {'gt0': gt0, 'ne0': ne0, 'sqrt': sqrt, 'poly': lambda x: x}[k](q)
    raise TooBig()
