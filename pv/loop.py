"""Hooks called by the rewritten code: iteration, containers, builtins."""
import builtins
from fractions import Fraction
from . import alg
from . import symex as S
from .alg import P, VAR, CONST, ZERO, ONE, newvar, lift_num
from .symex import Num, Cond, ENG, mk, topoly, gt, conj, neg, tobool
from .tv import Unsupported, TV


class _Undef(object):
    def __repr__(self):
        return '<undefined>'

    def _bad(self, *a, **k):
        raise UnboundLocalError('variable read before assignment')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __getitem__ = __call__ = __bool__ = __iter__ = __len__ = _bad
    __eq__ = __ne__ = _bad
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise UnboundLocalError('variable read before assignment')


UNDEF = _Undef()


class _Poison(_Undef):
    def _bad(self, *a, **k):
        raise Unsupported('loop-carried value of an unsupported kind')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __getitem__ = __call__ = __bool__ = __iter__ = __len__ = _bad
    __eq__ = __ne__ = _bad
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported('loop-carried value of an unsupported kind')


POISON = _Poison()


def in_generic():
    return bool(ENG.loops)


# ------------------------------------------------------------------ substitution
def subst_value(v, m):
    if isinstance(v, Num):
        return mk(v.p.subst(m), v.isint)
    if isinstance(v, P):
        return v.subst(m)
    if isinstance(v, (str, int, float, bool, type(None), Fraction)):
        return v
    if hasattr(v, '_subst'):
        return v._subst(m)
    if isinstance(v, Cond):
        if v.kind in ('gt', 'eq'):
            f = S.gt if v.kind == 'gt' else S.eq
            return f(v.p.subst(m))
        if v.kind == 'not':
            return neg(subst_value(v.p, m))
        if v.kind == 'opaque':
            return v
        return (conj if v.kind == 'and' else S.disj)([subst_value(x, m) for x in v.p])
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, list):
        return PList([subst_value(x, m) for x in list.__iter__(v)])
    raise Unsupported('generalising a value of type %s' % type(v).__name__)


class SSeq(object):
    """symbolic sequence  [val[k:=0], ..., val[k:=n-1]]"""

    def __init__(self, n, k, val, guard=None):
        if guard is not None and hasattr(val, '_filtered'):
            r = val._filtered(guard, k)
            if r is not None:
                n, k, val = r
                guard = None
        self.n = n
        self.k = k
        self.val = val
        self.guard = guard      # filtered sequence: elements k with guard(k), in order

    @property
    def length(self):
        if self.guard is None:
            return self.n
        return self.guard.ind().sum(self.k, self.n)

    def get(self, i):
        if self.guard is not None:
            # i-th index satisfying the guard
            d = alg.lift('nth', self.guard.ind(), fixed=[(self.k, self.n)])
            raise Unsupported('indexing a filtered sequence')
        return subst_value(self.val, {self.k: lift_num(i)})

    def _subst(self, m):
        return SSeq(self.n.subst(m), self.k, subst_value(self.val, m), self.guard)


class SymRange(object):
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = topoly(a), topoly(b), step
        if step == 1:
            self.n = self.b - self.a
        elif step == -1:
            self.n = self.a - self.b
        else:
            raise Unsupported('symbolic range with step %r' % step)

    def item(self, k):
        return mk(self.a + k * self.step, True)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range outside a loop')

    def _reversed(self):
        if self.step == 1:
            return SymRange(mk(self.b - 1, True), mk(self.a - 1, True), -1)
        return SymRange(mk(self.b + 1, True), mk(self.a + 1, True), 1)


def symiter(x):
    """(n, item) for a symbolic iterable, else None"""
    if isinstance(x, SymRange):
        return x.n, x.item
    if isinstance(x, PList) and x.segs is not None:
        s = x.single()
        if s is None:
            raise Unsupported('iteration over a mixed symbolic list')
        if s.guard is not None:
            raise Unsupported('iteration over a filtered list')
        return s.n, s.get
    if isinstance(x, SSeq):
        return x.n, x.get
    if hasattr(x, '_symiter'):
        return x._symiter()
    return None


class _It(object):
    __slots__ = ('sym', 'conc', 'n', 'itemfn')


def iter_(x):
    r = _It()
    s = symiter(x)
    if s is None:
        r.sym = False
        r.conc = x
        r.n = r.itemfn = None
        return r
    n, f = s
    n = topoly(n)
    if n.is_const():
        r.sym = False
        r.conc = [f(CONST(i)) for i in builtins.range(builtins.max(0, int(n.const)))]
        return r
    r.sym = True
    r.conc = None
    r.n, r.itemfn = n, f
    return r


# ------------------------------------------------------------------ generic iteration
class Loop(object):
    """one symbolic `for`: run the body on a generic index, summarise the effects"""

    def __init__(self, it, names):
        self.it = it
        self.names = names
        self.phase = 0
        self.done = False
        self.broke = False
        self.sim = getattr(ENG, 'sim', None)
        if self.sim is not None and (ENG.loops or not self.sim.wants(self)):
            self.sim = None

    # --- simulate mode is delegated
    def head(self, vals):
        if self.sim is not None:
            return self.sim.head(self, vals)
        if self.phase == 0:
            self.pre = vals
            self.n = self.it.n
            if not builtins.bool(tobool(gt(self.n))):
                self.done = True
                return vals
            self.k = newvar(self.n, 'k')
            self.runs = []
            self.carry = {}
            self.ltrace = []
            ENG.loops.append(self)
            self.phase = 1
            return self.start()
        self.runs.append((list(self.lpc), list(vals), self.effects))
        t = self.ltrace[:self.lpos]
        while t and t[-1] is False:
            t.pop()
        if t:
            t[-1] = False
            self.ltrace = t
            if len(self.runs) > 16:
                raise Unsupported('too many paths through a loop body')
            return self.start()
        ENG.loops.pop()
        self.done = True
        return self.finish()

    def start(self):
        self.lpos = 0
        self.lpc = []
        self.effects = []
        self.stamp = object()
        # local path conditions are scoped
        if getattr(self, '_pushed', False):
            ENG.solver.pop()
        ENG.solver.push()
        self._pushed = True
        out = []
        for w, v in zip(self.names, self.pre):
            out.append(self.havoc(w, v))
        return tuple(out)

    def havoc(self, w, v):
        if w in self.carry:
            return self.carry[w][1]
        if isinstance(v, (bool, Cond)):
            r = POISON
        elif isinstance(v, (int, float, Num, Fraction)):
            nm = 'carry#%s#%s' % (w, self.k)
            isint = isinstance(v, int) or isinstance(v, Num) and v.isint
            if isint:
                S.INTBASE.add(nm)
            r = Num(alg.SYM(nm), isint)
            self.carry[w] = (nm, r)
        elif hasattr(v, '_carry'):
            nm = 'carry#%s#%s' % (w, self.k)
            r = v._carry(nm)
            self.carry[w] = (nm, r)
        elif isinstance(v, (list, dict, S.__class__)) or hasattr(v, '_heap'):
            r = v
        elif v is UNDEF:
            r = UNDEF
        else:
            r = POISON
        return r

    def item(self):
        if self.sim is not None:
            return self.sim.item(self)
        return self.it.itemfn(VAR(self.k))

    def depends(self, cond):
        vs = cond.vars()
        if self.k in vs:
            return True
        at = cond.atoms()
        return any(nm in at for nm, _ in self.carry.values())

    def local_decide(self, cond):
        if self.lpos < len(self.ltrace):
            b = self.ltrace[self.lpos]
        else:
            b = True
            self.ltrace.append(True)
        self.lpos += 1
        f = ENG.zc(cond)
        ENG.solver.add(f if b else S.z3.Not(f))
        self.lpc.append(cond if b else neg(cond))
        return b

    def brk(self):
        if self.sim is not None:
            return self.sim.brk(self)
        raise Unsupported('break out of a generalised loop')

    def ret(self):
        if self.sim is not None:
            return self.sim.brk(self)
        raise Unsupported('return out of a generalised loop')

    def record(self, kind, obj, *data):
        self.effects.append((kind, obj, data))

    # --- summary
    def finish(self):
        ENG.solver.pop()
        kv, n = self.k, self.n
        cnames = {nm for nm, _ in self.carry.values()}
        # effects
        conds = [conj(r[0]) for r in self.runs]
        self._effects(conds)
        out = []
        for j, w in enumerate(self.names):
            posts = [r[1][j] for r in self.runs]
            out.append(self._final(w, self.pre[j], posts, conds, cnames))
        return tuple(out)

    def _final(self, w, pre, posts, conds, cnames):
        p0 = posts[0]
        if all(p is pre for p in posts):
            return pre
        if w in self.carry and all(p is self.carry[w][1] for p in posts):
            return pre
        if any(p is POISON or p is UNDEF for p in posts):
            return POISON
        num = lambda v: isinstance(v, (int, float, Num, Fraction, Cond)) and not isinstance(v, bool)
        if all(num(p) for p in posts):
            ps = [topoly(p) for p in posts]
            p = ps[0]
            for q, c in list(zip(ps, conds))[1:]:
                p = alg.where(c.ind() if isinstance(c, Cond) else lift_num(int(c)), q, p)
            isint = all(isinstance(x, int) or isinstance(x, Num) and x.isint for x in posts)
            return mk(self.close(w, p, topoly(pre) if num(pre) else None, cnames), isint)
        if len(posts) > 1:
            return POISON
        if hasattr(p0, '_loop_final'):
            return p0._loop_final(self, w, pre, cnames)
        try:
            return subst_value(p0, {self.k: self.n - 1})
        except Unsupported:
            return POISON

    def close(self, w, p, pre, cnames):
        """closed form after n iterations of  w := p(k, w)"""
        used = {a[1] for t in p.t for a, _ in t.f if a[0] == 'e'} & cnames
        me = self.carry[w][0] if w in self.carry else None
        if not used:
            if _mentions(p, cnames):
                raise Unsupported('loop-carried value under a function')
            return p.subst({self.k: self.n - 1})
        if used == {me}:
            c = alg.SYM(me)
            if p == c:
                return pre
            d = p - c
            if not _mentions(d, cnames):
                return pre + d.sum(self.k, self.n)
            # product
            q = []
            ok = True
            for t, co in p.t.items():
                f = dict(t.f)
                a = ('e', me, ())
                if f.get(a) != 1:
                    ok = False
                    break
                f.pop(a)
                q.append(P({alg.canon(list(t.b), f): co}))
            if ok:
                q = alg.addall(q)
                if not _mentions(q, cnames):
                    return pre * alg.reduce_fn('rprod', q, self.k, self.n)
        raise Unsupported('loop-carried dependence of %s' % w)

    def _effects(self, conds):
        # group by object
        objs = []
        for r in self.runs:
            for kind, obj, data in r[2]:
                if not any(o is obj for o in objs):
                    objs.append(obj)
        for obj in objs:
            per = []
            for r, c in zip(self.runs, conds):
                per.append((c, [(k, d) for k, o, d in r[2] if o is obj]))
            obj._apply_loop(self, per)


def _mentions(p, names):
    """does p mention any base in names, also inside lifted definitions"""
    seen = set()
    stack = [p]
    while stack:
        q = stack.pop()
        for t in q.t:
            for a, _ in t.f:
                if a[0] != 'e':
                    continue
                if a[1] in names:
                    return True
                if a[1] in alg.DEFS and a[1] not in seen:
                    seen.add(a[1])
                    b = alg.DEFS[a[1]].get('body')
                    if b is not None:
                        stack.append(b)
                for x in a[2]:
                    stack.append(x)
    return False


class WLoop(object):
    """`while`: concrete iterations run as written; under a simulation spec the loop is
    handed to it; a symbolic condition otherwise forks (bounded by MAXIT)."""
    MAXIT = 60

    def __init__(self, names):
        self.names = names
        self.done = False
        self.broke = False
        self.it = None
        self.count = 0
        self.phase = 0
        self.sim = getattr(ENG, 'sim', None)
        if self.sim is not None and (ENG.loops or not self.sim.wants(self)):
            self.sim = None

    def head(self, vals):
        self.count += 1
        if self.sim is not None:
            return self.sim.head(self, vals)
        if self.count > self.MAXIT:
            raise Unsupported('while loop with a symbolic bound')
        return vals

    def cond(self, f):
        r = f()
        r = builtins.bool(tobool(r)) if isinstance(r, (Cond, Num)) else builtins.bool(r)
        if self.sim is not None:
            return self.sim.wcond(self, r)
        return r

    def wexit(self):
        if self.sim is not None:
            self.sim.wexit(self)

    def brk(self):
        self.broke = True
        if self.sim is not None:
            return self.sim.brk(self)

    def ret(self):
        if self.sim is not None:
            return self.sim.brk(self)


# ------------------------------------------------------------------ lists
class PList(list):
    """a list; may carry symbolic segments"""
    _heap = True

    def __init__(self, x=()):
        if isinstance(x, PList) and x.segs is not None:
            list.__init__(self)
            self.segs = list(x.segs)
        else:
            list.__init__(self, x)
            self.segs = None
        self.stamp = ENG.loops[-1].stamp if ENG.loops else None

    # --- symbolic part
    def single(self):
        segs = [s for s in self.segs if not (s[0] == 'c' and not s[1])]
        if len(segs) == 1 and segs[0][0] == 's':
            return segs[0][1]
        return None

    def tosym(self):
        if self.segs is None:
            self.segs = [('c', list(list.__iter__(self)))]
            list.clear(self)

    def items(self):
        if self.segs is not None:
            raise Unsupported('concrete elements of a symbolic list')
        return list(list.__iter__(self))

    def symlen(self):
        n = ZERO
        for k, s in self.segs:
            n = n + (len(s) if k == 'c' else s.length)
        return n

    def _foreign(self):
        return bool(ENG.loops) and self.stamp is not ENG.loops[-1].stamp

    def _mutate(self):
        if self._foreign():
            raise Unsupported('list mutation inside a generalised loop')
        if self.segs is not None:
            raise Unsupported('mutation of a symbolic list')

    def append(self, v):
        if self._foreign():
            ENG.loops[-1].record('append', self, v)
            return
        if self.segs is not None:
            if self.segs and self.segs[-1][0] == 'c':
                self.segs[-1] = ('c', self.segs[-1][1] + [v])
            else:
                self.segs.append(('c', [v]))
            return
        list.append(self, v)

    def _apply_loop(self, lp, per):
        if any(k != 'append' for _, effs in per for k, _ in effs):
            raise Unsupported('list effect in a generalised loop')
        live = [(c, effs) for c, effs in per if effs]
        if any(len(e) != len(live[0][1]) for _, e in live):
            raise Unsupported('varying number of appends in a generalised loop')
        m = len(live[0][1])
        if len(live) == 1 and len(per) > 1:
            if m != 1:
                raise Unsupported('conditional multi-append')
            c = live[0][0]
            val = live[0][1][0][1][0]
            seg = SSeq(lp.n, lp.k, val, guard=c)
        elif len(live) == len(per):
            if len(per) > 1:
                vals = [effs[0][1][0] for _, effs in live]
                if m != 1 or not all(isinstance(v, (int, float, Num)) for v in vals):
                    raise Unsupported('conditional append of non-numbers')
                p = topoly(vals[0])
                for (c, _), v in list(zip(live, vals))[1:]:
                    p = alg.where(c.ind(), topoly(v), p)
                seg = SSeq(lp.n, lp.k, mk(p))
            elif m == 1:
                seg = SSeq(lp.n, lp.k, live[0][1][0][1][0])
            else:
                raise Unsupported('several appends per generic iteration')
        else:
            raise Unsupported('conditional append')
        if ENG.loops and self._foreign():
            raise Unsupported('nested generic appends to an outer list')
        self.tosym()
        self.segs.append(('s', seg))

    def extend(self, xs):
        if isinstance(xs, PList) and xs.segs is not None:
            if self._foreign():
                raise Unsupported('list mutation inside a generalised loop')
            self.tosym()
            self.segs += xs.segs
            return
        xs = tolist(xs)
        if self._foreign() or self.segs is not None:
            for x in xs:
                self.append(x)
            return
        list.extend(self, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, *a):
        self._mutate()
        return list.insert(self, *a)

    def pop(self, *a):
        self._mutate()
        return list.pop(self, *a)

    def remove(self, *a):
        self._mutate()
        return list.remove(self, *a)

    def reverse(self):
        self._mutate()
        return list.reverse(self)

    def sort(self, *a, **k):
        self._mutate()
        return list.sort(self, *a, **k)

    def clear(self):
        self._mutate()
        return list.clear(self)

    def copy(self):
        return PList(self)

    def __setitem__(self, i, v):
        self._mutate()
        return list.__setitem__(self, i, v)

    def __delitem__(self, i):
        self._mutate()
        return list.__delitem__(self, i)

    def __len__(self):
        if self.segs is not None:
            n = mk(self.symlen(), True)
            if isinstance(n, int):
                return n
            raise Unsupported('len of a symbolic list by C code')
        return list.__len__(self)

    def __iter__(self):
        if self.segs is not None:
            raise Unsupported('iteration over a symbolic list by C code')
        return list.__iter__(self)

    def __bool__(self):
        if self.segs is not None:
            return builtins.bool(tobool(gt(self.symlen())))
        return list.__len__(self) > 0

    def __contains__(self, x):
        if self.segs is not None:
            raise Unsupported('membership in a symbolic list')
        return any(builtins.bool(x is y or x == y) for y in list.__iter__(self))

    def __getitem__(self, i):
        if self.segs is not None:
            return self._symget(i)
        if isinstance(i, Num):
            raise Unsupported('symbolic index into a concrete list')
        if isinstance(i, slice):
            return PList(list.__getitem__(self, i))
        return list.__getitem__(self, i)

    def _symget(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return PList(self)
            raise Unsupported('slice of a symbolic list')
        s = self.single()
        if s is not None and not (isinstance(i, int) and i < 0):
            if isinstance(i, int):
                if not builtins.bool(tobool(gt(s.length - i))):
                    raise IndexError('list index out of range')
            return s.get(topoly(i))
        if isinstance(i, int) and i < 0:
            for k, seg in reversed(self.segs):
                if k == 'c':
                    if len(seg) >= -i:
                        return seg[i]
                    i += len(seg)
                else:
                    if seg.guard is not None if hasattr(seg, 'guard') else False:
                        break
                    if builtins.bool(tobool(gt(seg.length + i + 1))):
                        return seg.get(seg.n + i)
                    raise IndexError('list index out of range')
        if isinstance(i, int) and i >= 0:
            k, seg = self.segs[0]
            if k == 'c' and len(seg) > i:
                return seg[i]
        raise Unsupported('index into a symbolic list')

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = PList(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = PList(o)
        r.extend(self)
        return r

    def __mul__(self, n):
        if isinstance(n, Num):
            return self._repeat(n)
        return PList(list.__mul__(self, n))
    __rmul__ = __mul__

    def _repeat(self, n):
        if self.segs is None and list.__len__(self) == 1:
            r = PList()
            r.segs = [('s', SSeq(n.p, newvar(n.p, 'k'), list.__getitem__(self, 0)))]
            return r
        raise Unsupported('sequence repetition by a symbolic count')

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        if self.segs is not None or (isinstance(o, PList) and o.segs is not None):
            raise Unsupported('comparison of symbolic lists')
        if list.__len__(self) != len(o):
            return False
        return all(builtins.bool(x == y) for x, y in zip(self.items(), list.__iter__(o)))

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def _subst(self, m):
        r = PList()
        if self.segs is None:
            list.extend(r, [subst_value(x, m) for x in list.__iter__(self)])
        else:
            r.segs = [(k, [subst_value(x, m) for x in s] if k == 'c' else s._subst(m)) for k, s in self.segs]
        return r


def tolist(x):
    it = iter_(x)
    if it.sym:
        raise Unsupported('symbolic sequence where a concrete one is needed')
    return builtins.list(it.conc)


# ------------------------------------------------------------------ hooks
class Hooks(object):
    pass


def _get(f):
    try:
        return f()
    except NameError:
        return UNDEF


def comp(it, fn, cond, nested):
    r = iter_(it)
    out = PList()
    if not r.sym:
        for x in r.conc:
            if cond is None or cond(x):
                v = fn(x)
                if nested:
                    out.extend(v)
                else:
                    list.append(out, v)
        return out
    if nested:
        raise Unsupported('nested symbolic comprehension')
    lp = Loop(r, ())
    lp.sim = None
    while True:
        lp.head(())
        if lp.done:
            break
        x = lp.item()
        if cond is None or cond(x):
            out.append(fn(x))
    return out


def unpack(x, n):
    it = iter_(x)
    if it.sym:
        raise Unsupported('unpacking a symbolic sequence')
    xs = builtins.list(it.conc)
    if len(xs) != n:
        raise ValueError('cannot unpack %d values into %d' % (len(xs), n))
    return xs


class SymStr(object):
    """an opaque string (formatted message)"""

    def __str__(self):
        return '<sym>'

    def __add__(self, o):
        return self
    __radd__ = __add__

    def format(self, *a, **k):
        return self


def _has_sym(x):
    if isinstance(x, tuple):
        return any(_has_sym(y) for y in x)
    return not isinstance(x, (int, float, str, bool, type(None)))


def mod(a, b):
    if isinstance(a, str):
        if _has_sym(b):
            try:
                if not isinstance(b, tuple) or all(not isinstance(y, Num) for y in b):
                    return a % b
            except (Unsupported, TypeError):
                pass
            return SymStr()
        return a % b
    return a % b


def star(x):
    return tolist(x)


def setattr_(o, name, v):
    if ENG.loops and getattr(o, '_pv_stamp', None) is not ENG.loops[-1].stamp:
        raise Unsupported('attribute assignment inside a generalised loop')
    setattr(o, name, v)


def setitem(o, i, v):
    if hasattr(o, '_setitem'):
        return o._setitem(i, v)
    if ENG.loops and not isinstance(o, PList):
        raise Unsupported('item assignment inside a generalised loop')
    o[i] = v


HOOKS = Hooks()
HOOKS.iter = iter_
HOOKS.Loop = Loop
HOOKS.WLoop = WLoop
HOOKS.get = _get
HOOKS.comp = comp
HOOKS.unpack = unpack
HOOKS.mod = mod
HOOKS.star = star
HOOKS.setattr = setattr_
HOOKS.setitem = setitem
HOOKS.PList = PList


# ------------------------------------------------------------------ builtins
def b_range(*a):
    a = [x._as_num() if hasattr(x, '_as_num') else x for x in a]
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if any(not isinstance(x, (int, Num)) for x in a):
        return builtins.range(*a)
    if any(isinstance(x, Num) and not x.isint for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    return SymRange(a[0], a[1], a[2])


def b_len(x):
    if isinstance(x, PList) and x.segs is not None:
        return mk(x.symlen(), True)
    if hasattr(x, '_len'):
        return x._len()
    return builtins.len(x)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Num):
        for u in ts:
            if u in (int, float) or isinstance(u, type):
                if u is int and x.isint:
                    return True
                if u is float and not x.isint:
                    return True
                if u is object:
                    return True
        return any(getattr(u, '_isinst', None) and u._isinst(x) for u in ts)
    if hasattr(x, '_isinst_hook'):
        r = x._isinst_hook(ts)
        if r is not None:
            return r
    ts = tuple(_BT.get(u, u) if isinstance(u, type) or not callable(u) else _BT.get(u, u) for u in ts)
    return builtins.isinstance(x, ts)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, cls._base)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls._base or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(cls._base)


def _to_int(x=0, *a):
    if isinstance(x, Num):
        if x.isint:
            return x
        if _intvalued(x.p):
            return mk(x.p, True)
        b = alg.lift('floor', x.p)
        return mk(b, True)
    if hasattr(x, '_toint'):
        return x._toint()
    if hasattr(x, '_as_num'):
        n = x._as_num()
        if n is not None:
            return _to_int(n)
    return builtins.int(x, *a)


def _intvalued(p):
    for t, c in p.t.items():
        if c.denominator != 1 or t.b:
            return False
        for a, e in t.f:
            if e < 0 or not (a[0] == 'v' or a[1] in alg.POSBASE or a[1] in S.INTBASE):
                return False
    return True


def _to_float(x=0.0):
    if isinstance(x, Num):
        return Num(x.p, False)
    if hasattr(x, '_tofloat'):
        return x._tofloat()
    if hasattr(x, '_as_num'):
        n = x._as_num()
        if n is not None:
            return _to_float(n)
    return builtins.float(x)


def _to_list(x=()):
    if isinstance(x, PList):
        return PList(x)
    it = iter_(x)
    if it.sym:
        r = PList()
        k = newvar(it.n, 'k')
        r.segs = [('s', SSeq(it.n, k, it.itemfn(VAR(k))))]
        return r
    return PList(it.conc)


def _to_tuple(x=()):
    it = iter_(x)
    if it.sym:
        raise Unsupported('tuple of symbolic length')
    return builtins.tuple(it.conc)


class b_int(int, metaclass=_IntMeta):
    _base = int
    _conv = staticmethod(_to_int)


class b_float(float, metaclass=_IntMeta):
    _base = float
    _conv = staticmethod(_to_float)


class b_list(list, metaclass=_IntMeta):
    _base = list
    _conv = staticmethod(_to_list)


class b_tuple(tuple, metaclass=_IntMeta):
    _base = tuple
    _conv = staticmethod(_to_tuple)


def _to_bool(x=False):
    return x if isinstance(x, Cond) else builtins.bool(x)


_BT = {b_int: int, b_float: float, b_list: list, b_tuple: tuple}


def _ext(fn, bi):
    def f(*a, **k):
        if k:
            return bi(*a, **k)
        xs = tolist(a[0]) if len(a) == 1 else builtins.list(a)
        if not any(isinstance(x, (Num, Cond)) or hasattr(x, '_as_num') for x in xs):
            return bi(xs)
        xs = [x._as_num() if hasattr(x, '_as_num') and x._as_num() is not None else x for x in xs]
        r = topoly(xs[0])
        isint = all(isinstance(x, int) or isinstance(x, Num) and x.isint for x in xs)
        for x in xs[1:]:
            if isint:
                r = alg.imin(r, topoly(x)) if fn is alg.minp else _imax(r, topoly(x))
            else:
                r = fn(r, topoly(x))
        return mk(r, isint)
    return f


def _imax(a, b):
    m = alg.imin(a, b)
    return a + b - m


def b_sum(x, start=0):
    it = iter_(x)
    if not it.sym:
        r = start
        for y in it.conc:
            r = r + y
        return r
    k = newvar(it.n, 'k')
    v = it.itemfn(VAR(k))
    if isinstance(v, (int, float, Num)):
        return mk(topoly(start) + topoly(v).sum(k, it.n), isinstance(v, int) or isinstance(v, Num) and v.isint)
    if hasattr(v, '_loop_sum'):
        return v._loop_sum(k, it.n, start)
    raise Unsupported('sum of a symbolic sequence')


def b_enumerate(x, start=0):
    it = iter_(x)
    if not it.sym:
        return builtins.enumerate(it.conc, start)
    k = newvar(it.n, 'k')
    return SSeq(it.n, k, (mk(VAR(k) + topoly(start), True), it.itemfn(VAR(k))))


def b_zip(*xs):
    its = [iter_(x) for x in xs]
    if not any(i.sym for i in its):
        return builtins.zip(*[i.conc for i in its])
    if not all(i.sym for i in its) or any(i.n != its[0].n for i in its):
        raise Unsupported('zip of sequences of different symbolic lengths')
    k = newvar(its[0].n, 'k')
    return SSeq(its[0].n, k, tuple(i.itemfn(VAR(k)) for i in its))


def b_map(f, *xs):
    if len(xs) != 1:
        return comp(b_zip(*xs), lambda t: f(*t), None, False)
    return comp(xs[0], f, None, False)


def b_filter(f, xs):
    return comp(xs, lambda x: x, f or (lambda x: x), False)


def b_reversed(x):
    if isinstance(x, SymRange):
        return x._reversed()
    it = iter_(x)
    if it.sym:
        k = newvar(it.n, 'k')
        return SSeq(it.n, k, it.itemfn(it.n - 1 - VAR(k)))
    return builtins.reversed(builtins.list(it.conc) if not isinstance(it.conc, (builtins.range, list, tuple, str)) else it.conc)


def b_print(*a, **k):
    for x in a:
        if not isinstance(x, (Num, Cond, SymStr)):
            pass
    return None


def b_sorted(x, *a, **k):
    return PList(builtins.sorted(tolist(x), *a, **k))


def b_any(x):
    for y in tolist(x):
        if y:
            return True
    return False


def b_all(x):
    for y in tolist(x):
        if not y:
            return False
    return True


def b_abs(x):
    return abs(x)


def b_round(x, *a):
    if isinstance(x, Num):
        return Num(alg.lift('floor', x.p), not a)
    return builtins.round(x, *a)


class FileStub(object):
    """a writable file: contents are not modelled"""

    def write(self, *a):
        return 0

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def b_open(path, mode='r', *a, **k):
    h = getattr(ENG, 'open_hook', None)
    if h is not None:
        r = h(path, mode)
        if r is not None:
            return r
    if 'r' in mode:
        raise Unsupported('reading a file')
    return FileStub()


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Num):
            return int if x.isint else float
        if isinstance(x, PList):
            return list
        return builtins.type(x)
    return builtins.type(*a)


def b_getattr(*a):
    return builtins.getattr(*a)


BUILTINS = dict(range=b_range, len=b_len, isinstance=b_isinstance, int=b_int, float=b_float, list=b_list,
                tuple=b_tuple, min=_ext(alg.minp, builtins.min), max=_ext(alg.maxp, builtins.max), sum=b_sum,
                enumerate=b_enumerate, zip=b_zip, map=b_map, filter=b_filter, reversed=b_reversed,
                print=b_print, sorted=b_sorted, any=b_any, all=b_all, open=b_open, round=b_round, setattr=setattr_)
