"""Path exploration of the real Python code over symbolic values.

The code under verification is executed by CPython itself, from its current source,
after the mechanical rewrites in loader.py.  Branches on symbolic conditions fork by
re-execution (decision trace); z3 prunes infeasible branches.  Loops over symbolic
ranges are executed once for a generic iteration and summarised (loop.py)."""
import builtins
import random
import time
from fractions import Fraction
import z3
from . import alg, tv as T
from .alg import P, CONST, ZERO, ONE, VAR, lift_num
from .tv import Unsupported, TV


class PathEnd(BaseException):
    """this path needs no further exploration"""


class ContractFail(BaseException):
    """an obligation that failed inside the run (race, unfed placeholder, ...)"""

    def __init__(self, name, detail):
        BaseException.__init__(self, name, detail)
        self.name = name
        self.detail = detail


RANGE = {}            # base -> (lo, hi, dtype): random draws
INTBASE = set()      # integer valued bases
STAT = {'z3_checks': 0, 'z3_time': 0.0, 'paths': 0, 'infeasible': 0}


class Engine(object):
    def __init__(self):
        self.pre = []          # z3 preconditions
        self.reset([])
        self.deadline = None
        self.sizes = {}        # case distinction on sizes -> small sizes on each side

    def reset(self, trace):
        self.trace = list(trace)
        self.pos = 0
        self.pc = []           # list of (cond, bool)
        self.loops = []        # active generic iterations
        self.local = None      # local decision context (loop body if-conversion)
        self.solver = z3.Solver()
        self.solver.set('timeout', 3000)
        for c in self.pre:
            self.solver.add(c)
        self.zvars = {}
        self.cnt = 0
        self.events = []
        self.sim = None
        self.notes = []

    # ---- z3 encoding
    def zatom(self, a):
        k = alg._atomkey(a, alg._plain)
        v = self.zvars.get(k)
        if v is None:
            isint = a[0] == 'v' or a[1] in INTBASE or a[1] in alg.POSBASE or \
                alg.kind_of(a[1]) in ('idiv', 'imod', 'imin')
            v = z3.Int(k) if isint else z3.Real(k)
            self.zvars[k] = v
            if a[0] == 'v':
                self.solver.add(v >= 0)
                d = alg.VARDIM.get(a[1])
                if d is not None:
                    self.solver.add(v < self.z(d))
            elif a[1] in alg.POSBASE:
                self.solver.add(v >= 1)
                if alg.kind_of(a[1]) == 'imin':
                    x, y = [self.z(t) for t in alg.DEFS[a[1]]['of']]
                    self.solver.add(v <= x, v <= y, z3.Or(v == x, v == y))
            elif alg.kind_of(a[1]) in alg.INDK:
                self.solver.add(z3.Or(v == 0, v == 1))
            elif a[1] in RANGE:
                lo, hi, dt = RANGE[a[1]]
                self.solver.add(self.z(lo) <= v, v < self.z(hi))
            elif alg.atom_nonneg(a):
                self.solver.add(v >= 0)
            elif alg.kind_of(a[1]) in ('idiv', 'imod') and a[1] in alg.DEFS:
                pass
        return v

    def z(self, p):
        terms = []
        for t, c in p.t.items():
            if t.b:
                k = 'T:' + t.key
                if k not in self.zvars:
                    self.zvars[k] = z3.Real(k)
                m = self.zvars[k]
            else:
                m = None
                for a, e in t.f:
                    x = self.zatom(a)
                    if e < 0:
                        k = 'I:' + alg._atomkey(a, alg._plain)
                        if k not in self.zvars:
                            self.zvars[k] = z3.Real(k)
                            if alg.atom_nonneg(a):
                                self.solver.add(self.zvars[k] >= 0)
                        x = self.zvars[k]
                    for _ in range(abs(e)):
                        m = x if m is None else m * x
            c_ = z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(c)
            if m is None:
                terms.append(c_)
            elif c == 1:
                terms.append(m)
            else:
                terms.append(c_ * m)
        if not terms:
            return z3.IntVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def zc(self, c):
        if c.kind == 'gt':
            return self.z(c.p) > 0
        if c.kind == 'eq':
            return self.z(c.p) == 0
        if c.kind == 'not':
            return z3.Not(self.zc(c.p))
        if c.kind == 'and':
            return z3.And([self.zc(x) for x in c.p])
        if c.kind == 'or':
            return z3.Or([self.zc(x) for x in c.p])
        k = 'O:' + c.p
        if k not in self.zvars:
            self.zvars[k] = z3.Bool(k)
        return self.zvars[k]

    def check(self, e):
        t = time.time()
        STAT['z3_checks'] += 1
        r = self.solver.check(e)
        STAT['z3_time'] += time.time() - t
        return r

    def valid(self, cond):
        """is cond implied by the path condition (z3 proof)"""
        cond = tobool(cond)
        if isinstance(cond, bool):
            return cond
        f = self.zc(cond)
        return self.check(z3.Not(f)) == z3.unsat

    def possible(self, cond):
        cond = tobool(cond)
        if isinstance(cond, bool):
            return cond
        f = self.zc(cond)
        return self.check(f) != z3.unsat

    def assume(self, cond):
        cond = tobool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        f = self.zc(cond)
        if self.check(f) == z3.unsat:
            raise PathEnd()
        self.solver.add(f)
        self.pc.append((cond, True))

    def decide(self, cond):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit')
        f = self.zc(cond)
        if self.check(f) == z3.unsat:
            return False
        if self.check(z3.Not(f)) == z3.unsat:
            return True
        # genuinely open
        self.example(cond, f)
        if self.loops:
            lp = self.loops[-1]
            if lp.depends(cond):
                return lp.local_decide(cond)
        if self.pos < len(self.trace):
            b = self.trace[self.pos]
        else:
            b = True
            self.trace.append(True)
        self.pos += 1
        self.solver.add(f if b else z3.Not(f))
        self.pc.append((cond, b))
        return b

    def example(self, cond, f):
        """remember small sizes on which a case distinction on sizes goes either way (for runs of the real code)"""
        k = cond.key
        if k in self.sizes or len(self.sizes) >= 40:
            return
        self.sizes[k] = []
        names = [str(n) for n in self.zvars if n in alg.POSBASE and n not in alg.DEFS]
        if not _cnames(cond) & set(names):
            return
        rnd = random.Random(k)
        true = z3.BoolVal(True)
        for g in (f, z3.Not(f)):
            self.solver.push()
            self.solver.add(g)
            for lo, hi in ((2, 5), (2, 9), (2, 16), (1, 5), (1, 16), (1, 70), (1, 300)):
                self.solver.push()
                self.solver.add(*[z3.And(self.zvars[n] >= lo, self.zvars[n] <= hi) for n in names])
                if self.check(true) == z3.sat:
                    d = {}
                    for n in names:          # any other values, as far as the conditions leave a choice
                        v = rnd.randint(lo, min(hi, 16))
                        self.solver.push()
                        self.solver.add(self.zvars[n] == v)
                        if self.check(true) != z3.sat:
                            self.solver.pop()
                            self.solver.push()
                            v = None
                            if self.check(true) == z3.sat:
                                q = self.solver.model().eval(self.zvars[n], model_completion=True)
                                v = q.as_long() if z3.is_int_value(q) else None
                            if v is not None:
                                self.solver.add(self.zvars[n] == v)
                        d[n] = v
                    for n in names:
                        self.solver.pop()
                    self.sizes[k].append({n: v for n, v in d.items() if v is not None})
                    self.solver.pop()
                    break
                self.solver.pop()
            self.solver.pop()

    def choose(self, label):
        """nondeterministic boolean choice (both explored)"""
        if self.pos < len(self.trace):
            b = self.trace[self.pos]
        else:
            b = True
            self.trace.append(True)
        self.pos += 1
        self.pc.append((Cond('opaque', 'choice:%s' % label), b))
        return b

    # ---- exploration
    def explore(self, fn, max_paths=400):
        """run fn() along every feasible path; returns list of (result, pc, exc)"""
        out = []
        trace = []
        while True:
            self.reset(trace)
            alg.reset_fresh()
            STAT['paths'] += 1
            exc = None
            res = None
            try:
                res = fn()
                out.append((res, list(self.pc), None))
            except PathEnd:
                STAT['infeasible'] += 1
            except ContractFail as e:
                out.append((None, list(self.pc), e))
            except Unsupported:
                raise
            except Exception as e:
                out.append((None, list(self.pc), e))
            # next trace
            t = self.trace[:self.pos]
            while t and t[-1] is False:
                t.pop()
            if not t:
                return out
            t[-1] = False
            trace = t
            if len(out) >= max_paths:
                raise Unsupported('more than %d paths' % max_paths)


ENG = Engine()


def _tick():
    if ENG.deadline is not None or T.PROOF_UNTIL is not None:
        now = time.time()
        if T.PROOF_UNTIL is not None and now > T.PROOF_UNTIL:
            raise alg.TooBig()
        if ENG.deadline is not None and now > ENG.deadline:
            raise Unsupported('time limit')


alg.TICK = _tick


# ------------------------------------------------------------------ values
class Cond(object):
    __slots__ = ('kind', 'p')

    def __init__(self, kind, p):
        self.kind = kind
        self.p = p

    def __bool__(self):
        return ENG.decide(self)

    @property
    def key(self):
        if self.kind in ('gt', 'eq'):
            return '%s(%s)' % (self.kind, self.p.key)
        if self.kind == 'not':
            return 'not ' + self.p.key
        if self.kind == 'opaque':
            return self.p
        return '(%s)' % ((' %s ' % self.kind).join(x.key for x in self.p))

    def __repr__(self):
        return self.key

    def vars(self):
        if self.kind in ('gt', 'eq'):
            return self.p.freevars()
        if self.kind == 'not':
            return self.p.vars()
        if self.kind == 'opaque':
            return set()
        return set().union(*[x.vars() for x in self.p])

    def atoms(self):
        if self.kind in ('gt', 'eq'):
            return {a[1] for t in self.p.t for a, _ in t.f if a[0] == 'e'}
        if self.kind == 'not':
            return self.p.atoms()
        if self.kind == 'opaque':
            return set()
        return set().union(*[x.atoms() for x in self.p])

    def ind(self):
        if self.kind == 'gt':
            return alg.gt0(self.p)
        if self.kind == 'eq':
            return ONE - alg.ne0(self.p)
        if self.kind == 'not':
            return ONE - self.p.ind()
        if self.kind == 'and':
            r = ONE
            for x in self.p:
                r = r * x.ind()
            return r
        if self.kind == 'or':
            r = ONE
            for x in self.p:
                r = r * (ONE - x.ind())
            return ONE - r
        raise Unsupported('indicator of an opaque condition')

    def __invert__(self):
        return neg(self)

    def __and__(self, o):
        return conj([self, o])
    __rand__ = __and__

    def __or__(self, o):
        return disj([self, o])
    __ror__ = __or__

    def __eq__(self, o):
        o = tobool(o)
        if isinstance(o, bool):
            return self if o else neg(self)
        return disj([conj([self, o]), conj([neg(self), neg(o)])])

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(self.key)

    # bool used as a number
    def __add__(self, o):
        return Num(self.ind(), True) + o
    __radd__ = __add__

    def __mul__(self, o):
        return Num(self.ind(), True) * o
    __rmul__ = __mul__


def tobool(c):
    if isinstance(c, (bool, Cond)):
        return c
    return builtins.bool(c)


def neg(c):
    c = tobool(c)
    if isinstance(c, bool):
        return not c
    if c.kind == 'not':
        return c.p
    return Cond('not', c)


def conj(cs):
    cs = [tobool(c) for c in cs]
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else Cond('and', cs)


def disj(cs):
    cs = [tobool(c) for c in cs]
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    if not cs:
        return False
    return cs[0] if len(cs) == 1 else Cond('or', cs)


def gt(p):
    if p.is_const():
        return p.const > 0
    if alg.is_pos(p):
        return True
    if alg.is_pos(-p):
        return False
    return Cond('gt', p)


def eq(p):
    if p.is_const():
        return p.const == 0
    if alg.is_pos(p) or alg.is_pos(-p):
        return False
    # normalise sign
    lc = p.t[alg._lead(p)]
    return Cond('eq', p.scale(1 / lc))


class Num(object):
    """symbolic number"""
    __slots__ = ('p', 'isint')
    __array_priority__ = 1000

    def __init__(self, p, isint=False):
        self.p = lift_num(p)
        self.isint = isint

    def _b(self, o):
        if isinstance(o, Num):
            return o.p, o.isint
        if isinstance(o, bool):
            return lift_num(int(o)), True
        if isinstance(o, (int, float, Fraction)):
            return lift_num(o), isinstance(o, int)
        if isinstance(o, Cond):
            return o.ind(), True
        if hasattr(o, '_as_num') and not hasattr(o, '_setitem'):
            n = o._as_num()
            if n is not None:
                return lift_num(n.p if isinstance(n, Num) else n), getattr(n, 'isint', isinstance(n, int))
        if isinstance(o, P):
            return o, False
        return None

    def _bin(self, o, f, intres=True):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return mk(f(self.p, b[0]), self.isint and b[1] and intres)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            if hasattr(o, '_repeat'):
                return o._repeat(self)
            raise Unsupported('sequence repetition by a symbolic count')
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b, False)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a, False)

    def __floordiv__(self, o):
        if self.isint and isinstance(o, int) or isinstance(o, Num) and o.isint:
            return self._bin(o, alg.idiv)
        return self._bin(o, lambda a, b: alg.lift('floor', a / b))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: alg.idiv(b, a))

    def __mod__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        r = alg.imod(self.p, b[0])
        for t in r.t:
            for a, _ in t.f:
                if a[0] == 'e' and alg.kind_of(a[1]) == 'imod':
                    INTBASE.add(a[1])
        return mk(r, True)

    def __rmod__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return mk(alg.imod(b[0], self.p), True)

    def __pow__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        q = b[0]
        if q.is_const() and q.const.denominator == 1:
            return mk(self.p ** int(q.const), self.isint and q.const >= 0)
        return mk(alg.powr(self.p, q), False)

    def __rpow__(self, o):
        b = self._b(o)
        return mk(alg.powr(b[0], self.p), False)

    def __neg__(self):
        return mk(-self.p, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(alg.absp(self.p), self.isint)

    def _cmp(self, o, f):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return f(self.p, b[0], self.isint and b[1])

    def __lt__(self, o):
        return self._cmp(o, lambda a, b, i: gt(b - a))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b, i: gt(a - b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b, i: gt(b - a + 1) if i else neg(gt(a - b)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b, i: gt(a - b + 1) if i else neg(gt(b - a)))

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            return False
        return eq(self.p - b[0])

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(self.p.key)

    def __bool__(self):
        return builtins.bool(tobool(neg(eq(self.p))))

    def __index__(self):
        raise Unsupported('concrete integer needed for ' + self.p.key)

    def __int__(self):
        raise Unsupported('concrete integer needed for ' + self.p.key)

    def __float__(self):
        raise Unsupported('concrete float needed for ' + self.p.key)

    def __repr__(self):
        return 'Num(%s)' % self.p.key

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    # numpy-scalar look
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    def item(self, *a):
        return self

    def astype(self, *a, **k):
        return self


def mk(p, isint=False):
    p = lift_num(p)
    if p.is_const():
        c = p.const
        if isint and c.denominator == 1:
            return int(c)
        if c.denominator == 1 and not isint:
            return Num(p, False) if False else _constreal(c)
        return _constreal(c)
    return Num(p, isint)


def _constreal(c):
    return Num(CONST(c), False) if c.denominator != 1 else Num(CONST(c), False)


def intnum(name, pos=False, hint=None):
    INTBASE.add(name)
    if pos:
        alg.POSBASE.add(name)
    return Num(alg.SYM(name), True)


def realnum(name, nonneg=False):
    if nonneg:
        alg.NONNEG.add(name)
    return Num(alg.SYM(name), False)


def topoly(x):
    """python / symbolic number -> P"""
    if isinstance(x, Num):
        return x.p
    if isinstance(x, Cond):
        return x.ind()
    if isinstance(x, P):
        return x
    if hasattr(x, '_as_num'):
        n = x._as_num()
        if n is not None:
            return topoly(n)
    return lift_num(x)


def _le_hook(a, b):
    c = gt(b - a + 1)
    if isinstance(c, bool):
        return c
    if not _pure(c):
        return ENG.valid(c)
    sig, mixed = _dimfacts()
    k = (sig, repr(c))
    r = _LE.get(k)
    if r is None:
        if AUX.sig != sig:
            AUX.reset([])
            for q, b in ENG.pc:
                if _pure(q):
                    AUX.solver.add(AUX.zc(q) if b else z3.Not(AUX.zc(q)))
            AUX.sig = sig
        r = _LE[k] = AUX.valid(c)
    return r or mixed and ENG.valid(c)


_LE = {}
_CN = {}
AUX = Engine()
AUX.sig = None


def _cnames(c):
    if c.kind in ('gt', 'eq'):
        return alg.names(c.p) | {'%v' for _ in c.p.freevars()}
    if c.kind == 'not':
        return _cnames(c.p)
    if c.kind in ('and', 'or'):
        return set().union(*[_cnames(x) for x in c.p])
    return {'%' + str(c.p)}


def _pure(c):
    """a condition on dimensions only"""
    k = repr(c)
    if k not in _CN:
        n = _cnames(c)
        _CN[k] = (all(x in alg.POSBASE for x in n), any(x in alg.POSBASE for x in n))
    return _CN[k][0]


def _dimfacts():
    sig, mixed = [], False
    for q, b in ENG.pc:
        k = repr(q)
        if _pure(q):
            sig.append((k, b))
        elif _CN[k][1]:
            mixed = True
    return tuple(sig), mixed


alg.LE_HOOK = _le_hook
