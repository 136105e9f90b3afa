"""Training loops: an invariant found by refinement, one generic iteration against a specification automaton.

The loop under verification is executed from three kinds of states: before its first iteration (the real initial
state), and a *generic* state standing for every state reached after kk >= 1 iterations.  The generic state gives
every location the loop changes (locals, attributes, list elements, session variables, components of the
specification's own state) an arbitrary value subject to a set of candidate facts:

  * two locations are equal,                     * an integer location is +-base + const (base: iteration count,
  * a location keeps its value from before       *   integer components of the specification),
  * an array or number is non-negative,          * an integer lies within small bounds,
  * a growing list equals another one and has one element per iteration (plus const).

Candidates are those true after iteration 1 on every path; they are assumed in a generic iteration and kept if
every path of it re-establishes them, until nothing is dropped (then they are an inductive invariant)."""
import builtins
import sys
from fractions import Fraction
from . import alg, tv as T, symex as S, loop as L
from .symex import ENG, Num, Cond, PathEnd, ContractFail, mk
from .tv import TV, Unsupported
from .alg import P, ZERO

MISSING = object()


class Shared(object):
    """what is known about the loop between explorations"""

    def __init__(self):
        self.mode = 'init'
        self.desc = {}
        self.cls = {}
        self.aff = {}
        self.bnd = {}
        self.nonneg = {}
        self.lenc = {}
        self.seq = set()
        self.elem = {}
        self.aliased = set()
        self.changed = False
        self.snaps = 0
        self.rounds = 0
        self.entered = False

    def facts(self):
        n = len(self.cls) - len(set(self.cls.values()))
        n += sum(1 for v in self.desc.values() if v[0] == 'same')
        return n + sum(1 for v in self.aff.values() if v) + sum(len(v) for v in self.bnd.values()) + \
            sum(1 for v in self.nonneg.values() if v) + sum(1 for v in self.lenc.values() if v is not None)


class Prefix(object):
    """the elements a list had when the generic iteration began"""

    def __init__(self, name, length, elem=None):
        self.name = name
        self.length = length
        self.n = length
        self.elem = elem

    def get(self, i):
        """an element appended by an earlier iteration: arbitrary numbers of the structure of the last one"""
        if self.elem is None:
            raise Unsupported('element of an earlier iteration')
        return self._make(self.elem, '%s[%s]' % (self.name, S.topoly(i).key))

    def _make(self, e, nm):
        if e == 'num':
            return Num(alg.SYM(nm), False)
        xs = [self._make(x, '%s.%d' % (nm, j)) for j, x in enumerate(e[1])]
        return L.PList(xs) if e[0] == 'list' else tuple(xs)

    def _subst(self, m):
        return self


def structure(v):
    """'num' | (list or tuple, structures) of a list element, None where it is something else"""
    if scalar(v):
        return 'num'
    if isinstance(v, (list, tuple)) and not (isinstance(v, L.PList) and v.segs is not None):
        xs = [structure(x) for x in list(v)]
        if all(x is not None for x in xs):
            return ('list' if is_list(v) else 'tuple', xs)
    return None


def is_list(v):
    return isinstance(v, list)


def scalar(v):
    return isinstance(v, (int, float, Num, Fraction)) and not isinstance(v, bool)


def isint(v):
    return isinstance(v, int) or isinstance(v, Num) and v.isint


def astv(v):
    from . import npstub as N
    if isinstance(v, N.NDArray):
        return v.tv
    if isinstance(v, TV):
        return v
    if scalar(v):
        return TV.scalar(S.topoly(v), 'float32')
    return None


_CAN = {}


def tvkey(t):
    """canonical key of a closed tensor value (dtype ignored)"""
    t = t.atomic().fresh()
    m = {}
    for n, g in enumerate(t.axes):
        for j, v in enumerate(g):
            k = (n, j, alg.VARDIM[v].key)
            if k not in _CAN:
                nm = '%%s%d_%d_%s' % (n, j, alg.digest(alg.VARDIM[v].key))
                alg.VARDIM[nm] = alg.VARDIM[v]
                _CAN[k] = nm
            m[v] = alg.VAR(_CAN[k])
    return '|'.join(s.key for s in t.shape) + '||' + t.body.subst(m).key


def vkey(v):
    if v is None or isinstance(v, (bool, str)):
        return ('py', repr(v))
    if is_list(v):
        r = ['list']
        if isinstance(v, L.PList) and v.segs is not None:
            for k, s in v.segs:
                if k == 'c':
                    r += [vkey(x) for x in s]
                elif isinstance(s, Prefix):
                    r.append(('pfx', s.name))
                else:
                    r.append(('seg', id(s)))
        else:
            r += [vkey(x) for x in list.__iter__(v)]
        return tuple(r)
    if isinstance(v, tuple):
        return ('list',) + tuple(vkey(x) for x in v)
    t = astv(v)
    if t is not None:
        return ('t', tvkey(t))
    return ('id', id(v))


def items(v):
    """('pfx', name) / ('e', element) parts of a list"""
    r = []
    if isinstance(v, L.PList) and v.segs is not None:
        for k, s in v.segs:
            if k == 'c':
                r += [('e', x) for x in s]
            elif isinstance(s, Prefix):
                r.append(('pfx', s.name))
            else:
                r.append(('seg', s))
    else:
        r += [('e', x) for x in (list.__iter__(v) if is_list(v) else v)]
    return r


def eqv(a, b, unfold=True):
    """(equal, reason)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        x, y = items(a), items(b)
        if len(x) != len(y):
            return False, '%d entries, expected %d' % (len(x), len(y))
        for n, (p, q) in enumerate(zip(x, y)):
            if p[0] != q[0]:
                return False, 'entries differ'
            if p[0] == 'e':
                ok, why = eqv(p[1], q[1], unfold)
                if not ok:
                    return False, 'entry %d: %s' % (n, why)
            elif p[1] is not q[1] and p[1] != q[1]:
                return False, 'entries of earlier iterations differ'
        return True, ''
    x, y = astv(a), astv(b)
    if x is not None and y is not None:
        if vkey(a) == vkey(b):
            return True, ''
        return T.equal(x.astype('float32'), y.astype('float32'), unfold)
    if vkey(a) == vkey(b):
        return True, ''
    return False, '%s, expected %s' % (type(a).__name__, type(b).__name__)


class Snap(dict):
    """path -> ('leaf', value) | ('list', n) | ('tuple', n) | ('dict', keys) | ('obj',) | ('seq', list) | ('alias', path)"""


def length_of(v):
    if isinstance(v, L.PList) and v.segs is not None:
        return v.symlen()
    return alg.lift_num(list.__len__(v))


class Sim(object):
    def __init__(self, K, ghost, steps, shared):
        self.K = K
        self.ghost = ghost
        self.steps = S.topoly(steps)
        self.sh = shared
        self.active = False
        self.finished = False
        self.fetched = []
        self.printed = []
        self.summaries = []
        ghost.sim = self

    # ------------------------------------------------------------ protocol with loop.py
    def wants(self, lp):
        if self.active or self.finished:
            return False
        if lp.it is None:
            return True
        return hasattr(lp.it, 'n') and bool(alg.names(lp.it.n) & alg.names(self.steps))

    def final(self):
        return self.sh.mode == 'final'

    def head(self, lp, vals):
        frame = sys._getframe(2)
        if lp.phase == 0:
            lp.phase = 1
            self.lp, self.frame = lp, frame
            self.active = True
            self.sh.entered = True
            self.ghost.start(self)
            self.s0 = self.snapshot(vals, None)
            self.s0vals = vals
            self.generic = False
            self.kk = ZERO
            if self.sh.mode == 'init' or self.final() and (not self.sh.snaps or ENG.choose('first iteration')):
                return self.enter(lp, vals)
            self.generic = self.K.generic = True
            S.INTBASE.add('kk')
            self.kk = alg.SYM('kk')
            ENG.assume(S.gt(self.kk))
            ENG.assume(S.gt(self.steps + 1 - self.kk))
            return self.enter(lp, self.install(vals))
        self.complete()
        if lp.it is not None:
            if self.done(lp):
                return vals
            if self.ghost.stopped:
                self.fail('stop rule', 'continues after an iteration at which it must stop')
            return self.close(vals)
        if self.ghost.stopped:
            self.running = False
            return vals           # its condition must end the loop now
        return self.close(vals)

    def close(self, vals):
        """end of a path that goes on to another iteration"""
        if not self.final():
            self.record(self.snapshot(vals, self.s0))
        raise PathEnd()

    def done(self, lp):
        if builtins.bool(S.tobool(S.gt(lp.it.n - self.kk))):
            return False
        lp.done = True
        self.exhausted()
        return True

    def enter(self, lp, vals):
        if lp.it is not None:
            if self.done(lp):
                return vals
            self.begin()
        self.running = False if lp.it is None else True
        return vals

    def begin(self):
        """an iteration starts"""
        if not ENG.valid(S.gt(self.steps - self.kk)):
            self.fail('number of steps', 'more than the requested number of steps')
        if self.ghost.stopped:
            self.fail('stop rule', 'continues after an iteration at which it must stop')
        self.running = True
        self.ran = False
        self.fetched = []
        self.printed = []
        self.summaries = []

    def wcond(self, lp, r):
        """a while loop evaluated its condition"""
        if r:
            self.begin()
        return r

    def item(self, lp):
        return lp.it.itemfn(self.kk)

    def complete(self):
        if self.running:
            self.kk = self.kk + 1
            self.running = False
            self.ghost.step(self)
            if self.final():
                self.ghost.check(self)

    def brk(self, lp):
        if lp.it is None and not self.ran and self.ghost.session:
            self.running = False        # left before the iteration did anything
        self.complete()
        self.leave()

    def wexit(self, lp):
        self.leave()

    def exhausted(self):
        self.leave()

    def leave(self):
        if not self.final():
            raise PathEnd()
        if self.ghost.stopped is not None:
            if not self.ghost.stopped and not ENG.valid(S.eq(self.kk - self.steps)):
                self.fail('stop rule', 'stops although neither the requested steps are done nor the rule says so')
            self.K.checks += 1
        self.active = False
        self.finished = True

    def fail(self, label, why):
        if not self.final():
            raise PathEnd()
        from .contract import Failed
        raise Failed(label, why)

    # ------------------------------------------------------------ locations
    def roots(self, vals):
        from . import tfstub as F
        for w, v in zip(self.lp.names, vals):
            yield ('L', w), v
        loc = self.frame.f_locals
        for n in sorted(loc):
            if '__pv' in n or n in self.lp.names:
                continue
            yield ('N', n), loc[n]
        for i, s in enumerate(getattr(F.STATE, 'all_sessions', [])):
            for v in sorted(s.store, key=lambda v: v.name):
                yield ('S', i, v.name), s.store[v]
        for n in sorted(self.ghost.s):
            yield ('G', n), self.ghost.s[n]

    def repo_obj(self, v):
        return hasattr(v, '__dict__') and not isinstance(v, type) and str(
            getattr(type(v), '__module__', '')).split('.')[0] in ('tensorD',)

    def snapshot(self, vals, s0):
        r = Snap()
        r.objs = {}
        r.live = {}
        r.alias = {}
        r.keys = {}
        r.fp = {}
        for path, v in self.roots(vals):
            self.flatten(path, v, r, s0, 0)
        return r

    def flatten(self, path, v, r, s0, depth):
        from . import npstub as N
        if isinstance(v, N.NDArray):
            r.alias.setdefault(id(v.root if v.root is not None else v), []).append(path)
            r.live[path] = v
            r[path] = ('leaf', N.NDArray(v.tv, ro=True))
            return
        if is_list(v) or isinstance(v, dict) or self.repo_obj(v):
            if id(v) in r.objs:
                r[path] = ('alias', r.objs[id(v)])
                r.live[path] = v
                return
            r.objs[id(v)] = path
            r.live[path] = v
        if is_list(v):
            old = s0.get(path) if s0 is not None else None
            sym = isinstance(v, L.PList) and v.segs is not None
            if sym or path in self.sh.seq or (old is not None and old[0] == 'list' and old[1] != list.__len__(v)):
                if not sym and path not in self.sh.seq:
                    self.sh.seq.add(path)
                r[path] = ('seq', L.PList(v) if isinstance(v, L.PList) else L.PList(list(v)))
                return
            r[path] = ('list', list.__len__(v))
            for i, x in enumerate(list.__iter__(v)):
                self.flatten(path + (i,), x, r, s0, depth)
            return
        if isinstance(v, tuple):
            r.live[path] = v
            r[path] = ('tuple', len(v))
            for i, x in enumerate(v):
                self.flatten(path + (i,), x, r, s0, depth)
            return
        if isinstance(v, dict):
            ks = list(dict.keys(v))
            r[path] = ('dict', len(ks), tuple(repr(k) if isinstance(k, (str, int)) else id(k) for k in ks))
            for i, k in enumerate(ks):
                self.flatten(path + (('d', i),), dict.__getitem__(v, k), r, s0, depth)
            return
        if self.repo_obj(v) and depth < 6:
            r[path] = ('obj', id(v))
            for a in sorted(v.__dict__):
                self.flatten(path + ('.' + a,), v.__dict__[a], r, s0, depth + 1)
            return
        r.live[path] = v
        r[path] = ('leaf', v)

    def key(self, s, path):
        if path not in s.keys:
            s.keys[path] = vkey(s[path][1])
        return s.keys[path]

    # ------------------------------------------------------------ learning from a snapshot
    def classify(self, v):
        if v is L.UNDEF:
            return ('undef',)
        if isinstance(v, L._Undef):
            return ('poison',)
        if isinstance(v, Cond):
            if ENG.valid(v):
                return ('py', True)
            if ENG.valid(S.neg(v)):
                return ('py', False)
            return ('bool',)
        if v is None or isinstance(v, (bool, str)):
            return ('py', v)
        if scalar(v):
            return ('num', isint(v))
        t = astv(v)
        if t is not None:
            return ('nd' if not isinstance(v, TV) else 'tv', tuple(t.shape), t.dtype)
        return ('opaque',)

    def record(self, s):
        sh = self.sh
        sh.snaps += 1
        first = sh.snaps == 1
        s0 = self.s0
        new = {}
        for p, e in s.items():
            o = s0.get(p)
            if e[0] == 'leaf':
                if o is not None and o[0] == 'leaf' and (o[1] is e[1] or self.key(s0, p) == self.key(s, p)):
                    d = ('same',)
                else:
                    d = ('leaf',) + self.classify(e[1])
            elif e[0] == 'seq':
                d = ('seq',)
                its = items(e[1])
                if its and its[-1][0] == 'e':
                    sh.elem[p] = structure(its[-1][1])
            elif e[0] == 'obj':
                d = ('obj',) if o is not None and o == e else ('leaf', 'poison')
            elif e[0] == 'dict':
                d = e[:2] if o is not None and o[0] == 'dict' and o[2] == e[2] else ('leaf', 'poison')
            else:
                d = e
            new[p] = d
        for g in s.alias.values():
            if len(g) > 1:
                for p in g:
                    if p not in sh.aliased:
                        sh.aliased.add(p)
                        self.touch()
        for p in set(new) | set(sh.desc):
            a, b = sh.desc.get(p), new.get(p)
            if a is None and not first and b is not None and not any(
                    sh.desc.get(p[:i], ('',))[:2] == ('leaf', 'poison') for i in range(1, len(p))):
                j = ('leaf', 'poison') if b != ('same',) else b
            elif a is None:
                j = b
            elif b is None:
                j = ('leaf', 'poison')
            else:
                j = self.join(p, a, b)
            if j != a:
                sh.desc[p] = j
                self.touch()
        # equalities
        cand = [p for p in sorted(sh.desc, key=str) if p in s and (
            sh.desc[p][0] == 'seq' or sh.desc[p][0] == 'leaf' and len(sh.desc[p]) > 1 and
            sh.desc[p][1] in ('nd', 'tv', 'num'))]
        groups = []
        ids = {}
        for p in cand:
            v = s[p][1]
            k = self.key(s, p)
            shp = self.shapekey(v)
            hit = None
            for n, (gshp, gk, gp) in enumerate(groups):
                if gshp != shp:
                    continue
                if gk == k:
                    hit = n
                    break
            if hit is None:
                for n, (gshp, gk, gp) in enumerate(groups):
                    if gshp != shp or not first and sh.cls.get(gp) != sh.cls.get(p):
                        continue
                    if self.samev(s, gp, p):
                        hit = n
                        break
            if hit is None:
                groups.append((shp, k, p))
                hit = len(groups) - 1
            ids[p] = hit
        old = dict(sh.cls)
        m = {}
        out = {}
        for p in cand:
            kk = (old.get(p, -1 if first else ('new', p)), ids[p])
            out[p] = m.setdefault(kk, len(m))
        if not self.samepart(old, out):
            self.touch()
        sh.cls = out
        # numbers
        bases = dict(self.ghost_ints(s))
        bases['k'] = self.kk
        for p in cand:
            v = s[p][1]
            if sh.desc[p][0] == 'leaf' and sh.desc[p][1] == 'num' and sh.desc[p][2]:
                x = S.topoly(v)
                own = p[1] if p[0] == 'G' else None
                if own is not None:
                    cs = [('k', sg, x - self.kk.scale(sg)) for sg in (1, -1)]
                else:
                    cs = [(b, sg, x - bp.scale(sg)) for b, bp in sorted(bases.items(), key=lambda t: t[0] != 'k')
                          for sg in (1, -1)]
                cs = [c for c in cs if not self.varying(c[2])]
                if p not in sh.aff and first:
                    sh.aff[p] = cs
                else:
                    keep = [c for c in sh.aff.get(p, []) if any(c[0] == q[0] and c[1] == q[1] and c[2] == q[2] for q in cs)]
                    if len(keep) != len(sh.aff.get(p, [])):
                        sh.aff[p] = keep
                        self.touch()
                bs = sh.bnd.get(p)
                if bs is None:
                    bs = [('lo', 0), ('hi', 2), ('hi', 3)] if first else []
                keep = [b for b in bs if ENG.valid(S.neg(S.gt(-x + b[1])) if b[0] == 'lo' else S.neg(S.gt(x - b[1])))]
                if keep != sh.bnd.get(p):
                    sh.bnd[p] = keep
                    self.touch()
            if sh.desc[p][0] == 'leaf' and (first or sh.nonneg.get(p)):
                t = astv(v)
                ok = t is not None and alg.is_nonneg(t.body)
                if sh.nonneg.get(p) != ok:
                    sh.nonneg[p] = ok
                    self.touch()
            if sh.desc[p][0] == 'seq':
                c = length_of(v) - self.kk
                if self.varying(c):
                    c = None
                if first and p not in sh.lenc:
                    sh.lenc[p] = c
                    self.touch()
                elif sh.lenc.get(p) is not None and (c is None or c != sh.lenc[p]):
                    sh.lenc[p] = None
                    self.touch()

    def adopt(self, t):
        """t, or a value the program computed that provably equals t (so that later comparisons are immediate)"""
        if not isinstance(t, TV):
            return self.adopt(TV.scalar(t, 'float32')).at()
        from . import tfstub as F
        cs = list(self.fetched)
        for s in getattr(F.STATE, 'all_sessions', []):
            cs += list(s.store.values())
        shp = [d.key for d in t.shape]
        k = tvkey(t)
        seen = {}
        for c in cs:
            if isinstance(c, TV) and [d.key for d in c.shape] == shp:
                seen.setdefault(tvkey(c), c)
        if k in seen:
            return t
        sm = None
        for q, c in seen.items():
            if c.body.is_const():
                continue
            if sm is None:
                sm = T.sample(lambda env: T.evaluate(t, env))
            if T.close_samples(sm, T.sample(lambda env: T.evaluate(c, env))) and eqv(t, c)[0]:
                return TV(c.axes, c.body, t.dtype)
        return t

    def samev(self, s, p, q):
        """provably equal; sample values decide whether a proof is worth trying"""
        a, b = s[p][1], s[q][1]
        if is_list(a):
            return eqv(a, b)[0]
        c = T.close_samples(self.sample(s, p), self.sample(s, q))
        if c is None:
            return eqv(a, b, False)[0]
        return c and eqv(a, b)[0]

    def sample(self, s, p):
        if p not in s.fp:
            s.fp[p] = T.sample(lambda env: T.evaluate(astv(s[p][1]), env))
        return s.fp[p]

    def touch(self):
        self.sh.changed = True

    def samepart(self, a, b):
        if set(a) != set(b):
            return False
        f, g = {}, {}
        for p in a:
            if f.setdefault(a[p], b[p]) != b[p] or g.setdefault(b[p], a[p]) != a[p]:
                return False
        return True

    def shapekey(self, v):
        if is_list(v):
            return 'seq'
        return tuple(x.key for x in astv(v).shape)

    def varying(self, p):
        return any(a == 'kk' or a.startswith(('h:', 'let#', 'pfx', 'plen')) for a in alg.names(p))

    def ghost_ints(self, s):
        for n, v in self.ghost.s.items():
            if scalar(v) and isint(v):
                yield n, S.topoly(v)

    def join(self, p, a, b):
        if a == b:
            return a
        if a == ('leaf', 'poison') or b == ('leaf', 'poison'):
            return ('leaf', 'poison')
        if a == ('same',) or b == ('same',):
            d = b if a == ('same',) else a
            o = self.s0.get(p)
            if d[0] == 'leaf' and o is not None and o[0] == 'leaf':
                return self.join(p, ('leaf',) + self.classify(o[1]), d)
            return ('leaf', 'poison')
        if a[0] == 'leaf' and b[0] == 'leaf':
            if a[1] == b[1] == 'num':
                return ('leaf', 'num', False)
            bo = lambda d: d[1] == 'bool' or d[1] == 'py' and isinstance(d[2], bool)
            if bo(a) and bo(b):
                return ('leaf', 'bool')
        if a[0] == 'list' and b[0] == 'list' and a[1] != b[1]:
            self.sh.seq.add(p)
            raise Unsupported('a list of varying length')
        return ('leaf', 'poison')

    # ------------------------------------------------------------ the generic state
    def sym(self, p):
        """the arbitrary value of the class of location p"""
        return 'h:%d' % self.sh.cls[p]

    def install(self, vals):
        sh = self.sh
        names = {}
        for p, c in sh.cls.items():
            names.setdefault(c, []).append(p)
        for c, ps in names.items():
            if any(sh.nonneg.get(p) for p in ps):
                alg.NONNEG.add('h:%d' % c)
            else:
                alg.NONNEG.discard('h:%d' % c)
            if any(sh.desc[p][0] == 'leaf' and sh.desc[p][1] == 'num' and sh.desc[p][2] for p in ps):
                S.INTBASE.add('h:%d' % c)
            else:
                S.INTBASE.discard('h:%d' % c)
        for c, ps in names.items():
            for p in ps:
                for k, b in sh.bnd.get(p, []):
                    x = alg.SYM('h:%d' % c)
                    ENG.assume(S.neg(S.gt(-x + b)) if k == 'lo' else S.neg(S.gt(x - b)))
        self.made = {}
        # the specification's own state first: it is the base of affine facts
        g = {}
        for n in sorted(self.ghost.s):
            g[n] = self.make(('G', n), self.ghost.s[n])
        self.ghost.s.clear()
        self.ghost.s.update(g)
        from . import tfstub as F
        out = [self.make(('L', w), v) for w, v in zip(self.lp.names, vals)]
        loc = self.frame.f_locals
        for n in sorted(loc):
            if '__pv' in n or n in self.lp.names:
                continue
            v = self.make(('N', n), loc[n])
            if v is not loc[n]:
                raise Unsupported('a local that changes without being assigned: ' + n)
        for i, s in enumerate(getattr(F.STATE, 'all_sessions', [])):
            for v in sorted(s.store, key=lambda v: v.name):
                t = self.make(('S', i, v.name), s.store[v])
                if not isinstance(t, TV):
                    raise Unsupported('a session variable of changing shape %s %r %r' % (v.name, sh.desc.get(('S', i, v.name)), t))
                s.store[v] = t
        self.ghost.resume(self)
        return tuple(out)

    def make(self, p, live):
        """the generic value of location p; `live` is what is there before the loop"""
        from . import npstub as N
        sh = self.sh
        d = sh.desc.get(p)
        if d is None:
            if isinstance(live, (N.NDArray, list, dict, TV)) or live is MISSING:
                return L.POISON if sh.snaps else live
            return live
        if d == ('same',):
            return live
        if d[0] == 'alias':
            return self.made[d[1]]
        if d[0] == 'seq':
            c = sh.lenc.get(p)
            nm = 'pfx:%d' % sh.cls[p]
            if c is None:
                S.INTBASE.add('plen:' + nm)
                ln = alg.SYM('plen:' + nm)
            else:
                ln = self.kk + c
            r = live if isinstance(live, L.PList) else L.PList()
            list.clear(r)
            r.segs = [('s', Prefix(nm, ln, sh.elem.get(p))), ('c', [])]
            self.made[p] = r
            return r
        if d[0] in ('list', 'tuple'):
            n = d[1]
            old = live if isinstance(live, (list, tuple)) and not (isinstance(live, L.PList) and live.segs is not None) else None
            keep = old is not None and len(old) == n
            xs = [self.make(p + (i,), list(old)[i] if keep else MISSING) for i in range(n)]
            if d[0] == 'tuple':
                return live if keep and all(x is y for x, y in zip(xs, live)) else tuple(xs)
            if keep and is_list(live):
                for i, x in enumerate(xs):
                    list.__setitem__(live, i, x)
                self.made[p] = live
                return live
            r = L.PList(xs)
            self.made[p] = r
            return r
        if d[0] == 'dict':
            for i, k in enumerate(list(dict.keys(live))):
                x = self.make(p + (('d', i),), dict.__getitem__(live, k))
                dict.__setitem__(live, k, x)
            self.made[p] = live
            return live
        if d[0] == 'obj':
            self.made[p] = live
            for a in sorted(live.__dict__):
                x = self.make(p + ('.' + a,), live.__dict__[a])
                if x is not live.__dict__[a]:
                    live.__dict__[a] = x
            for q in sh.desc:
                if len(q) == len(p) + 1 and q[:-1] == p and str(q[-1]).startswith('.') and q[-1][1:] not in live.__dict__:
                    live.__dict__[q[-1][1:]] = self.make(q, MISSING)
            return live
        k = d[1]
        if k == 'undef':
            return L.UNDEF
        if k in ('poison', 'opaque'):
            return L.POISON
        if k == 'py':
            return d[2]
        if k == 'bool':
            return S.gt(alg.SYM('hb:' + alg.digest(str(p))))
        if k == 'num':
            if d[2] and sh.aff.get(p):
                b, sg, c = sh.aff[p][0]
                base = self.kk if b == 'k' else S.topoly(self.ghost.s0int(b, self))
                return mk(base.scale(sg) + c, True)
            return mk(alg.SYM(self.sym(p)), d[2])
        dims = self.dims_of(p)
        self.K.inputs[self.sym(p)] = (dims, d[3])
        t = TV.input(self.sym(p), dims, d[3])
        if k == 'tv':
            return t
        return N.NDArray(t, ro=p in sh.aliased)

    def dims_of(self, p):
        return list(self.sh.desc[p][2])


class Ghost(object):
    """a specification automaton run beside the loop; its components are in self.s"""
    session = True

    def __init__(self, K):
        self.K = K
        self.s = {}
        self.stopped = None
        self.sim = None

    def start(self, sim):
        pass

    def resume(self, sim):
        """after the generic state was installed"""

    def step(self, sim):
        pass

    def check(self, sim):
        pass

    def s0int(self, name, sim):
        """value of the integer component `name` in the generic state under construction"""
        return sim.make(('G', name), self.s.get(name))
