"""Contracts: obligations over the real code, their discharge and their refutation."""
import os
import random
import time
import traceback
import numpy as _np
from . import alg, tv as T, symex as S, loop as L, loader, tfstub as F, npstub as N, neval
from .symex import ENG, Num, mk
from .tv import TV, Unsupported, ShapeError

REPO = os.environ.get('PV_REPO', '/repo')


class Ob(object):
    """one contract instance: function under contract x configuration"""

    def __init__(self, func, config, run, where='', kind='post', path_limit=400, limit=60):
        self.func = func            # functions of /repo under contract
        self.config = config
        self.run = run              # run(K): executes the real code symbolically, checks the postcondition
        self.kind = kind
        self.limit = limit
        self.path_limit = path_limit

    @property
    def name(self):
        return '%s[%s]' % (self.func, ','.join('%s=%s' % kv for kv in sorted(self.config.items())))


class Result(object):
    def __init__(self, ob):
        self.name = ob.name
        self.func = ob.func
        self.config = ob.config
        self.kind = ob.kind
        self.status = 'undecided'    # discharged | refuted | undecided
        self.detail = ''
        self.checks = 0              # atomic obligations
        self.paths = 0
        self.witness = None          # concrete separating valuation
        self.sizes = []              # sizes on both sides of the code's case distinctions on sizes
        self.secs = 0.0
        self.z3 = 0
        self.z3t = 0.0


class Failed(BaseException):
    def __init__(self, label, detail, got=None, spec=None):
        BaseException.__init__(self, label, detail)
        self.label, self.detail, self.got, self.spec = label, detail, got, spec


class Kit(object):
    """what a contract may use: the modules under verification, inputs, checks"""
    generic = False      # the path starts in a loop state that need not be reachable

    def __init__(self, ob):
        F.reset()
        T.SAMPLER[:] = [self, None]
        F.DRAWS.clear()
        if hasattr(N, 'reset'):
            N.reset()
        self.ob = ob
        self.tf = F.build_module()
        self.np = N.build_module()
        self.csv = N.build_csv()
        self.ld = loader.Loader(REPO, stubs={'tensorflow': self.tf, 'numpy': self.np, 'csv': self.csv})
        self.inputs = {}
        self.checks = 0
        self.fails = []

    def mod(self, name):
        return self.ld.load(name)

    # ---- symbolic inputs
    def dim(self, name):
        return alg.DIM(name)

    def dims(self, *names):
        return [alg.DIM(n) for n in names]

    def intdim(self, name):
        """a dimension as a python-level integer"""
        return mk(alg.DIM(name), True)

    def tv(self, name, dims, dtype='float32'):
        t = TV.input(name, dims, dtype)
        self.inputs[name] = ([alg.lift_num(d) for d in dims], dtype)
        return t

    def index(self, name, n, hi, dtype='int64'):
        """a vector of n integers in [0, hi)"""
        t = self.tv(name, [n], dtype)
        S.INTBASE.add(name)
        S.RANGE[name] = (alg.ZERO, alg.lift_num(hi), dtype)
        alg.NONNEG.add(name)
        return t

    def draws(self):
        """the random tensors drawn so far: list of (TV, kind, lo, hi)"""
        return [(TV.input(nm, ds, dt), kind, lo, hi) for nm, (kind, ds, lo, hi, dt) in F.DRAWS.items()]

    def arr(self, name, dims, dtype='float32'):
        return N.NDArray(self.tv(name, dims, dtype))

    def const(self, name, dims, dtype='float32'):
        return self.tf.constant(self.arr(name, dims, dtype))

    # ---- checks
    def val(self, x):
        if isinstance(x, F.Variable):
            x = x._read
        if isinstance(x, F.Tensor):
            return x.val
        if isinstance(x, N.NDArray):
            return x.tv
        if isinstance(x, TV):
            return x
        if isinstance(x, (int, float, Num, alg.P)):
            return TV.scalar(S.topoly(x), 'float32')
        raise Failed('type', 'the result is a %s, not a tensor' % type(x).__name__)

    def eq(self, label, got, spec, dtype=True):
        self.checks += 1
        got = self.val(got)
        spec = self.val(spec)
        if not dtype:
            spec = spec.astype(got.dtype) if got.dtype != spec.dtype else spec
            spec = TV(spec.axes, spec.body, got.dtype)
        ok, why = T.equal(got, spec)
        if not ok:
            raise Failed(label, why, got, spec)

    def split(self, x):
        """case split on the scalar indicators in x: each becomes 0 or 1 on its path"""
        t = self.val(x)
        body = alg.expand(t.body)
        if body is None:
            body = t.body
        while True:
            hit = None
            for term in body.t:
                for a, e in term.f:
                    if a[0] == 'e' and all(q.is_const() for q in a[2]) and alg.kind_of(a[1]) in ('gt0', 'ne0') and a[1] in alg.DEFS:
                        hit = a
                        break
                if hit:
                    break
            if not hit:
                return TV(t.axes, body, t.dtype)
            d = alg.DEFS[hit[1]]['body'].subst(dict(zip(alg.DEFS[hit[1]]['params'], hit[2])))
            d = alg.expand(d) or d
            on = bool(S.gt(d)) if alg.kind_of(hit[1]) == 'gt0' else not bool(S.eq(d))
            out = []
            for term, c in body.t.items():
                f = dict(term.f)
                if hit in f:
                    if not on:
                        continue
                    del f[hit]
                out.append(alg._norm_term(list(term.b), f).scale(c))
            body = alg.addall(out)

    def eq_cases(self, label, got, spec, dtype=True):
        self.eq(label, self.split(got), self.split(spec), dtype)

    def true(self, label, cond, detail=''):
        self.checks += 1
        if isinstance(cond, bool):
            ok = cond
        else:
            ok = ENG.valid(cond)
        if not ok:
            raise Failed(label, detail or 'not implied: %r' % (cond,))

    def same(self, label, a, b):
        self.checks += 1
        if not (a is b or a == b):
            raise Failed(label, 'got %r, expected %r' % (a, b))

    def raises(self, label, excs, fn):
        self.checks += 1
        try:
            fn()
        except excs:
            return
        except Exception as e:
            raise Failed(label, 'raised %s instead of %s' % (type(e).__name__, excs))
        raise Failed(label, 'no exception raised')


def _env(K, seed):
    """a random small valuation of the symbolic inputs"""
    rng = _np.random.RandomState(seed)
    pr = random.Random(seed)

    class Dims(dict):
        def __contains__(self, k):
            return k in alg.POSBASE and k not in alg.DEFS or dict.__contains__(self, k)

        def __missing__(self, k):
            self[k] = pr.randint(1, 4) if seed % 3 else pr.randint(2, 4)
            return self[k]
    dims = Dims()
    env = neval.Env(dims, rng=rng)

    def make(base, nargs):
        if base in K.inputs:
            ds, dt = K.inputs[base]
            shp = tuple(env.dim(d) for d in ds)
            if base in S.RANGE:
                lo, hi, _ = S.RANGE[base]
                v = rng.randint(int(env.scalar(lo)), int(env.scalar(hi)), size=shp)
                return _np.asarray(v)
            if dt.startswith('int'):
                v = rng.randint(-5, 6, size=shp)
            elif base in alg.NONNEG:
                v = rng.rand(*shp)
            else:
                v = rng.randn(*shp)
            if seed % 4 == 1:
                v = v * (rng.rand(*shp) > 0.3)
            return _np.asarray(v)
        if base in F.DRAWS:
            kind, ds, lo, hi, dt = F.DRAWS[base]
            shp = tuple(env.dim(d) for d in ds)
            if kind == 'normal':
                return _np.asarray(rng.randn(*shp))
            a, b = (env.scalar(p) if p is not None else q for p, q in ((lo, 0), (hi, 1)))
            return _np.asarray(rng.uniform(a, b, size=shp) if dt.startswith('float') else rng.randint(int(a), max(int(a) + 1, int(b)), size=shp))
        if nargs == 0:
            return float(rng.randint(1, 5)) if base in S.INTBASE else float(4 * rng.rand() if base in alg.NONNEG else 3 * rng.randn())
        raise neval.NoEval('no value for ' + base)
    env.make = make
    return env


def _holds(c, env):
    k = c.kind
    if k == 'gt':
        return env.scalar(c.p) > 1e-7
    if k == 'eq':
        return abs(env.scalar(c.p)) < 1e-9
    if k == 'not':
        return not _holds(c.p, env)
    if k == 'and':
        return all(_holds(x, env) for x in c.p)
    if k == 'or':
        return any(_holds(x, env) for x in c.p)
    raise neval.NoEval('opaque condition')


def refute(K, f, pc, tries=24):
    """a concrete valuation separating code and spec, on which the path is taken"""
    if f.got is None or f.spec is None:
        return None
    for seed in range(tries):
        env = _env(K, seed)
        try:
            if not all(_holds(c, env) == b for c, b in pc):
                continue
            sg = [env.dim(d) for d in f.got.shape]
            ss = [env.dim(d) for d in f.spec.shape]
            if sg != ss:
                return dict(dims=dict(env.dims), values={}, code_shape=sg, spec_shape=ss)
            a = T.evaluate(f.got, env)
            b = T.evaluate(f.spec, env)
            if not _np.all(_np.isfinite(a) == _np.isfinite(b)):
                m = _np.isfinite(a) & _np.isfinite(b)
                if not m.any():
                    continue
                a, b = a[m], b[m]
            if a.size and _np.max(_np.abs(_np.nan_to_num(a - b))) > 1e-6 * (1 + _np.max(_np.abs(_np.nan_to_num(b)))):
                vals = {}
                for n, v in env.vals.items():
                    if isinstance(v, (_np.ndarray, _np.number, float, int)):
                        vals[n] = _np.asarray(v).tolist()
                return dict(dims={k: int(v) for k, v in env.dims.items()}, values=vals,
                            code=_np.asarray(a).ravel()[:12].tolist(), spec=_np.asarray(b).ravel()[:12].tolist())
        except neval.NoEval as e:
            K.noeval = str(e)
            return None
        except (ValueError, IndexError, FloatingPointError, _np.linalg.LinAlgError, OverflowError, KeyError):
            continue
    return None


def discharge(ob):
    r = Result(ob)
    t0 = time.time()
    z0, zt0 = S.STAT['z3_checks'], S.STAT['z3_time']
    ENG.deadline = time.time() + ob.limit
    ENG.sizes = {}
    kits = []

    def go():
        K = Kit(ob)
        kits.append(K)
        try:
            ob.run(K)
        except Failed as f:
            return ('fail', K, f)
        return ('ok', K, None)
    try:
        ob.shared = None
        if ob.kind == 'loop':
            from . import sim
            sh = ob.shared = sim.Shared()
            for i in range(16):
                sh.mode = 'round' if i else 'init'
                sh.changed = False
                ENG.explore(go, ob.path_limit)
                del kits[:]
                if not sh.entered or not sh.snaps or i and not sh.changed:
                    break
            else:
                raise Unsupported('no inductive invariant after 16 rounds')
            sh.rounds = i + 1
            sh.mode = 'final'
        outs = ENG.explore(go, ob.path_limit)
        r.paths = len(outs)
        r.checks = sum(k.checks for k in kits)
        bad = None
        for res, pc, exc in outs:
            if exc is not None:
                if isinstance(exc, S.ContractFail):
                    bad = ('refuted', '%s: %s' % (exc.name, exc.detail), None)
                    break
                tb = traceback.extract_tb(exc.__traceback__)
                at = [x for x in tb if x.filename.startswith(REPO + '/')]
                loc = '%s:%d' % (os.path.relpath(at[-1].filename, REPO), at[-1].lineno) if at else '%s:%d' % (
                    tb[-1].filename, tb[-1].lineno)
                bad = ('undecided', 'raises %s: %s (at %s)' % (type(exc).__name__, str(exc)[:200], loc), None)
                continue
            st, K, f = res
            if st == 'fail':
                w = refute(K, f, pc)
                d = '%s: %s' % (f.label, f.detail)
                if pc:
                    d += '  on path ' + ' & '.join(('%r' % c) if b else 'not %r' % c for c, b in pc)[:300]
                bad = ('refuted' if w and not K.generic else 'undecided', d[:1500], w)
                if w:
                    break
        if bad:
            r.status, r.detail, r.witness = bad
        elif not outs or not r.checks:
            r.detail = 'vacuous: no feasible path or no obligation'
        else:
            r.status = 'discharged'
    except (Unsupported, ShapeError) as e:
        r.detail = 'outside the verifier\'s reach: %s' % e
    except Exception as e:
        r.detail = 'internal error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' at ' + \
            '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in traceback.extract_tb(e.__traceback__)[-3:])
    finally:
        ENG.deadline = None
        r.sizes = [d for l in ENG.sizes.values() for d in l if d]
    r.secs = time.time() - t0
    r.z3 = S.STAT['z3_checks'] - z0
    r.z3t = S.STAT['z3_time'] - zt0
    return r
