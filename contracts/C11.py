"""All call histories: breadth-first closure over the abstract states of the object (the values of its
attributes).  Every operation is checked in every reachable state; when no operation leads to a new state the
postconditions hold after histories of any length."""
from pv.contract import Ob, Failed
from pv import tfstub as F, npstub as N, loop as L
from pv.tv import TV, Unsupported
from pv import tv as T
from . import spec
from contracts_names import names

FUNCS = ['tensorD.base.type.DTensor.' + m for m in
         ('__init__ mul unfold t2mat vectorize get_shape kron khatri eval fold __add__ __mul__ __sub__ __getitem__').split()]


def obligations(tier):
    for order in range(1, (4 if tier == 'quick' else 5) + 1):
        for src in ('tensor', 'array'):
            yield Ob('DTensor', dict(order=order, source=src), closure)
            ops_ = names(order)
            for o in ops_:
                yield Ob('DTensor.' + o[0], dict(order=order, source=src, args=o[1:]), single)


class World(object):
    def __init__(self, K):
        c = K.ob.config
        self.K = K
        self.order = c['order']
        self.d = K.dims(*['I%d' % i for i in range(self.order)])
        self.D = K.mod('tensorD.base.type').DTensor
        self.src = (K.const if c['source'] == 'tensor' else K.arr)('x', self.d)
        self.x = K.val(self.src)
        self.y = K.const('y', self.d)

    def new(self):
        return self.D(self.src)

    def check(self, what, res, want):
        if not isinstance(res, self.D):
            raise Failed(what, 'the result is not a DTensor')
        self.K.eq(what, res.T, want)
        shp = res.shape.as_list() if isinstance(res.shape, F.TensorShape) else list(res.shape)
        self.K.true(what + ': shape attribute', len(shp) == want.rank and all(
            F.dimp(a) == b for a, b in zip(shp, want.shape)))

    def apply(self, o, op):
        K, x, d = self.K, self.x, self.d
        kind, args = op[0], op[1:]
        if kind == 'vectorize':
            self.check('vectorize', o.vectorize(), spec.regroup(x, [list(range(self.order))]))
        elif kind == 'get_shape':
            K.true('get_shape', [F.dimp(v) for v in o.get_shape().as_list()] == list(d))
        elif kind == 'eval':
            with K.tf.Session().as_default():
                K.eq('eval', o.eval(), x)
        elif kind in ('add', 'hadamard', 'sub'):
            other = {'D': lambda: self.D(self.y), 't': lambda: self.y, 'n': lambda: N.wrap(self.y.val), 's': lambda: 2.5}[args[0]]()
            f = {'add': lambda a, b: a + b, 'hadamard': lambda a, b: a * b, 'sub': lambda a, b: a - b}[kind]
            from pv import alg
            v = TV.scalar(alg.lift_num(2.5)) if args[0] == 's' else self.y.val
            want = T.ew(f, x, v)
            self.check(kind, f(o, other), want)
        elif kind == 'getitem' and args:
            K.eq('getitem', o[:, 0], TV.build(d[:1] + d[2:], lambda i, *r: x.at(i, 0, *r)))
        elif kind == 'getitem':
            K.eq('getitem', o[0], TV.build(d[1:], lambda *i: x.at(0, *i)))
        elif kind == 'unfold':
            if args[0] == 'default':
                self.check('unfold', o.unfold(), spec.unfold(x, 0))
            else:
                self.check('unfold', o.unfold(args[0]), spec.unfold(x, args[0]))
        elif kind == 'fold':
            u = K.tf.constant(N.wrap(spec.unfold(x, args[0])))
            self.check('fold', self.D.fold(u, args[0], self.y.get_shape().as_list()), x)
        elif kind == 't2mat':
            r, c = args
            rows = [r] if isinstance(r, int) else list(r)
            cols = [i for i in range(self.order) if i not in rows] if c == -1 else list(c)
            self.check('t2mat', o.t2mat(r if isinstance(r, int) else list(r), c if c == -1 else list(c)),
                       spec.regroup(x, [rows, cols]))
        elif kind == 'mul':
            if args[0] == 'default':
                a, b = [0], [0]
            else:
                a, b = [[v] if isinstance(v, int) else list(v) for v in args]
            dz = [K.dim('Z%d' % i) for i in range(2)]
            for i, j in zip(a, b):
                dz[j] = d[i]
            z = K.const('z%s%s' % (''.join(map(str, a)), ''.join(map(str, b))), dz)
            ra = [i for i in range(self.order) if i not in a]
            rb = [j for j in range(2) if j not in b]

            def entry(*ix):
                def term(*ks):
                    xi, zi = [None] * self.order, [None, None]
                    for i, v in zip(ra, ix):
                        xi[i] = v
                    for j, v in zip(rb, ix[len(ra):]):
                        zi[j] = v
                    for i, j, v in zip(a, b, ks):
                        xi[i], zi[j] = v, v
                    return x.at(*xi) * z.val.at(*zi)
                return spec.sum_([d[i] for i in a], term)
            want = TV.build([d[i] for i in ra] + [dz[j] for j in rb], entry)
            if args[0] == 'default':
                self.check('mul', o.mul(self.D(z)), want)
            else:
                self.check('mul', o.mul(self.D(z), *args), want)
        elif kind in ('kron', 'khatri'):
            z = K.const('w' + kind, [K.dim('W0'), self.d[1] if kind == 'khatri' else K.dim('W1')])
            other = self.D(z) if args[0] == 'D' else z
            want = (spec.kron if kind == 'kron' else spec.khatri)([x, z.val])
            self.check(kind, getattr(o, kind)(other), want)
        else:
            raise AssertionError(kind)
        K.eq('held tensor unchanged', o.T, x)


def statekey(v, depth=0):
    if isinstance(v, F.Variable):
        v = v._read
    if isinstance(v, F.Tensor):
        t = v.val.atomic().fresh()
        from pv import alg
        m = {}
        for n, g in enumerate(t.axes):
            for k, w in enumerate(g):
                m[w] = alg.VAR('q%d_%d' % (n, k))
        return 'T' + t.dtype + ','.join(s.key for s in t.shape) + ':' + t.body.subst(m).key
    if isinstance(v, N.NDArray):
        return 'A' + repr([s.key for s in v.tv.shape])
    if isinstance(v, (list, tuple)):
        return '[%s]' % ','.join(statekey(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (statekey(a), statekey(b)) for a, b in v.items()))
    if type(v).__name__ == 'DTensor' and depth < 4:
        return 'D' + statekey(dict(vars(v)), depth + 1)
    return repr(v)


def single(K):
    W = World(K)
    o = W.new()
    W.apply(o, (K.ob.func.split('.')[1],) + tuple(K.ob.config['args']))


def closure(K):
    W = World(K)
    ops_ = names(W.order)
    seen = {statekey(dict(vars(W.new()))): []}
    todo = [[]]
    n = 0
    while todo:
        hist = todo.pop(0)
        for op in ops_:
            o = W.new()
            for h in hist:
                W.apply(o, h)
            W.apply(o, op)
            n += 1
            k = statekey(dict(vars(o)))
            if k not in seen:
                if len(seen) >= 64 and len(hist) >= 2:
                    raise Unsupported('the object has unboundedly many states; histories to length %d checked' % (len(hist) + 1))
                seen[k] = hist + [op]
                todo.append(hist + [op])
    K.true('closed under every operation', len(seen) >= 1)
