"""Contract stub of the TensorFlow 1 API used by tensorD.

Every operation is replaced by its contract: the exact element-wise meaning of its result
(over the reals), its shape/dtype precondition (violations raise what TF raises) and, for
Session.run, graph semantics: executed closure, control dependencies, reference variables
(an alias of a variable is read when its non-alias consumer runs), assignment, feeds.
A read of a variable that is not ordered with respect to an assignment executed in the
same run is reported as a failed obligation (`race`)."""
import types
from . import alg, loop as L, symex as S, tv as T
from .alg import P, VAR, CONST, ZERO, ONE, lift_num, newvar
from .symex import Num, Cond, ENG, ContractFail, mk, topoly
from .tv import TV, ShapeError, Unsupported


# ------------------------------------------------------------------ dtypes
class DType(object):
    def __init__(self, name):
        self.name = name

    @property
    def base_dtype(self):
        return self

    @property
    def is_floating(self):
        return self.name.startswith('float')

    @property
    def is_integer(self):
        return self.name.startswith('int')

    @property
    def is_bool(self):
        return self.name == 'bool'

    @property
    def as_numpy_dtype(self):
        return self

    def is_compatible_with(self, o):
        return self == as_dtype(o)

    def __eq__(self, o):
        try:
            return self.name == dtname(o)
        except (TypeError, Unsupported):
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'tf.' + self.name

    # numpy scalar-type behaviour: np.float32(x)
    def __call__(self, x=0):
        if isinstance(x, (list, tuple)) or hasattr(x, '_setitem'):
            from . import npstub
            return npstub.asarray(x, self)
        if self.is_integer:
            return L._to_int(x)
        if self.is_bool:
            return bool(x)
        return L._to_float(x)


DT = {n: DType(n) for n in ('float16', 'float32', 'float64', 'int8', 'uint8', 'int16', 'int32', 'int64', 'bool',
                            'string', 'complex64', 'complex128')}


def dtname(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.name
    if isinstance(d, str):
        return {'float': 'float32', 'double': 'float64', 'int': 'int64', 'f4': 'float32', 'f8': 'float64'}.get(d, d)
    if d in (float, L.b_float):
        return 'float64'
    if d in (int, L.b_int):
        return 'int64'
    if d is bool:
        return 'bool'
    if hasattr(d, 'base_dtype'):
        return dtname(d.base_dtype)
    raise TypeError('not a dtype: %r' % (d,))


def as_dtype(d):
    return DT[dtname(d)]


def isfloat(n):
    return n.startswith('float')


# ------------------------------------------------------------------ shapes
class Dimension(object):
    def __init__(self, p):
        self.p = lift_num(p)

    @property
    def value(self):
        return mk(self.p, True)

    def _as_num(self):
        return self.value

    def _toint(self):
        return self.value

    def _b(name):
        def f(self, o):
            v = o.value if isinstance(o, Dimension) else o
            r = getattr(Num(self.p, True), name)(v)
            if r is NotImplemented:
                return r
            return Dimension(topoly(r)) if isinstance(r, (int, Num)) and not isinstance(r, bool) else r
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__floordiv__', '__mod__'):
        locals()[_n] = _b(_n)
    for _n in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
        locals()[_n] = _b(_n)

    def __hash__(self):
        return hash(self.p.key)

    def __int__(self):
        return int(self.value)

    def __index__(self):
        v = self.value
        if isinstance(v, int):
            return v
        raise Unsupported('concrete dimension needed')

    def __repr__(self):
        return 'Dimension(%s)' % self.p.key


class TensorShape(object):
    def __init__(self, dims):
        if isinstance(dims, TensorShape):
            self.d = dims.d
        else:
            self.d = dims_of(dims)

    @property
    def ndims(self):
        return len(self.d)
    rank = ndims

    @property
    def dims(self):
        return L.PList([Dimension(p) for p in self.d])

    def as_list(self):
        return L.PList([mk(p, True) for p in self.d])

    def num_elements(self):
        return mk(T.prod(self.d), True)

    def is_fully_defined(self):
        return True

    def __len__(self):
        return len(self.d)

    def _len(self):
        return len(self.d)

    def __iter__(self):
        return iter([Dimension(p) for p in self.d])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return TensorShape(self.d[i])
        return Dimension(self.d[i])

    def _cmp(self, o):
        try:
            od = dims_of(o)
        except (TypeError, Unsupported):
            return False
        if len(od) != len(self.d):
            return False
        return S.conj([S.eq(a - b) for a, b in zip(self.d, od)])

    def __eq__(self, o):
        return self._cmp(o)

    def __ne__(self, o):
        return S.neg(self._cmp(o))

    def __hash__(self):
        return hash(tuple(p.key for p in self.d))

    def is_compatible_with(self, o):
        return self._cmp(o)

    def assert_is_compatible_with(self, o):
        if S.neg(self._cmp(o)):
            raise ValueError('incompatible shapes')

    def assert_same_rank(self, o):
        if len(dims_of(o)) != len(self.d):
            raise ValueError('ranks differ')

    def concatenate(self, o):
        return TensorShape(self.d + dims_of(o))

    def __add__(self, o):
        return self.concatenate(o)

    def __repr__(self):
        return 'TensorShape(%s)' % [p.key for p in self.d]


def dimp(x):
    """one dimension -> P"""
    if isinstance(x, Dimension):
        return x.p
    if isinstance(x, Tensor):
        if x.val.rank == 0 or _isone(x.val.numel):
            return x.val.body
        raise ValueError('shape element must be a scalar')
    if isinstance(x, bool):
        raise TypeError('bool as a dimension')
    if isinstance(x, Num):
        if not x.isint and not (x.p.is_const() and x.p.const.denominator == 1):
            raise TypeError("Expected int, got a float dimension")
        return x.p
    if isinstance(x, int):
        return lift_num(x)
    if isinstance(x, float):
        raise TypeError('Expected int32, got %r of type float' % x)
    if hasattr(x, '_as_num') and x._as_num() is not None:
        return dimp(x._as_num())
    if x is None:
        raise Unsupported('unknown dimension')
    raise TypeError('not a dimension: %r' % (x,))


def _isone(p):
    return p.is_const() and p.const == 1


def dims_of(x):
    if isinstance(x, TensorShape):
        return list(x.d)
    if isinstance(x, (list, tuple)):
        return [y if isinstance(y, P) else dimp(y) for y in L.tolist(x)]
    if isinstance(x, Tensor) or hasattr(x, 'tv'):
        t = x.val if isinstance(x, Tensor) else x.tv
        if t.rank == 0:
            return [t.body]
        if t.rank != 1 or not t.size(0).is_const():
            raise Unsupported('shape vector of unknown length')
        return [t.at(CONST(i)) for i in range(int(t.size(0).const))]
    return [dimp(x)]


def axes_of(axis, rank):
    if axis is None:
        return list(range(rank))
    ax = L.tolist(axis) if isinstance(axis, (list, tuple)) else [axis]
    out = []
    for a in ax:
        if isinstance(a, Tensor):
            a = mk(a.val.body, True)
        if not isinstance(a, int):
            raise Unsupported('symbolic axis')
        if not -rank <= a < rank:
            raise ValueError('axis %d out of range for rank %d' % (a, rank))
        out.append(a % rank)
    if len(set(out)) != len(out):
        raise ValueError('duplicate axes')
    return out


# ------------------------------------------------------------------ graph
class Graph(object):
    def __init__(self):
        self.nodes = []
        self.ctrl = []
        self.vars = []
        self.summaries = []
        self.n = 0

    def as_default(self):
        g = self

        class C(object):
            def __enter__(s):
                STATE.graphs.append(g)
                return g

            def __exit__(s, *a):
                STATE.graphs.pop()
                return False
        return C()

    def finalize(self):
        pass

    def control_dependencies(self, deps):
        return _Ctrl(self, deps)

    def get_operations(self):
        raise Unsupported('graph introspection')


class _State(object):
    pass


STATE = _State()


def reset():
    STATE.graphs = [Graph()]
    STATE.sessions = []
    STATE.all_sessions = []
    STATE.runs = 0
    STATE.notes = []


def graph():
    return STATE.graphs[-1]


class _Ctrl(object):
    def __init__(self, g, deps):
        self.g = g
        self.reset = deps is None
        self.deps = [] if deps is None else [_ctrlnode(d) for d in L.tolist(deps)]

    def __enter__(self):
        self.g.ctrl.append((self.reset, self.deps))
        return self

    def __exit__(self, *a):
        self.g.ctrl.pop()
        return False


def _ctrlnode(d):
    if isinstance(d, Variable):
        return d._read
    if isinstance(d, Tensor):
        return d
    raise TypeError('Can not convert a %s into a Operation' % type(d).__name__)


class Tensor(object):
    __array_priority__ = 100
    _pv_stamp = None

    def __init__(self, kind, inputs, fn, val, alias=False, g=None, static=True):
        g = g or graph()
        self.graph = g
        self.kind = kind
        self.inputs = list(inputs)
        self.fn = fn
        self.val = val
        self.alias = alias
        self.var = None
        ctrl = []
        for rst, deps in g.ctrl:
            if rst:
                ctrl = []
            ctrl = ctrl + deps
        self.ctrl = ctrl
        self.id = g.n
        g.n += 1
        g.nodes.append(self)

    # ---- description
    @property
    def dtype(self):
        return DT[self.val.dtype]

    @property
    def shape(self):
        return self.get_shape()

    def get_shape(self):
        if self.val is None:
            raise Unsupported('shape of an operation')
        return TensorShape(self.val.shape)

    @property
    def name(self):
        return '%s_%d:0' % (self.kind, self.id)

    @property
    def op(self):
        return self

    @property
    def outputs(self):
        return L.PList([self])

    @property
    def device(self):
        return ''

    def set_shape(self, s):
        pass

    def __repr__(self):
        return '<tf.Tensor %s %s>' % (self.name, self.val)

    def eval(self, feed_dict=None, session=None):
        s = session or (STATE.sessions[-1] if STATE.sessions else None)
        if s is None:
            raise ValueError('Cannot evaluate tensor using `eval()`: No default session is registered.')
        return s.run(self, feed_dict)

    def run(self, feed_dict=None, session=None):
        return self.eval(feed_dict, session)

    def consumers(self):
        raise Unsupported('graph introspection')

    def __bool__(self):
        raise TypeError('Using a `tf.Tensor` as a Python `bool` is not allowed.')

    def __iter__(self):
        if self.val.rank == 0:
            raise TypeError('Cannot iterate over a scalar tensor.')
        raise TypeError('`tf.Tensor` objects are only iterable when eager execution is enabled')

    def _symiter(self):
        raise TypeError('`tf.Tensor` objects are only iterable when eager execution is enabled')

    def __len__(self):
        raise TypeError('len is not well defined for a symbolic Tensor')

    _len = __len__

    # ---- loops
    def _subst(self, m):
        if not (set(m) & self.val.body.freevars()) and not self._dep(set(m)):
            return self
        return make('subst', [self], lambda t, m=dict(m): t.subst(m))

    def _dep(self, vs):
        return False

    def _carry(self, nm):
        return make('carry', [], lambda t=self.val: TV.input(nm, t.shape, t.dtype))

    def _loop_final(self, lp, w, pre, cnames):
        prei = [pre] if isinstance(pre, Tensor) else []

        def fn(t, *ps):
            if ps:
                if ps[0].rank != t.rank or any(ps[0].size(i) != t.size(i) for i in range(t.rank)):
                    raise Unsupported('loop-carried tensor changes shape')
                axes, (b, pb) = T.align([t, ps[0]])
            else:
                t = t.fresh()
                axes, b = t.axes, t.body
                pb = topoly(pre) if isinstance(pre, (int, float, Num)) and not isinstance(pre, bool) else None
            # the carried tensor appears as element atoms carry(idx): same index as the result
            nm = lp.carry[w][0] if w in lp.carry else None
            if nm is not None and axes and any(axes):
                at = alg.EL(nm, [VAR(g[0]) if g else ZERO for g in axes])
                (tm, _), = at.t.items()
                a0 = tm.f[0][0]
                repl = alg.SYM(nm)
                (tm2, _), = repl.t.items()
                nb = []
                for tt, c in b.t.items():
                    f = {}
                    for a, e in tt.f:
                        f[tm2.f[0][0] if a == a0 else a] = e
                    nb.append(P({alg.canon(list(tt.b), f): c}))
                b = alg.addall(nb)
                for tt in b.t:
                    for a, _ in tt.f:
                        if a[0] == 'e' and a[1] == nm and a[2]:
                            raise Unsupported('loop-carried tensor read at a shifted index')
            return TV(axes, lp.close(w, b, pb, cnames), t.dtype)
        return make('loopfinal', [self] + prei, fn)

    def _loop_sum(self, k, n, start):
        def fn(t):
            t = t.fresh()
            return TV(t.axes, t.body.sum(k, n), t.dtype)
        r = make('loopsum', [self], fn)
        return r if (isinstance(start, int) and start == 0) else start + r

    # ---- operators
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return subtract(self, o)

    def __rsub__(self, o):
        return subtract(o, self)

    def __mul__(self, o):
        return multiply(self, o)

    def __rmul__(self, o):
        return multiply(o, self)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __div__(self, o):
        return div(self, o)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return floormod(self, o)

    def __pow__(self, o):
        return pow_(self, o)

    def __rpow__(self, o):
        return pow_(o, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __neg__(self):
        return negative(self)

    def __abs__(self):
        return abs_(self)

    def __lt__(self, o):
        return less(self, o)

    def __le__(self, o):
        return less_equal(self, o)

    def __gt__(self, o):
        return greater(self, o)

    def __ge__(self, o):
        return greater_equal(self, o)

    def __invert__(self):
        return logical_not(self)

    def __and__(self, o):
        return logical_and(self, o)

    def __or__(self, o):
        return logical_or(self, o)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def __getitem__(self, ix):
        return getitem(self, ix)

    def __setitem__(self, i, v):
        raise TypeError("'Tensor' object does not support item assignment")

    def _setitem(self, i, v):
        raise TypeError("'Tensor' object does not support item assignment")

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise AttributeError("'Tensor' object has no attribute %r" % n)


class Operation(Tensor):
    """group / no-op: no value"""


def _call(fn, vals):
    try:
        return fn(*vals)
    except ShapeError as e:
        raise ValueError(str(e))


def make(kind, inputs, fn, alias=False):
    val = _call(fn, [i.val for i in inputs])
    return Tensor(kind, inputs, fn, val, alias)


# ------------------------------------------------------------------ conversion
def conv(x, dtype=None, hard=True):
    """convert_to_tensor"""
    dtype = dtname(dtype)
    if isinstance(x, Variable):
        x = x._read
    if isinstance(x, Operation):
        raise TypeError('an Operation is not a Tensor')
    if isinstance(x, Tensor):
        if dtype and x.val.dtype != dtype and hard:
            raise ValueError('Tensor conversion requested dtype %s for Tensor with dtype %s' % (dtype, x.val.dtype))
        return x
    if isinstance(x, SparseTensor):
        raise TypeError('Failed to convert a SparseTensor to a Tensor')
    if hasattr(x, 'tv'):          # ndarray
        t = x.tv
        t = t.astype(dtype or t.dtype)
        return make('const', [], lambda t=t: t)
    if isinstance(x, TensorShape):
        x = L.PList([mk(p, True) for p in x.d])
        dtype = dtype or 'int32'
    if isinstance(x, Dimension):
        x = x.value
    if isinstance(x, bool):
        return make('const', [], lambda: TV.scalar(lift_num(int(x)), dtype or 'bool'))
    if isinstance(x, Cond):
        return make('const', [], lambda: TV.scalar(x.ind(), 'bool'))
    if isinstance(x, (int, float, Num)):
        isint = isinstance(x, int) or isinstance(x, Num) and x.isint
        if dtype and not isfloat(dtype) and not isint and not topoly(x).is_const():
            raise TypeError('Expected %s, got a float' % dtype)
        if dtype and not isfloat(dtype) and isinstance(x, float):
            raise TypeError('Expected %s, got %r of type float' % (dtype, x))
        p = topoly(x)
        return make('const', [], lambda: TV.scalar(p, dtype or ('int32' if isint else 'float32')))
    if isinstance(x, (list, tuple)):
        return stack_list(x, dtype)
    if isinstance(x, L.SSeq):
        r = L.PList()
        r.segs = [('s', x)]
        return stack_list(r, dtype)
    if x is None:
        raise ValueError('None values not supported.')
    if isinstance(x, (str, L.SymStr)):
        raise Unsupported('string tensor')
    raise TypeError('Failed to convert object of type %s to Tensor' % type(x))


def stack_list(x, dtype=None):
    if isinstance(x, L.PList) and x.segs is not None:
        s = x.single()
        if s is None:
            raise Unsupported('tensor from a mixed symbolic list')
        if s.guard is not None:
            raise Unsupported('tensor from a filtered list')
        e = conv(s.val, dtype, hard=False)
        k, n = s.k, s.n
        if dtype and e.val.dtype != dtype:
            raise TypeError('dtype mismatch in packed list')

        def fn(t):
            t = t.fresh()
            v = newvar(n)
            return TV([[v]] + t.axes, t.body.subst({k: VAR(v)}), t.dtype)
        return make('pack', [e], fn)
    xs = list(L.tolist(x))
    if not xs:
        return make('const', [], lambda: TV.build([0], lambda i: ZERO, dtype or 'float32'))
    # a tensor element decides the dtype
    hint = dtype
    if hint is None:
        hint = _hint(xs)
    es = [conv(e, hint, hard=False) for e in xs]
    return stack(L.PList(es), axis=0)


def _hint(xs):
    best = None
    for e in xs:
        if isinstance(e, (Tensor, Variable)) or hasattr(e, 'tv'):
            return dtname(e.dtype)
        if isinstance(e, (list, tuple)) and not (isinstance(e, L.PList) and e.segs is not None):
            h = _hint(list(L.tolist(e)))
            if h:
                best = h
    if best:
        return best
    fl = [e for e in xs if isinstance(e, float) or isinstance(e, Num) and not e.isint]
    return 'float32' if fl else None


def pair(x, y, op=''):
    isT = lambda z: isinstance(z, (Tensor, Variable))
    if isT(x):
        x = conv(x)
        y = conv(y, x.val.dtype, hard=False)
    elif isT(y):
        y = conv(y)
        x = conv(x, y.val.dtype, hard=False)
    else:
        x = conv(x)
        y = conv(y, x.val.dtype, hard=False)
    if x.val.dtype != y.val.dtype:
        raise TypeError("Input 'y' of '%s' Op has type %s that does not match type %s of argument 'x'." % (
            op, y.val.dtype, x.val.dtype))
    return x, y


def binop(name, f, out=None, need=None):
    def op(x, y, name_=None, **kw):
        x, y = pair(x, y, name)
        if need == 'bool' and x.val.dtype != 'bool':
            raise TypeError('%s needs bool tensors' % name)
        return make(name, [x, y], lambda a, b: T.ew(f, a, b, dtype=out or a.dtype))

    def w(x, y, name=None):
        return op(x, y)
    return w


def unop(name, f, out=None):
    def op(x, name=None):
        x = conv(x)
        return make(name or 'unop', [x], lambda a: TV(a.axes, f(a.body), out or a.dtype))
    return op


add = binop('Add', lambda a, b: a + b)
subtract = binop('Sub', lambda a, b: a - b)
multiply = binop('Mul', lambda a, b: a * b)
maximum = binop('Maximum', alg.maxp)
minimum = binop('Minimum', alg.minp)
less = binop('Less', lambda a, b: alg.gt0(b - a), 'bool')
greater = binop('Greater', lambda a, b: alg.gt0(a - b), 'bool')
less_equal = binop('LessEqual', lambda a, b: ONE - alg.gt0(a - b), 'bool')
greater_equal = binop('GreaterEqual', lambda a, b: ONE - alg.gt0(b - a), 'bool')
equal = binop('Equal', lambda a, b: ONE - alg.ne0(a - b), 'bool')
not_equal = binop('NotEqual', lambda a, b: alg.ne0(a - b), 'bool')
logical_and = binop('And', lambda a, b: a * b, 'bool', 'bool')
logical_or = binop('Or', lambda a, b: a + b - a * b, 'bool', 'bool')
squared_difference = binop('SquaredDifference', lambda a, b: (a - b) * (a - b))
negative = unop('Neg', lambda a: -a)
square = unop('Square', lambda a: a * a)
sqrt = unop('Sqrt', alg.sqrt)
rsqrt = unop('Rsqrt', lambda a: alg.inv(alg.sqrt(a)))
abs_ = unop('Abs', alg.absp)
relu = unop('Relu', alg.relu)
logical_not = unop('Not', lambda a: ONE - a)
sign = unop('Sign', lambda a: alg.gt0(a) - alg.gt0(-a))
reciprocal = unop('Reciprocal', alg.inv)


def pow_(x, y, name=None):
    x, y = pair(x, y, 'Pow')

    def f(a, b):
        if b.is_const() and b.const.denominator == 1:
            return a ** int(b.const)
        return alg.powr(a, b)
    return make('Pow', [x, y], lambda a, b: T.ew(f, a, b))


def truediv(x, y, name=None):
    x, y = pair(x, y, 'TrueDiv')
    if not isfloat(x.val.dtype):
        out = {'int8': 'float32', 'int16': 'float32'}.get(x.val.dtype, 'float64')
        return make('RealDiv', [x, y], lambda a, b: T.ew(lambda p, q: p / q, a, b, dtype=out))
    return make('RealDiv', [x, y], lambda a, b: T.ew(lambda p, q: p / q, a, b))


def div(x, y, name=None):
    x, y = pair(x, y, 'Div')
    if isfloat(x.val.dtype):
        return make('Div', [x, y], lambda a, b: T.ew(lambda p, q: p / q, a, b))
    return make('Div', [x, y], lambda a, b: T.ew(alg.idiv, a, b))


def div_no_nan(x, y, name=None):
    x, y = pair(x, y, 'DivNoNan')
    return make('DivNoNan', [x, y], lambda a, b: T.ew(lambda p, q: p / q * alg.ne0(q), a, b))


def floordiv(x, y, name=None):
    x, y = pair(x, y, 'FloorDiv')
    if isfloat(x.val.dtype):
        return make('FloorDiv', [x, y], lambda a, b: T.ew(lambda p, q: alg.lift('floor', p / q), a, b))
    return make('FloorDiv', [x, y], lambda a, b: T.ew(alg.idiv, a, b))


def floormod(x, y, name=None):
    x, y = pair(x, y, 'FloorMod')
    return make('FloorMod', [x, y], lambda a, b: T.ew(alg.imod, a, b))


def add_n(inputs, name=None):
    xs = [conv(x) for x in L.tolist(inputs)]
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


def cast(x, dtype, name=None):
    d = dtname(dtype)
    x = conv(x)
    if isfloat(x.val.dtype) and not isfloat(d) and d != 'bool':
        def f(t):
            if L._intvalued(t.body):
                return t.astype(d)
            return TV(t.axes, alg.lift('trunc', t.body), d)
        return make('Cast', [x], f)
    if d == 'bool' and x.val.dtype != 'bool':
        return make('Cast', [x], lambda t: TV(t.axes, alg.ne0(t.body), d))
    return make('Cast', [x], lambda t: t.astype(d))


def identity(x, name=None):
    x = conv(x)
    return make('Identity', [x], lambda t: t, alias=True)


def stop_gradient(x, name=None):
    return identity(x)


def convert_to_tensor(value, dtype=None, name=None, preferred_dtype=None, dtype_hint=None):
    return conv(value, dtype)


def constant(value, dtype=None, shape=None, name='Const', verify_shape=False):
    if isinstance(value, (Tensor, Variable)):
        raise TypeError('List of Tensors when single Tensor expected')
    c = conv(value, dtype)
    if shape is not None:
        ds = dims_of(shape)
        t = c.val
        if _isone(t.numel) and not (len(ds) == t.rank):
            return make('const', [], lambda: TV.build(ds, lambda *i: t.body, t.dtype))
        return make('const', [], lambda: t.reshape(ds))
    return c


# ------------------------------------------------------------------ structure ops
def transpose(a, perm=None, name=None, conjugate=False):
    a = conv(a)
    if perm is not None:
        if isinstance(perm, Tensor) or hasattr(perm, 'tv'):
            perm = [mk(p, True) for p in dims_of(perm)]
        perm = list(L.tolist(perm))
        if any(not isinstance(p, int) for p in perm):
            raise Unsupported('symbolic permutation')
        perm = [p + a.val.rank if p < 0 else p for p in perm]
        if sorted(perm) != list(range(a.val.rank)):
            raise ValueError('invalid permutation %r' % (perm,))
    return make('Transpose', [a], lambda t: t.transpose(perm))


def reshape(tensor, shape, name=None):
    t = conv(tensor)
    ds = dims_of(shape)
    return make('Reshape', [t], lambda x: x.reshape(ds), alias=True)


def expand_dims(input, axis=None, name=None, dim=None):
    x = conv(input)
    axis = dim if axis is None else axis
    r = x.val.rank
    if not isinstance(axis, int):
        raise Unsupported('symbolic axis')
    if not -r - 1 <= axis <= r:
        raise ValueError('axis out of range')
    return make('ExpandDims', [x], lambda t: t.expand(axis % (r + 1)), alias=True)


def squeeze(input, axis=None, name=None, squeeze_dims=None):
    x = conv(input)
    axis = squeeze_dims if axis is None else axis
    if axis is None:
        ax = [n for n in range(x.val.rank) if _isone(x.val.size(n))]
        if any(not x.val.size(n).is_const() for n in range(x.val.rank)):
            raise Unsupported('squeeze of symbolic dimensions')
    else:
        ax = axes_of(axis, x.val.rank)
    return make('Squeeze', [x], lambda t: t.squeeze(ax), alias=True)


def stack(values, axis=0, name='stack'):
    if isinstance(values, L.PList) and values.segs is not None:
        r = stack_list(values)
        if axis == 0:
            return r
        n = r.val.rank
        ax = axis % n
        perm = list(range(1, n))
        perm.insert(ax, 0)
        return make('Transpose', [r], lambda t: t.transpose(perm))
    vs = list(L.tolist(values))
    h = _hint(vs)
    es = [conv(v, h, hard=False) for v in vs]
    if not es:
        raise ValueError('Must specify at least one value')
    if any(e.val.dtype != es[0].val.dtype for e in es):
        raise TypeError('stack of different dtypes')
    n = len(es)
    rk = es[0].val.rank + 1
    if not -rk <= axis < rk:
        raise ValueError('axis out of range')
    ax = axis % rk

    def fn(*ts):
        if any(t.rank != ts[0].rank for t in ts) or any(
                a != b for t in ts for a, b in zip(t.shape, ts[0].shape)):
            raise ShapeError('Shapes must be equal rank and size to stack')
        axes, bs = T.align(list(ts))
        if n == 1:
            r = TV([[]] + axes, bs[0], ts[0].dtype)
        else:
            v = newvar(n)
            body = ZERO
            for i, b in enumerate(bs):
                body = body + alg.delta(VAR(v), CONST(i)) * b
            r = TV([[v]] + axes, body, ts[0].dtype)
        perm = list(range(1, rk))
        perm.insert(ax, 0)
        return r.transpose(perm)
    return make('Pack', es, fn)


def unstack(value, num=None, axis=0, name=None):
    x = conv(value)
    axis %= x.val.rank
    n = x.val.size(axis)
    if not n.is_const():
        raise Unsupported('unstack of a symbolic axis')
    out = L.PList()
    for i in range(int(n.const)):
        out.append(getitem(x, tuple([slice(None)] * axis + [i])))
    return out


def concat_tv(ts, ax):
    off = ZERO
    parts = []
    for t in ts:
        if t.rank != ts[0].rank or any(t.size(n) != ts[0].size(n) for n in range(t.rank) if n != ax):
            raise ShapeError('Dimensions must match in concat')
        parts.append((off, t))
        off = off + t.size(ax)
    r = TV.build([off if n == ax else ts[0].size(n) for n in range(ts[0].rank)], lambda *i: ZERO, ts[0].dtype)
    if any(not t.size(ax).is_const() for t in ts):
        raise Unsupported('concat along a symbolic axis')
    idx = [VAR(g[0]) if g else ZERO for g in r.axes]
    body = ZERO
    for o, t in parts:
        for j in range(int(t.size(ax).const)):
            ix = list(idx)
            ix[ax] = CONST(j)
            body = body + alg.delta(idx[ax], o + j) * t.at(*ix)
    r.body = body
    return r


def concat(values, axis, name='concat'):
    if isinstance(values, L.PList) and values.segs is not None:
        st = stack_list(values)
        rk = st.val.rank - 1
        if not rk or not -rk <= axis < rk:
            raise ValueError('axis out of range')
        ax = axis % rk
        sh = st.val.shape
        st = stack(values, ax)
        ds = list(sh[1:])
        ds[ax] = sh[0] * ds[ax]
        return make('Concat', [st], lambda t: t.reshape(ds))
    es = [conv(v) for v in L.tolist(values)]
    if len(es) == 1:
        return identity(es[0])
    ax = axes_of(axis, es[0].val.rank)[0]

    def fn(*ts):
        return concat_tv(list(ts), ax)
    return make('Concat', es, fn)


def getitem(x, ix):
    x = conv(x)
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    n_real = len([i for i in ix if i is not None and i is not Ellipsis])
    if sum(1 for i in ix if i is Ellipsis) > 1:
        raise ValueError('multiple ellipses')
    if n_real > x.val.rank:
        raise ValueError('too many indices')
    if Ellipsis in [i for i in ix if i is Ellipsis]:
        p = [n for n, i in enumerate(ix) if i is Ellipsis][0]
        ix[p:p + 1] = [slice(None)] * (x.val.rank - n_real)
    else:
        ix += [slice(None)] * (x.val.rank - n_real)
    tens = []
    spec = []
    for i in ix:
        if isinstance(i, Variable):
            i = i._read
        if isinstance(i, Tensor):
            if i.val.rank != 0:
                raise Unsupported('indexing with a non-scalar tensor')
            spec.append(('t', len(tens)))
            tens.append(i)
        elif isinstance(i, slice):
            f = []
            for b in (i.start, i.stop, i.step):
                if isinstance(b, Tensor):
                    b = mk(b.val.body, True)
                f.append(b)
            spec.append(('s', slice(*f)))
        elif i is None:
            spec.append(('n', None))
        elif isinstance(i, Dimension):
            spec.append(('i', i.p))
        elif isinstance(i, (int, Num)) and not isinstance(i, bool):
            spec.append(('i', topoly(i)))
        elif hasattr(i, '_as_num') and i._as_num() is not None:
            spec.append(('i', topoly(i._as_num())))
        else:
            raise TypeError('Only integers, slices, ellipsis, tf.newaxis and scalar tensors are valid indices')
    return make('StridedSlice', [x] + tens, lambda t, *ts: slice_tv(t, spec, ts))


def index_ok(p, n):
    """0 <= p < n provable?"""
    if p.is_const() and n.is_const():
        return 0 <= p.const < n.const
    up = alg.upper(p)
    if up is not None and alg._dim_le(up, n - 1):
        return True
    return ENG.valid(S.conj([S.gt(p + 1), S.gt(n - p)]))


def norm_index(p, n):
    if p.is_const() and p.const < 0:
        p = p + n
    return p


def slice_tv(t, spec, ts):
    """basic indexing; returns a TV"""
    axes_in = list(range(t.rank))
    idx, out, a = [], [], 0
    for kind, v in spec:
        if kind == 'n':
            out.append([])
            continue
        n = t.size(a)
        a += 1
        if kind in ('i', 't'):
            p = ts[v].body if kind == 't' else v
            p = norm_index(p, n)
            if p.is_const() and n.is_const() and not 0 <= p.const < n.const:
                raise ShapeError('slice index %s of dimension %s out of bounds' % (p.const, n.const))
            if kind == 'i' and not p.is_const() and not index_ok(p, n):
                need_index(p, n)
            elif kind == 't' and not index_ok(p, n):
                need_index(p, n)
            elif p.is_const() and not n.is_const() and not index_ok(p, n):
                need_index(p, n)
            idx.append(p)
            continue
        st, sp, step = v.start, v.stop, v.step
        st, sp = [None if z is None else topoly(z) for z in (st, sp)]
        step = 1 if step is None else step
        if not isinstance(step, int):
            raise Unsupported('symbolic stride')
        if step == 1:
            st = ZERO if st is None else norm_index(st, n)
            sp = n if sp is None else norm_index(sp, n)
            if not (sp == n):
                sp = alg.imin(sp, n)
            size = sp - st
            if size.is_const() and size.const < 0:
                size = ZERO
            if _isone(size):
                out.append([])
                idx.append(st)
                continue
            if st.is_const() and st.const == 0 and size == n:
                idx.append(None)
                out.append(list(t.axes[a - 1]))
                continue
            w = newvar(size)
            idx.append(st + VAR(w))
            out.append([w])
            continue
        if not n.is_const():
            if step == -1 and st is None and sp is None:
                w = newvar(n)
                idx.append(n - 1 - VAR(w))
                out.append([w])
                continue
            raise Unsupported('strided slice of a symbolic axis')
        if any(z is not None and not z.is_const() for z in (st, sp)):
            raise Unsupported('strided slice with symbolic bounds')
        r = range(int(n.const))[slice(None if st is None else int(st.const), None if sp is None else int(sp.const), step)]
        if len(r) == 1:
            out.append([])
            idx.append(CONST(r[0]))
        else:
            w = newvar(len(r))
            idx.append(CONST(r[0] if len(r) else 0) + VAR(w) * step)
            out.append([w])
    # axes kept whole stay as their group
    t2 = t
    full = []
    for n, p in enumerate(idx):
        full.append(p)
    m_axes = []
    sub_idx = []
    body = _at_partial(t, idx)
    return TV(out, body, t.dtype)


def _at_partial(t, idx):
    """substitute indices; None keeps the axis' own variables"""
    m = {}
    for g, ix in zip(t.axes, idx):
        if ix is None or not g:
            continue
        if len(g) == 1:
            m[g[0]] = ix
        else:
            rest = ix
            sizes = [alg.VARDIM[v] for v in g]
            for n, v in enumerate(g):
                tail = T.prod(sizes[n + 1:])
                if n == len(g) - 1:
                    m[v] = rest
                else:
                    m[v] = alg.idiv(rest, tail)
                    rest = alg.imod(rest, tail)
    return t.body.subst(m)


def need_index(p, n):
    """index-range obligation; undischarged ones are recorded and reported"""
    c = S.conj([S.gt(p + 1), S.gt(n - p)])
    if isinstance(c, bool):
        if not c:
            raise ShapeError('index %s out of range for size %s' % (p.key, n.key))
        return
    if not ENG.valid(c):
        if not ENG.possible(c):
            raise ShapeError('index %s out of range for size %s' % (p.key, n.key))
        ENG.notes.append(('index', p, n))


def slice_(input_, begin, size, name=None):
    x = conv(input_)
    b, s = dims_of(begin), dims_of(size)
    if len(b) != x.val.rank or len(s) != x.val.rank:
        raise ValueError('slice rank mismatch')
    spec = []
    for p, q, n in zip(b, s, x.val.shape):
        if q.is_const() and q.const == -1:
            q = n - p
        if not (p.is_const() and p.const == 0 and q == n):
            c = S.conj([S.gt(p + 1), S.gt(q + 1), S.gt(n - p - q + 1)])
            if c is False or (c is not True and not ENG.possible(c)):
                raise ValueError('slice out of range')
            if c is not True and not ENG.valid(c):
                ENG.notes.append(('slice', p, n))
        spec.append((p, q, n))

    def fn(t):
        idx, out = [], []
        for (p, q, n), g in zip(spec, t.axes):
            if p.is_const() and p.const == 0 and q == n:
                idx.append(None)
                out.append(list(g))
            elif _isone(q):
                idx.append(p)
                out.append([])
            else:
                w = newvar(q)
                idx.append(p + VAR(w))
                out.append([w])
        return TV(out, _at_partial(t, idx), t.dtype)
    return make('Slice', [x], fn)


def gather(params, indices, validate_indices=None, name=None, axis=0, batch_dims=0):
    x = conv(params)
    i = conv(indices)
    if axis != 0 or batch_dims:
        raise Unsupported('gather along an axis')

    def fn(t, ix):
        ix = ix.fresh()
        w = ix.body
        if not index_ok(w, t.size(0)):
            need_index(w, t.size(0))
        t = t.fresh()
        return TV(ix.axes + t.axes[1:], _at_partial(t, [w] + [None] * (t.rank - 1)), t.dtype)
    return make('Gather', [x, i], fn)


def gather_nd(params, indices, name=None, batch_dims=0):
    x = conv(params)
    i = conv(indices)
    m = i.val.size(i.val.rank - 1)
    if not m.is_const() or batch_dims:
        raise Unsupported('gather_nd')
    m = int(m.const)

    def fn(t, ix):
        ix = ix.fresh()
        ws = [_at_partial(ix, [None] * (ix.rank - 1) + [CONST(j)]) for j in range(m)]
        for j, w in enumerate(ws):
            if not index_ok(w, t.size(j)):
                need_index(w, t.size(j))
        t = t.fresh()
        return TV(ix.axes[:-1] + t.axes[m:], _at_partial(t, ws + [None] * (t.rank - m)), t.dtype)
    return make('GatherNd', [x, i], fn)


def shape_(input, name=None, out_type=None):
    x = conv(input)
    d = x.val.shape
    return stack(L.PList([_dimconst(p, dtname(out_type) or 'int32') for p in d])) if d else \
        make('const', [], lambda: TV.build([0], lambda i: ZERO, 'int32'))


def _dimconst(p, dt='int32'):
    return make('const', [], lambda: TV.scalar(p, dt))


def size_(input, name=None, out_type=None):
    return _dimconst(conv(input).val.numel)


def rank_(input, name=None):
    return _dimconst(CONST(conv(input).val.rank))


def fill_(shape, p, dtype):
    ds = dims_of(shape)
    return make('Fill', [], lambda: TV.build(ds, lambda *i: p, dtype))


def ones(shape, dtype='float32', name=None):
    return fill_(shape, ONE, dtname(dtype))


def zeros(shape, dtype='float32', name=None):
    return fill_(shape, ZERO, dtname(dtype))


def fill(dims, value, name=None):
    v = conv(value)
    ds = dims_of(dims)
    return make('Fill', [v], lambda t: TV.build(ds, lambda *i: t.body, t.dtype))


def ones_like(tensor, dtype=None, name=None, optimize=True):
    x = conv(tensor)
    return fill_(TensorShape(x.val.shape), ONE, dtname(dtype) or x.val.dtype)


def zeros_like(tensor, dtype=None, name=None, optimize=True):
    x = conv(tensor)
    return fill_(TensorShape(x.val.shape), ZERO, dtname(dtype) or x.val.dtype)


def eye(num_rows, num_columns=None, batch_shape=None, dtype='float32', name=None):
    n = dimp(num_rows)
    m = n if num_columns is None else dimp(num_columns)
    return make('Eye', [], lambda: TV.build([n, m], lambda i, j: alg.delta(i, j), dtname(dtype)))


def range_(*a, **k):
    dt = k.get('dtype')
    a = [dimp(x) for x in a]
    if len(a) == 1:
        lo, hi = ZERO, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('tf.range with a step')
    return make('Range', [], lambda: TV.build([hi - lo], lambda i: lo + i, dtname(dt) or 'int32'))


def diag(x, name=None, **k):
    x = conv(x)
    if x.val.rank != 1:
        raise Unsupported('diag')

    def fn(t):
        n = t.size(0)
        return TV.build([n, n], lambda i, j: alg.delta(i, j) * t.at(i), t.dtype)
    return make('Diag', [x], fn)


def diag_part(input, name=None, k=0):
    x = conv(input)
    if x.val.rank != 2 or k != 0:
        raise Unsupported('diag_part')
    return make('DiagPart', [x], lambda t: TV.build([alg.imin(t.size(0), t.size(1))], lambda i: t.at(i, i), t.dtype))


def set_diag(input, diagonal, name=None, k=0):
    x, d = pair(input, diagonal, 'SetDiag')
    if x.val.rank != 2 or d.val.rank != 1 or k != 0:
        raise Unsupported('set_diag')
    if d.val.size(0) != alg.imin(x.val.size(0), x.val.size(1)):
        raise ValueError('diagonal of a wrong length')
    return make('SetDiag', [x, d], lambda t, v: TV.build(
        t.shape, lambda i, j: alg.delta(i, j) * v.at(i) + (ONE - alg.delta(i, j)) * t.at(i, j), t.dtype))


def reverse(tensor, axis, name=None):
    x = conv(tensor)
    ax = set(axes_of(axis, x.val.rank))
    return make('Reverse', [x], lambda t: TV.build(
        t.shape, lambda *i: t.at(*[t.size(n) - 1 - v if n in ax else v for n, v in enumerate(i)]), t.dtype))


def count_nonzero(input_tensor, axis=None, keepdims=None, dtype='int64', name=None, reduction_indices=None, keep_dims=None, input=None):
    x = conv(input_tensor)
    return reduce_sum(cast(not_equal(x, zeros_like(x)), dtype), axis=axis, keepdims=bool(keepdims or keep_dims))


def clip_by_value(t, clip_value_min, clip_value_max, name=None):
    return minimum(maximum(t, clip_value_min), clip_value_max)


def broadcast_to(input, shape, name=None):
    x = conv(input)
    return multiply(x, ones(shape, x.dtype))


def scatter_nd(indices, updates, shape, name=None):
    ix, v = conv(indices), conv(updates)
    ds = dims_of(shape)
    if ix.val.rank != 2 or v.val.rank != 1 or not ix.val.size(1).is_const() or int(ix.val.size(1).const) != len(ds):
        raise Unsupported('scatter_nd forms')

    def fn(a, b):
        a, b = a.atomic(), b.atomic()
        n = b.size(0)
        if a.size(0) != n:
            raise ShapeError('scatter_nd indices/updates length mismatch')
        kv = newvar(n)
        for j in range(len(ds)):
            p = a.at(VAR(kv), CONST(j))
            if not index_ok(p, ds[j]):
                need_index(p, ds[j])

        def el(*pos):
            w = newvar(n)
            body = b.at(VAR(w))
            for j, q in enumerate(pos):
                body = body * alg.delta(a.at(VAR(w), CONST(j)), q)
            return body.sum(w, n)
        return TV.build(ds, el, b.dtype)
    return make('ScatterNd', [ix, v], fn)


def where(condition, x=None, y=None, name=None):
    if x is None:
        raise Unsupported('tf.where coordinates')
    c = conv(condition)
    x, y = pair(x, y, 'Select')
    return make('Select', [c, x, y], lambda a, b, d: T.ew(alg.where, a, b, d, dtype=b.dtype))


def cond(pred, true_fn=None, false_fn=None, name=None, **k):
    p = conv(pred)
    if p.val.dtype != 'bool':
        raise TypeError('pred must be a boolean')
    a, b = true_fn(), false_fn()

    def sel(u, v):
        if isinstance(u, (list, tuple)):
            return type(u)(sel(i, j) for i, j in zip(L.tolist(u), L.tolist(v)))
        return where(p, u, v)
    return sel(a, b)


def case(*a, **k):
    raise Unsupported('tf.case')


# ------------------------------------------------------------------ reductions / linear algebra
def _reduction(name, kind):
    def op(input_tensor, axis=None, keepdims=None, name=None, reduction_indices=None, keep_dims=None):
        x = conv(input_tensor)
        ax = axes_of(axis if axis is not None else reduction_indices, x.val.rank)
        keep = bool(keepdims or keep_dims)

        def fn(t):
            if kind == 'sum':
                r = t.sum(ax)
            elif kind == 'mean':
                r = t.sum(ax)
                r = TV(r.axes, r.body / T.prod([t.size(a) for a in ax]), t.dtype)
            elif kind in ('any', 'all'):
                r = t.reduce('rmax' if kind == 'any' else 'rmin', ax)
            else:
                r = t.reduce(kind, ax)
            if keep:
                for a in sorted(ax):
                    r = r.expand(a)
            return r
        return make(name or 'reduce', [x], fn)
    return op


reduce_sum = _reduction('Sum', 'sum')
reduce_mean = _reduction('Mean', 'mean')
reduce_max = _reduction('Max', 'rmax')
reduce_min = _reduction('Min', 'rmin')
reduce_prod = _reduction('Prod', 'rprod')
reduce_any = _reduction('Any', 'any')
reduce_all = _reduction('All', 'all')


def norm_tv(t, ord, axis, keep=False, np_=False):
    rank = t.rank
    ax = axes_of(axis, rank)
    if ord in ('euclidean', 'fro', None) or (ord == 2 and not isinstance(ord, bool) and (
            (axis is None and not (np_ and rank == 2)) or len(ax) == 1)):
        s = TV(t.axes, t.body * t.body, t.dtype).sum(ax)
        r = TV(s.axes, alg.sqrt(s.body), t.dtype)
    elif ord == 1 and len(ax) == 1:
        s = TV(t.axes, alg.absp(t.body), t.dtype).sum(ax)
        r = s
    elif isinstance(ord, float) and ord == float('inf') and len(ax) == 1:
        r = TV(t.axes, alg.absp(t.body), t.dtype).reduce('rmax', ax)
    elif ord == 2 and rank == 2:
        s, u, v = svd_tv(t)
        r = s.reduce('rmax')
    else:
        raise Unsupported('norm order %r' % (ord,))
    if keep:
        for a in sorted(ax):
            r = r.expand(a)
    return r


def norm(tensor, ord='euclidean', axis=None, keepdims=None, name=None, keep_dims=None):
    x = conv(tensor)
    if not isfloat(x.val.dtype):
        raise TypeError('norm of a non-float tensor')
    if isinstance(axis, (list, tuple)):
        axis = list(L.tolist(axis))
    if ord == 'fro' and axis is not None and not (isinstance(axis, list) and len(axis) == 2):
        raise ValueError("'fro' norm needs two axes")
    return make('Norm', [x], lambda t: norm_tv(t, ord, axis, bool(keepdims or keep_dims)))


def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, a_is_sparse=False,
           b_is_sparse=False, name=None, **k):
    a, b = pair(a, b, 'MatMul')
    ta, tb = bool(transpose_a or adjoint_a), bool(transpose_b or adjoint_b)
    return make('MatMul', [a, b], lambda x, y: T.matmul(x, y, ta, tb))


def einsum(equation, *inputs, **kw):
    xs = [conv(x) for x in inputs]
    for x in xs:
        if x.val.dtype != xs[0].val.dtype:
            raise TypeError('einsum of different dtypes')
    eqn = equation.replace(' ', '')
    for c in eqn:
        if not (c.isalpha() and c.isascii()) and c not in ',->.':
            raise ValueError('einsum: invalid label %r' % c)
    if '->' not in eqn:
        lhs = eqn
        allc = lhs.replace(',', '')
        eqn = lhs + '->' + ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    return make('Einsum', xs, lambda *ts: T.einsum(eqn, list(ts)))


def tensordot(a, b, axes, name=None):
    a, b = pair(a, b, 'Tensordot')
    if isinstance(axes, int):
        ra, rb = a.val.rank, b.val.rank
        aa, bb = list(range(ra - axes, ra)), list(range(axes))
    else:
        aa, bb = L.tolist(axes)
        aa = axes_of(aa, a.val.rank)
        bb = axes_of(bb, b.val.rank)
    if len(aa) != len(bb):
        raise ValueError('tensordot axes lengths differ')
    la = [chr(97 + i) for i in range(a.val.rank)]
    lb = [chr(65 + i) for i in range(b.val.rank)]
    for i, j in zip(aa, bb):
        lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in aa] + [c for j, c in enumerate(lb) if j not in bb]
    spec = ''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out)
    return make('Tensordot', [a, b], lambda x, y: T.einsum(spec, [x, y]))


def svd_tv(t, full=False):
    m, n = t.size(0), t.size(1)
    k = alg.imin(m, n)
    s = T.matrix_fn('svds', t, [k])
    u = T.matrix_fn('svdu', t, [m, m if full else k])
    v = T.matrix_fn('svdv', t, [n, n if full else k])
    return s, u, v


def svd(tensor, full_matrices=False, compute_uv=True, name=None):
    x = conv(tensor)
    if x.val.rank != 2:
        raise Unsupported('svd of a rank-%d tensor' % x.val.rank)
    if not isfloat(x.val.dtype):
        raise TypeError('svd of a non-float tensor')
    s = make('SvdS', [x], lambda t: svd_tv(t)[0])
    if not compute_uv:
        return s
    u = make('SvdU', [x], lambda t: svd_tv(t, full_matrices)[1])
    v = make('SvdV', [x], lambda t: svd_tv(t, full_matrices)[2])
    return s, u, v


def matrix_inverse(input, adjoint=False, name=None):
    raise Unsupported('matrix inverse')


def trace(x, name=None):
    x = conv(x)
    return make('Trace', [x], lambda t: T.einsum('ab,cd->abcd', [t, t]) and _trace(t))


def _trace(t):
    v = newvar(alg.imin(t.size(0), t.size(1)))
    return TV([], t.at(VAR(v), VAR(v)).sum(v, alg.VARDIM[v]), t.dtype)


def pinv(a, rcond=None, validate_args=False, name=None):
    x = conv(a)
    return make('Pinv', [x], lambda t: T.matrix_fn('pinv', t, [t.size(1), t.size(0)]))


# ------------------------------------------------------------------ scatter / sparse
class SparseTensor(object):
    def __init__(self, indices, values, dense_shape):
        self.indices = conv(indices, 'int64', hard=True) if not isinstance(indices, (Tensor, Variable)) else conv(indices)
        if self.indices.val.dtype != 'int64':
            raise ValueError('SparseTensor indices must be int64')
        self.values = conv(values)
        ds = dims_of(dense_shape)
        if isinstance(dense_shape, Tensor) and dense_shape.val.dtype != 'int64':
            raise ValueError('SparseTensor dense_shape must be int64')
        self.dims = ds
        if self.indices.val.rank != 2:
            raise ValueError('SparseTensor indices must be a matrix')
        w = self.indices.val.size(1)
        if not (w.is_const() and w.const == len(ds)):
            if not w.is_const():
                raise Unsupported('sparse tensor of symbolic rank')
            raise ValueError('SparseTensor: index width %s, dense rank %d' % (w.const, len(ds)))
        if self.values.val.rank != 1:
            raise ValueError('SparseTensor values must be a vector')

    @property
    def dense_shape(self):
        return stack(L.PList([_dimconst(p, 'int64') for p in self.dims]))

    @property
    def shape(self):
        return TensorShape(self.dims)

    def get_shape(self):
        return TensorShape(self.dims)

    @property
    def dtype(self):
        return self.values.dtype


def scatter_tv(n, k, idx, val, dims, dtype):
    """dense array with  A[idx(k)] = val(k)  for k = 0..n-1 in order (last wins), 0 elsewhere"""
    inj = any(_injective(p, k) for p in idx)
    if inj:
        def fn(*pos):
            w = newvar(n)
            body = val.subst({k: VAR(w)})
            for p, q in zip(idx, pos):
                body = body * alg.delta(p.subst({k: VAR(w)}), q)
            return body.sum(w, n)
        return TV.build(dims, fn, dtype)
    if n.is_const() and n.const <= 64:
        at = [tuple(p.subst({k: CONST(w)}) for p in idx) for w in range(int(n.const))]
        if all(p.is_const() for q in at for p in q):
            last = {q: w for w, q in enumerate(tuple(p.const for p in q) for q in at)}

            def fn(*pos):
                out = []
                for q, w in last.items():
                    b = val.subst({k: CONST(w)})
                    for c, x in zip(q, pos):
                        b = b * alg.delta(CONST(c), x)
                    out.append(b)
                return alg.addall(out)
            return TV.build(dims, fn, dtype)
    name = scatter_base(n, k, idx, val, dims)
    return TV.build(dims, lambda *pos: alg.EL(name, pos), dtype)


def _injective(p, k):
    d = p - VAR(k)
    return k not in d.freevars() and d.is_const() or (k not in (p + VAR(k)).freevars() and k in p.freevars() and False)


def scatter_base(n, k, idx, val, dims):
    m = {k: VAR('%r0')}
    alg.VARDIM['%r0'] = n
    ib = [p.subst(m) for p in idx]
    vb = val.subst(m)
    fv = set().union(vb.freevars(), *[p.freevars() for p in ib]) - {'%r0'}
    if fv:
        raise Unsupported('scatter of an index-dependent value')
    name = 'scatter#' + alg.digest('%s|%s|%s|%s' % (n.key, ';'.join(p.key for p in ib), vb.key,
                                                    ';'.join(p.key for p in dims)))
    alg.DEFS.setdefault(name, dict(kind='scatter', matrix=True, params=[], body=vb, n=n, var='%r0', idx=ib, val=vb,
                                   shape=list(dims), bound=[('%r0', n)]))
    return name


def sparse_tensor_to_dense(sp_input, default_value=None, validate_indices=True, name=None):
    sp = sp_input
    if not isinstance(sp, SparseTensor):
        raise TypeError('Input must be a SparseTensor')
    if default_value not in (None, 0):
        raise Unsupported('sparse default value')
    if validate_indices:
        raise Unsupported('validated sparse indices')
    return sparse_dense(sp.indices, sp.values, sp.dims)


def sparse_dense(indices, values, dims):
    def fn(ix, v):
        n = v.size(0)
        if n.is_const():
            # concrete count: keep as a generic index over a const range
            pass
        ix, v = ix.atomic(), v.atomic()
        if ix.size(0) != n:
            raise ShapeError('sparse indices/values length mismatch')
        if not v.axes[0]:
            k = newvar(ONE)
            comp = [ix.at(ZERO, CONST(j)) for j in range(len(dims))]
            val = v.at(ZERO)
        else:
            k = newvar(n)
            comp = [ix.at(VAR(k), CONST(j)) for j in range(len(dims))]
            val = v.at(VAR(k))
        for j, p in enumerate(comp):
            if not index_ok(p, dims[j]):
                need_index(p, dims[j])
        return scatter_tv(n, k, comp, val, dims, v.dtype)
    return make('SparseToDense', [indices, values], fn)


def sparse_to_dense(sparse_indices, output_shape, sparse_values, default_value=0, validate_indices=True, name=None):
    if default_value not in (0, 0.0) or validate_indices:
        raise Unsupported('sparse_to_dense options')
    ix = conv(sparse_indices)
    v = conv(sparse_values)
    if ix.val.rank != 2 or v.val.rank != 1:
        raise Unsupported('sparse_to_dense forms')
    return sparse_dense(ix, v, dims_of(output_shape))


# ------------------------------------------------------------------ random
RANGE = S.RANGE     # base -> (lo P, hi P, dtype)
DRAWS = {}          # base -> (kind, dims, lo, hi, dtype)


def _random(kind, shape, dtype, lo=None, hi=None):
    ds = dims_of(shape)
    dt = dtname(dtype)
    g = graph()
    nid = g.n

    def fn(run=None):
        nm = 'rnd:%d:%s' % (nid, 'g' if run is None else run)
        isint = not isfloat(dt)
        if isint:
            S.INTBASE.add(nm)
        if lo is not None:
            RANGE[nm] = (lo, hi, dt)
            if lo.is_const() and lo.const >= 0:
                alg.NONNEG.add(nm)
        DRAWS[nm] = (kind, list(ds), lo, hi, dt)
        return TV.input(nm, ds, dt)
    t = make('Random', [], fn)
    t.random = (kind, lo, hi)
    return t


def random_uniform(shape, minval=0, maxval=None, dtype='float32', seed=None, name=None):
    dt = dtname(dtype)
    if maxval is None:
        if not isfloat(dt):
            raise ValueError('Must specify maxval for integer dtype')
        maxval = 1
    lo = conv(minval, dt).val
    hi = conv(maxval, dt).val
    if lo.rank or hi.rank:
        raise Unsupported('broadcast random bounds')
    return _random('uniform', shape, dtype, lo.body, hi.body)


def random_normal(shape, mean=0.0, stddev=1.0, dtype='float32', seed=None, name=None):
    t = _random('normal', shape, dtype)
    if (mean, stddev) != (0.0, 1.0):
        return add(multiply(t, stddev), mean)
    return t


def set_random_seed(s):
    pass


# ------------------------------------------------------------------ variables
class Variable(object):
    __array_priority__ = 100

    def __init__(self, initial_value=None, trainable=True, collections=None, validate_shape=True, caching_device=None,
                 name=None, variable_def=None, dtype=None, expected_shape=None, import_scope=None, constraint=None,
                 use_resource=None, **k):
        if use_resource:
            raise Unsupported('resource variable')
        g = graph()
        iv = initial_value() if callable(initial_value) and not isinstance(initial_value, (Tensor, DType)) else initial_value
        if isinstance(iv, (Tensor, Variable)):
            iv = conv(iv, dtype)
        else:
            iv = conv(iv, dtype)
        self.initial_value = iv
        self.graph = g
        self.vid = len(g.vars)
        self._name = '%s#%d' % (name or 'Variable', self.vid)
        shape, dt = iv.val.shape, iv.val.dtype
        self._shape, self._dt = shape, dt
        cs = g.ctrl
        g.ctrl = []
        self._ref = Tensor('VariableV2', [], None, TV.input('ref:%s' % self._name, shape, dt), alias=True)
        self._ref.var = self
        self._read = make('Identity', [self._ref], lambda t: t, alias=True)
        g.ctrl = cs
        g.vars.append(self)
        self.initializer = self._assign(iv, 'Assign')

    def _assign(self, value, kind):
        v = value.val
        if isfloat(v.dtype):      # the static value of an assignment is opaque
            v = TV.input('asg:%d' % self.graph.n, v.shape, v.dtype)
        t = Tensor(kind, [value], None, v, alias=True)
        t.var = self
        t.assign = True
        return t

    def assign(self, value, use_locking=False, name=None, read_value=True):
        v = conv(value, self._dt, hard=False)
        if v.val.dtype != self._dt:
            raise TypeError("Input 'value' of 'Assign' Op has type %s that does not match type %s" % (v.val.dtype, self._dt))
        if v.val.rank != len(self._shape) or any(a != b for a, b in zip(v.val.shape, self._shape)):
            raise ValueError('Assign requires shapes of both tensors to match: %s vs %s' % (
                [s.key for s in self._shape], [s.key for s in v.val.shape]))
        return self._assign(v, 'Assign')

    def assign_add(self, delta, use_locking=False, name=None, read_value=True):
        raise Unsupported('assign_add')
    assign_sub = assign_add

    def value(self):
        return self._read

    def read_value(self):
        return make('Identity', [self._ref], lambda t: t, alias=True)

    def initialized_value(self):
        return self.initial_value

    def get_shape(self):
        return TensorShape(self._shape)

    @property
    def shape(self):
        return self.get_shape()

    @property
    def dtype(self):
        return DT[self._dt]

    @property
    def name(self):
        return self._name

    @property
    def op(self):
        return self._ref

    def eval(self, session=None):
        return self._read.eval(None, session)

    def __iter__(self):
        raise TypeError("'Variable' object is not iterable.")

    def __bool__(self):
        raise Unsupported('variable as bool')

    def _subst(self, m):
        return self

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise AttributeError("'Variable' object has no attribute %r" % n)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)


def _fwd(n):
    def f(self, *a):
        return getattr(self._read, n)(*a)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'mod', 'pow', 'rpow', 'matmul',
           'rmatmul', 'neg', 'abs', 'lt', 'le', 'gt', 'ge', 'getitem', 'div'):
    setattr(Variable, '__%s__' % _n, _fwd('__%s__' % _n))


def assign(ref, value, validate_shape=None, use_locking=None, name=None):
    return ref.assign(value)


def get_variable(*a, **k):
    raise Unsupported('get_variable')


def placeholder(dtype, shape=None, name=None):
    if shape is None:
        raise Unsupported('placeholder of unknown shape')
    ds = dims_of(shape)
    dt = dtname(dtype)
    nm = 'ph:%d' % graph().n
    t = Tensor('Placeholder', [], None, TV.input(nm, ds, dt))
    t.ph = nm
    return t


def global_variables_initializer():
    return group(*[v.initializer for v in graph().vars])


def variables_initializer(var_list, name=None):
    return group(*[v.initializer for v in L.tolist(var_list)])


def initialize_all_variables():
    return global_variables_initializer()


def group(*inputs, **kw):
    deps = []
    for i in inputs:
        if isinstance(i, (list, tuple)):
            deps += [_ctrlnode(j) for j in L.tolist(i)]
        elif i is None:
            raise TypeError("Expected tf.Tensor or Operation, got None")
        else:
            deps.append(_ctrlnode(i))
    t = Operation('NoOp', [], None, None)
    t.ctrl = t.ctrl + deps
    return t


def no_op(name=None):
    return group()


def tuple_(tensors, name=None, control_inputs=None):
    xs = [conv(t) for t in L.tolist(tensors)]
    gate = group(*xs)
    with _Ctrl(graph(), L.PList([gate])):
        return L.PList([identity(x) for x in xs])


def py_func(func, inp, Tout, stateful=True, name=None):
    from . import npstub
    xs = [conv(x) for x in L.tolist(inp)]
    multi = isinstance(Tout, (list, tuple))
    touts = L.tolist(Tout) if multi else [Tout]

    def run(*ts):
        rank = [npstub.wrap(t) for t in ts]
        r = func(*rank)
        rs = L.tolist(r) if isinstance(r, (list, tuple)) else [r]
        if len(rs) != len(touts):
            raise ValueError('py_func returned %d values' % len(rs))
        out = []
        for v, d in zip(rs, touts):
            v = npstub.asarray(v)
            if v.tv.dtype != dtname(d):
                raise ContractFail('py_func-dtype', 'py_func returned %s, declared %s' % (v.tv.dtype, dtname(d)))
            out.append(v.tv)
        return out
    outs = [make('PyFunc', xs, lambda *ts, j=j: run(*ts)[j]) for j in range(len(touts))]
    return L.PList(outs) if multi else outs[0]


def name_scope(*a, **k):
    return _Null()


class _Null(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return 'scope/'

    def __exit__(self, *a):
        return False


def control_dependencies(deps):
    return _Ctrl(graph(), deps)


# ------------------------------------------------------------------ sessions
class Session(object):
    LET = True

    def __init__(self, target='', graph=None, config=None):
        self.graph = graph or STATE.graphs[-1]
        self.store = {}
        self.closed = False
        STATE.last_session = self
        STATE.all_sessions = getattr(STATE, 'all_sessions', [])
        STATE.all_sessions.append(self)

    def __enter__(self):
        STATE.sessions.append(self)
        return self

    def __exit__(self, *a):
        STATE.sessions.pop()
        self.closed = True
        return False

    def as_default(self):
        s = self

        class C(object):
            def __enter__(_):
                STATE.sessions.append(s)
                return s

            def __exit__(_, *a):
                STATE.sessions.pop()
                return False
        return C()

    def close(self):
        self.closed = True

    def list_devices(self):
        return []

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        if self.closed:
            raise RuntimeError('Attempted to use a closed Session.')
        if ENG.loops:
            raise Unsupported('Session.run inside a generalised loop')
        STATE.runs += 1
        self._runid = STATE.runs
        flat = []
        self._collect(fetches, flat)
        env = {}
        if feed_dict:
            for k, v in feed_dict.items():
                if isinstance(k, Variable):
                    raise Unsupported('feeding a variable')
                from . import npstub
                if isinstance(v, (Tensor, Variable)):
                    raise TypeError('The value of a feed cannot be a tf.Tensor object.')
                t = npstub.asarray(v).tv.astype(k.val.dtype)
                if t.rank != k.val.rank or any(a != b for a, b in zip(t.shape, k.val.shape)):
                    c = t.rank == k.val.rank and S.conj([S.eq(a - b) for a, b in zip(t.shape, k.val.shape)])
                    raise ValueError('Cannot feed value of shape %s for Tensor which has shape %s' % (
                        [s.key for s in t.shape], [s.key for s in k.val.shape]))
                env[k] = t
        roots = [n for n in flat]
        order = self._closure(roots, env)
        self._race(order, roots, env)
        self._exec(order, env)
        if ENG.sim is not None:
            ENG.sim.ran = True
        return self._result(fetches, env)

    def partial_run(self, *a, **k):
        raise Unsupported('partial_run')

    # --- helpers
    def _collect(self, f, out):
        if isinstance(f, Variable):
            out.append(f._read)
        elif isinstance(f, Tensor):
            if f.graph is not self.graph:
                raise ValueError('Tensor is not an element of this graph.')
            out.append(f)
        elif isinstance(f, (list, tuple)):
            for x in L.tolist(f):
                self._collect(x, out)
        elif isinstance(f, dict):
            for x in f.values():
                self._collect(x, out)
        elif isinstance(f, SparseTensor):
            raise Unsupported('fetching a sparse tensor')
        else:
            raise TypeError('Fetch argument %r has invalid type %s' % (f, type(f)))

    def _closure(self, roots, env):
        order, mark = [], {}
        for r in roots:
            stack = [(r, 0)]
            while stack:
                n, st = stack.pop()
                if st == 1:
                    if mark[n] != 2:
                        mark[n] = 2
                        order.append(n)
                    continue
                if n in mark:
                    continue
                mark[n] = 1
                stack.append((n, 1))
                if n in env:
                    continue
                for d in list(n.inputs) + list(n.ctrl):
                    if d not in mark:
                        stack.append((d, 0))
        return order

    @staticmethod
    def _root(n):
        """variable aliased by node n, or None"""
        while True:
            if n.var is not None:
                return n.var
            if n.alias and n.inputs:
                n = n.inputs[0]
                continue
            return None

    def _race(self, order, roots, env):
        writes = {}
        for n in order:
            if getattr(n, 'assign', None) is True:
                writes.setdefault(n.var, []).append(n)
        if not writes:
            return
        idx = {n: i for i, n in enumerate(order)}
        anc = {}
        for n in order:
            s = 0
            if n not in env:
                for d in list(n.inputs) + list(n.ctrl):
                    s |= anc[d] | (1 << idx[d])
            anc[n] = s

        def before(a, b):
            return bool(anc[b] >> idx[a] & 1)
        for n in order:
            if n in env:
                continue
            isw = getattr(n, 'assign', None) is True
            if n.alias and not isw:
                continue
            for i in n.inputs:
                v = self._root(i)
                if v is None or v not in writes:
                    continue
                for w in writes[v]:
                    if w is n:
                        continue
                    if not (before(w, n) or before(n, w)):
                        raise ContractFail('race', '%s reads variable %s unordered with %s' % (n.name, v.name, w.name))
        for r in roots:
            v = self._root(r)
            if v in writes:
                for w in writes[v]:
                    if w is not r and not before(w, r):
                        raise ContractFail('race', 'fetch of variable %s unordered with %s' % (v.name, w.name))
        for v, ws in writes.items():
            for i, a in enumerate(ws):
                for b in ws[i + 1:]:
                    if not (before(a, b) or before(b, a)):
                        raise ContractFail('race', 'two unordered assignments to %s' % v.name)

    def _read(self, n, env):
        v = self._root(n)
        if v is None:
            return env[n]
        # apply alias functions on the current content
        chain = []
        m = n
        while m.var is None:
            chain.append(m)
            m = m.inputs[0]
        if v not in self.store:
            raise ContractFail('uninitialised', 'variable %s is read before it is initialised' % v.name)
        t = self.store[v]
        for m in reversed(chain):
            t = _call(m.fn, [t])
        return t

    def _exec(self, order, env):
        for n in order:
            if n in env:
                continue
            if isinstance(n, Operation):
                continue
            if n.kind == 'Placeholder':
                raise ContractFail('unfed-placeholder', 'a placeholder the fetches depend on is not fed')
            if getattr(n, 'assign', None) is True:
                t = self._read(n.inputs[0], env)
                t = T.let(t) if self.LET else t
                self.store[n.var] = TV(t.axes, t.body, n.var._dt)
                continue
            if n.var is not None:
                continue
            if n.kind == 'Random':
                env[n] = n.fn(self._runid)
                continue
            if n.kind == 'Summary':
                vals = []
                for i in n.inputs:
                    v = self._read(i, env)
                    vals += v if isinstance(v, list) else [v]
                env[n] = vals
                continue
            if n.alias and self._root(n) is not None:
                continue
            env[n] = _call(n.fn, [self._read(i, env) for i in n.inputs])

    def _result(self, f, env):
        from . import npstub
        if isinstance(f, Variable):
            f = f._read
        if isinstance(f, Operation):
            return None
        if isinstance(f, Tensor):
            if f.kind == 'Summary':
                return _SumMsg(env[f])
            t = self._read(f, env)
            if self.LET and t.rank == 0:
                t = T.let(t)
            if ENG.sim is not None and ENG.sim.active:
                ENG.sim.fetched.append(t)
            return npstub.wrap(t)
        if isinstance(f, dict):
            return {k: self._result(v, env) for k, v in f.items()}
        r = L.PList([self._result(x, env) for x in L.tolist(f)])
        return tuple(list.__iter__(r)) if isinstance(f, tuple) else r


class InteractiveSession(Session):
    def __init__(self, *a, **k):
        Session.__init__(self, *a, **k)
        STATE.sessions.append(self)


class _SumMsg(object):
    def __init__(self, vals):
        self.vals = vals


def get_default_graph():
    return graph()


def get_default_session():
    return STATE.sessions[-1] if STATE.sessions else None


def reset_default_graph():
    STATE.graphs[-1] = Graph()


# ------------------------------------------------------------------ summaries
class _Writer(object):
    def __init__(self, logdir, graph=None, *a, **k):
        pass

    def add_summary(self, s, global_step=None):
        if not isinstance(s, _SumMsg):
            raise TypeError('not a summary: %r' % (s,))
        if ENG.sim is not None and ENG.sim.active:
            ENG.sim.summaries.append((s.vals, global_step))

    def add_run_metadata(self, *a, **k):
        pass

    def add_graph(self, *a, **k):
        pass

    def flush(self):
        pass

    def close(self):
        pass


def _sum_scalar(name, tensor, collections=None, family=None):
    x = conv(tensor)
    t = Tensor('Summary', [x], None, None)
    if collections is None:
        graph().summaries.append(t)
    elif isinstance(collections, (list, tuple)):
        for c in L.tolist(collections):
            if c == 'summaries':
                graph().summaries.append(t)
    return t


def _sum_merge(inputs, collections=None, name=None):
    return Tensor('Summary', [_s for _s in L.tolist(inputs)], None, None)


def _sum_merge_all(key=None, scope=None, name=None):
    if key is not None and key != 'summaries':
        raise Unsupported('summary collection')
    s = graph().summaries
    return _sum_merge(L.PList(s)) if s else None


class RunOptions(object):
    FULL_TRACE = 3
    NO_TRACE = 0
    SOFTWARE_TRACE = 1
    HARDWARE_TRACE = 2

    def __init__(self, *a, **k):
        pass


class RunMetadata(object):
    def __init__(self, *a, **k):
        pass


# ------------------------------------------------------------------ module object
class Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('tensorflow API %s.%s' % (self.__name__, n))


def build_module():
    tf = Module('tensorflow')
    d = tf.__dict__
    for n, t in DT.items():
        d[n] = t
    d.update(DType=DType, Tensor=Tensor, Variable=Variable, Operation=Operation, TensorShape=TensorShape,
             Dimension=Dimension, SparseTensor=SparseTensor, Graph=Graph, Session=Session,
             InteractiveSession=InteractiveSession, RunOptions=RunOptions, RunMetadata=RunMetadata,
             add=add, subtract=subtract, multiply=multiply, maximum=maximum, minimum=minimum, less=less,
             greater=greater, less_equal=less_equal, greater_equal=greater_equal, equal=equal, not_equal=not_equal,
             logical_and=logical_and, logical_or=logical_or, logical_not=logical_not, negative=negative,
             squared_difference=squared_difference, square=square, sqrt=sqrt, rsqrt=rsqrt, abs=abs_, sign=sign,
             reciprocal=reciprocal, pow=pow_, truediv=truediv, divide=truediv, div=div, div_no_nan=div_no_nan,
             floordiv=floordiv, floor_div=floordiv, mod=floormod, floormod=floormod, add_n=add_n, cast=cast,
             to_float=lambda x, name=None: cast(x, 'float32'), to_double=lambda x, name=None: cast(x, 'float64'),
             to_int32=lambda x, name=None: cast(x, 'int32'), to_int64=lambda x, name=None: cast(x, 'int64'),
             identity=identity, stop_gradient=stop_gradient, convert_to_tensor=convert_to_tensor, constant=constant,
             transpose=transpose, reshape=reshape, expand_dims=expand_dims, squeeze=squeeze, stack=stack,
             unstack=unstack, concat=concat, slice=slice_, gather=gather, gather_nd=gather_nd, shape=shape_,
             size=size_, rank=rank_, ones=ones, zeros=zeros, fill=fill, ones_like=ones_like, zeros_like=zeros_like,
             eye=eye, range=range_, diag=diag, matrix_diag=diag, where=where, cond=cond, case=case,
             reduce_sum=reduce_sum, reduce_mean=reduce_mean, reduce_max=reduce_max, reduce_min=reduce_min,
             reduce_prod=reduce_prod, reduce_any=reduce_any, reduce_all=reduce_all, norm=norm, matmul=matmul,
             einsum=einsum, tensordot=tensordot, svd=svd, trace=trace, sparse_tensor_to_dense=sparse_tensor_to_dense,
             sparse_to_dense=sparse_to_dense, random_uniform=random_uniform, random_normal=random_normal,
             set_random_seed=set_random_seed, assign=assign, placeholder=placeholder,
             global_variables_initializer=global_variables_initializer, variables_initializer=variables_initializer,
             initialize_all_variables=initialize_all_variables, group=group, no_op=no_op, tuple=tuple_,
             py_func=py_func, name_scope=name_scope, variable_scope=name_scope, device=name_scope,
             control_dependencies=control_dependencies, get_default_graph=get_default_graph,
             get_default_session=get_default_session, reset_default_graph=reset_default_graph,
             diag_part=diag_part, matrix_diag_part=diag_part, matrix_set_diag=set_diag, reverse=reverse, count_nonzero=count_nonzero,
             clip_by_value=clip_by_value, broadcast_to=broadcast_to, scatter_nd=scatter_nd, scalar_mul=lambda a, x, name=None: multiply(a, x),
             numpy_function=py_func, newaxis=None, matrix_transpose=lambda a, name=None: transpose(a), ConfigProto=_Null, GPUOptions=_Null,
             __version__='1.15.stub')
    nn = Module('tensorflow.nn')
    nn.__dict__.update(relu=relu, l2_loss=lambda t, name=None: multiply(0.5, reduce_sum(square(t))))
    d['nn'] = nn
    su = Module('tensorflow.summary')
    su.__dict__.update(scalar=_sum_scalar, merge=_sum_merge, merge_all=_sum_merge_all, FileWriter=_Writer)
    d['summary'] = su
    m = Module('tensorflow.math')
    m.__dict__.update({k: d[k] for k in ('add', 'subtract', 'multiply', 'maximum', 'minimum', 'less', 'greater',
                                         'less_equal', 'greater_equal', 'equal', 'not_equal', 'logical_and',
                                         'logical_or', 'logical_not', 'negative', 'square', 'sqrt', 'rsqrt', 'abs',
                                         'sign', 'reciprocal', 'pow', 'truediv', 'divide', 'div_no_nan', 'floordiv',
                                         'floormod', 'add_n', 'reduce_sum', 'reduce_mean', 'reduce_max', 'reduce_min',
                                         'reduce_prod', 'reduce_any', 'reduce_all', 'squared_difference')})
    m.__dict__.update(count_nonzero=count_nonzero, reduce_euclidean_norm=lambda x, axis=None, keepdims=False, name=None: norm(x, axis=axis, keepdims=keepdims))
    d['math'] = m
    la = Module('tensorflow.linalg')
    la.__dict__.update(diag_part=diag_part, set_diag=set_diag, matmul=matmul, svd=svd, norm=norm, einsum=einsum, trace=trace, diag=diag, pinv=pinv, eye=eye,
                       transpose=lambda a, name=None: transpose(a), matrix_transpose=lambda a, name=None: transpose(a),
                       tensordot=tensordot)
    d['linalg'] = la
    rn = Module('tensorflow.random')
    rn.__dict__.update(uniform=random_uniform, normal=random_normal, set_random_seed=set_random_seed)
    d['random'] = rn
    sp = Module('tensorflow.sparse')
    sp.__dict__.update(SparseTensor=SparseTensor, to_dense=sparse_tensor_to_dense)
    d['sparse'] = sp
    gk = Module('tensorflow.GraphKeys')
    gk.__dict__.update(SUMMARIES='summaries', GLOBAL_VARIABLES='variables')
    d['GraphKeys'] = gk
    er = Module('tensorflow.errors')
    d['errors'] = er
    lg = Module('tensorflow.logging')
    lg.__dict__.update(info=lambda *a, **k: None, set_verbosity=lambda *a: None, INFO=1, ERROR=2, WARN=3,
                       warning=lambda *a, **k: None, warn=lambda *a, **k: None)
    d['logging'] = lg
    return tf


reset()
