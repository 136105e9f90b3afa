"""Loads the modules of /repo from their current source for verification.

The text is parsed, rewritten mechanically (list below, nothing else is dropped or
changed), compiled, and executed by CPython with `tensorflow` and `numpy` bound to the
contract stubs (tfstub / npstub).

Rewrites:
  * `for` / `while` / comprehensions / generator expressions over an iterable go through
    pv hooks: concrete iterables run exactly as written, symbolic ones are generalised
    (loop.py);
  * `a % b`, `obj.attr = v`, `obj[i] = v`, `obj.attr op= v`, list displays and starred
    call arguments go through hooks that behave as the original on ordinary values;
  * the builtins in BUILTINS are replaced by versions that accept symbolic numbers.
"""
import ast
import builtins
import os
import sys
import types
from . import loop as L
from . import symex as S

REPO = os.environ.get('PV_REPO', '/repo')


class _Stores(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.names.append(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.append(a.asname or a.name)


class _Flow(ast.NodeTransformer):
    """rewrite break/return belonging to this loop"""

    def __init__(self, lp, names):
        self.lp = lp
        self.names = names

    def visit_For(self, n):
        return n            # inner loops own their break; their returns were rewritten on their own

    visit_While = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_For

    def visit_Break(self, n):
        return [ast.copy_location(x, n) for x in
                ast.parse('%s.brk()' % self.lp).body] + [n]


class _Ret(ast.NodeTransformer):
    def __init__(self, lp):
        self.lp = lp

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, n):
        return [ast.copy_location(x, n) for x in ast.parse('%s.ret()' % self.lp).body] + [n]


def _flow(body, lp, names):
    out = []
    for s in body:
        r = _Flow(lp, names).visit(s)
        for x in (r if isinstance(r, list) else [r]):
            y = _Ret(lp).visit(x)
            out += y if isinstance(y, list) else [y]
    return out


def _parse1(src):
    return ast.parse(src).body


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn_depth = 0

    def uid(self):
        self.n += 1
        return self.n

    # ---- functions
    def visit_FunctionDef(self, n):
        self.fn_depth += 1
        self.generic_visit(n)
        self.fn_depth -= 1
        return n

    # ---- loops
    def _W(self, node, extra=()):
        v = _Stores()
        for s in node.body:
            v.visit(s)
        for e in extra:
            v.visit(e)
        return [w for w in v.names if not w.startswith('__pv')]

    def _head(self, lp, W, meth):
        vals = ', '.join('__pv__.get(lambda: %s)' % w for w in W)
        if W:
            return _parse1('(%s,) = %s.%s((%s,))' % (', '.join(W), lp, meth, vals))
        return _parse1('%s.%s(())' % (lp, meth))

    def visit_For(self, n):
        u = self.uid()
        it, lp = '__pv_it%d' % u, '__pv_lp%d' % u
        W = self._W(n, [n.target])
        conc = ast.For(target=n.target, iter=ast.parse(it + '.conc', mode='eval').body,
                       body=n.body, orelse=n.orelse)
        import copy
        body_copy = copy.deepcopy(n.body)
        target_copy = copy.deepcopy(n.target)
        orelse_copy = copy.deepcopy(n.orelse)
        # concrete version
        conc.body = self._stmts(conc.body)
        conc.orelse = self._stmts(conc.orelse)
        # symbolic version
        b2 = self._stmts(_flow(body_copy, lp, W))
        tgt = ast.Assign(targets=[target_copy], value=ast.parse(lp + '.item()', mode='eval').body)
        loop = ast.While(test=ast.Constant(True),
                         body=self._head(lp, W, 'head') + _parse1('if %s.done: break' % lp) + [tgt] + b2,
                         orelse=[])
        sym = _parse1('%s = __pv__.Loop(%s, %r)' % (lp, it, tuple(W))) + [loop]
        if orelse_copy:
            sym.append(ast.If(test=ast.parse('not %s.broke' % lp, mode='eval').body,
                              body=self._stmts(orelse_copy), orelse=[]))
        asg = ast.Assign(targets=[ast.Name(it, ast.Store())],
                         value=ast.Call(func=ast.parse('__pv__.iter', mode='eval').body,
                                        args=[self.visit(n.iter)], keywords=[]))
        out = [asg, ast.If(test=ast.parse(it + '.sym', mode='eval').body, body=sym, orelse=[conc])]
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def visit_While(self, n):
        u = self.uid()
        lp = '__pv_lp%d' % u
        W = self._W(n)
        b2 = self._stmts(_flow(n.body, lp, W))
        test = self.visit(n.test)
        loop = ast.While(test=ast.Constant(True), orelse=[],
                         body=self._head(lp, W, 'head') + _parse1('if %s.done: break' % lp) +
                         [ast.If(test=ast.Call(func=ast.parse(lp + '.cond', mode='eval').body,
                                               args=[ast.Lambda(args=ast.arguments(
                                                   posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                   body=test)], keywords=[]),
                                 body=b2, orelse=ast.parse('while True:\n    %s.wexit()\n    break' % lp).body[0].body)])
        out = _parse1('%s = __pv__.WLoop(%r)' % (lp, tuple(W))) + [loop]
        if n.orelse:
            out.append(ast.If(test=ast.parse('not %s.broke' % lp, mode='eval').body,
                              body=self._stmts(n.orelse), orelse=[]))
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
        return out

    # ---- comprehensions
    def _comp(self, n, elt, gens):
        g = gens[0]
        if g.is_async:
            return None
        inner = self._comp(n, elt, gens[1:]) if len(gens) > 1 else self.visit(elt)
        args, wrap = self._target(g.target)
        cond = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            cond = ast.Lambda(args=args, body=wrap(self.visit(c)))
        fn = ast.Lambda(args=args, body=wrap(inner))
        return ast.Call(func=ast.parse('__pv__.comp', mode='eval').body,
                        args=[self.visit(g.iter), fn, cond or ast.Constant(None),
                              ast.Constant(len(gens) > 1)], keywords=[])

    def _target(self, t):
        mk = lambda names: ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names],
                                         kwonlyargs=[], kw_defaults=[], defaults=[])
        if isinstance(t, ast.Name):
            return mk([t.id]), lambda b: b
        if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
            names = [e.id for e in t.elts]
            tmp = '__pv_t%d' % self.uid()

            def wrap(b):
                lam = ast.Lambda(args=mk(names), body=b)
                return ast.Call(func=lam, args=[ast.Starred(ast.Call(
                    func=ast.parse('__pv__.unpack', mode='eval').body,
                    args=[ast.Name(tmp, ast.Load()), ast.Constant(len(names))], keywords=[]), ast.Load())], keywords=[])
            return mk([tmp]), wrap
        raise S.Unsupported('comprehension target')

    def visit_ListComp(self, n):
        return ast.copy_location(self._comp(n, n.elt, n.generators), n)

    visit_GeneratorExp = visit_ListComp

    def visit_SetComp(self, n):
        c = self._comp(n, n.elt, n.generators)
        return ast.copy_location(ast.Call(func=ast.Name('set', ast.Load()), args=[c], keywords=[]), n)

    def visit_DictComp(self, n):
        c = self._comp(n, ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n.generators)
        return ast.copy_location(ast.Call(func=ast.Name('dict', ast.Load()), args=[c], keywords=[]), n)

    # ---- hooks
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(func=ast.parse('__pv__.mod', mode='eval').body,
                                              args=[n.left, n.right], keywords=[]), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=ast.parse('__pv__.PList', mode='eval').body,
                                              args=[n], keywords=[]), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Starred):
                n.args[i] = ast.Starred(ast.Call(func=ast.parse('__pv__.star', mode='eval').body,
                                                 args=[a.value], keywords=[]), ast.Load())
        return n

    def visit_JoinedStr(self, n):
        return n

    def _store(self, t, valname):
        """statements storing the value held in valname into target t"""
        if isinstance(t, ast.Attribute):
            return ast.Expr(ast.Call(func=ast.parse('__pv__.setattr', mode='eval').body,
                                     args=[t.value, ast.Constant(t.attr), valname], keywords=[]))
        if isinstance(t, ast.Subscript):
            return ast.Expr(ast.Call(func=ast.parse('__pv__.setitem', mode='eval').body,
                                     args=[t.value, self._slice(t.slice), valname], keywords=[]))
        return None

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=ast.Name('slice', ast.Load()),
                            args=[x or ast.Constant(None) for x in (s.lower, s.upper, s.step)], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, n):
        self.generic_visit(n)
        out = []
        needs = any(isinstance(t, (ast.Attribute, ast.Subscript)) or
                    (isinstance(t, (ast.Tuple, ast.List)) and
                     any(isinstance(e, (ast.Attribute, ast.Subscript)) for e in t.elts)) for t in n.targets)
        if not needs:
            return n
        tmp = '__pv_v%d' % self.uid()
        out.append(ast.Assign(targets=[ast.Name(tmp, ast.Store())], value=n.value))
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)):
                names = []
                post = []
                elts = []
                for e in t.elts:
                    if isinstance(e, (ast.Attribute, ast.Subscript)):
                        nm = '__pv_v%d' % self.uid()
                        elts.append(ast.Name(nm, ast.Store()))
                        post.append(self._store(e, ast.Name(nm, ast.Load())))
                    else:
                        elts.append(e)
                out.append(ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())],
                                      value=ast.Name(tmp, ast.Load())))
                out += post
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                out.append(self._store(t, ast.Name(tmp, ast.Load())))
            else:
                out.append(ast.Assign(targets=[t], value=ast.Name(tmp, ast.Load())))
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            if isinstance(n.op, ast.Mod):
                r = ast.Assign(targets=[n.target], value=ast.Call(
                    func=ast.parse('__pv__.mod', mode='eval').body,
                    args=[ast.Name(n.target.id, ast.Load()), n.value], keywords=[]))
                return ast.fix_missing_locations(ast.copy_location(r, n))
            return n
        # obj.attr op= v   /   obj[i] op= v  (object and index evaluated once)
        o = '__pv_o%d' % self.uid()
        v = '__pv_v%d' % self.uid()
        out = [ast.Assign(targets=[ast.Name(o, ast.Store())], value=n.target.value)]
        if isinstance(n.target, ast.Attribute):
            cur = ast.Attribute(value=ast.Name(o, ast.Load()), attr=n.target.attr, ctx=ast.Load())
            st = ast.Attribute(value=ast.Name(o, ast.Load()), attr=n.target.attr, ctx=ast.Store())
        else:
            ix = '__pv_i%d' % self.uid()
            out.append(ast.Assign(targets=[ast.Name(ix, ast.Store())], value=self._slice(n.target.slice)))
            cur = ast.Subscript(value=ast.Name(o, ast.Load()), slice=ast.Name(ix, ast.Load()), ctx=ast.Load())
            st = ast.Subscript(value=ast.Name(o, ast.Load()), slice=ast.Name(ix, ast.Load()), ctx=ast.Store())
        out.append(ast.Assign(targets=[ast.Name(v, ast.Store())], value=cur))
        out.append(ast.AugAssign(target=ast.Name(v, ast.Store()), op=n.op, value=n.value))
        out.append(self._store(st, ast.Name(v, ast.Load())))
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out


def rewrite(src, path):
    tree = ast.parse(src, path)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


_CODE = {}


class Loader(object):
    """private import system for one verification run"""

    def __init__(self, root=None, stubs=None):
        self.root = root or REPO
        self.mods = {}
        self.stubs = stubs or {}
        self.sources = {}
        self.bi = dict(vars(builtins))
        self.bi.update(L.BUILTINS)
        self.bi['__import__'] = self._import

    def _find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return (f if os.path.exists(f) else None), True, p
        if os.path.exists(p + '.py'):
            return p + '.py', False, None
        raise ImportError('No module named %r' % name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        path, ispkg, d = self._find(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.bi
        m.__dict__['__pv__'] = L.HOOKS
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [d]
        self.mods[name] = m
        if path:
            import warnings
            with open(path) as f:
                src = f.read()
            self.sources[path] = src
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = _CODE.get((path, src))
                if code is None:
                    code = _CODE[(path, src)] = rewrite(src, path)
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top in self.stubs:
            m = self.stubs[top]
            if fromlist:
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
                return m
            return m
        if top != 'tensorD':
            if name in ALLOWED or top in ALLOWED:
                return builtins.__import__(name, None, None, fromlist, 0)
            raise S.Unsupported('import of ' + name)
        m = self.load(name)
        if not fromlist:
            return self.load(top)
        for f in fromlist:
            if f != '*' and not hasattr(m, f):
                try:
                    self.load(name + '.' + f)
                except ImportError:
                    pass
        return m


ALLOWED = {'functools', 'itertools', 'operator', 'math', 'collections', 'time', 'os', 'sys', 'logging',
           'unittest', 'pickle', 'ctypes', 'string', 'copy', 'typing', 'abc', 'numbers', 're', 'warnings',
           'contextlib', 'enum', 'dataclasses'}
