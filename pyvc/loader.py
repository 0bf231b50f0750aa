"""Loads the real source of /repo with a mechanical instrumentation.

The instrumentation, which is applied to the parsed source on every run, drops
nothing and changes only, how three language constructs are dispatched:

* the body of a ``for``/``while`` statement in a function is moved to a local
  closure (with ``nonlocal`` variables), that is passed to the loop rule;
* comprehensions with a single generator are passed to the sequence rule;
* built-in functions (len, range, zip, isinstance, int, ...) and the modules numpy
  and math are resolved to versions, that also accept symbolic values.

Without symbolic values, the instrumented code behaves like the original code
(checked by the self test, which runs the contracts concretely on it)."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import z3
from . import core, seqs, loops, npshim, arrays, windows, rng
from . import fakefiles
from . import fakejack      # noqa: F401  pylint: disable=unused-import; provides the module jack
from .core import Unsupported

ROOT = os.environ.get("VERIF_REPO", "/repo")


# ----------------------------------------------------------------- AST transformation

class NameCollector(ast.NodeVisitor):
    """names, that are bound by a list of statements (without nested scopes)"""

    def __init__(self):
        self.names = []
        self.globals = set()
        self.has = {"yield": False, "return": False}

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        # the targets are local to the comprehension; named expressions are not
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.add(n.target.id)
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.has["yield"] = True

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Global(self, node):
        self.globals.update(node.names)

    visit_Nonlocal = visit_Global

    def visit_Yield(self, node):
        self.has["yield"] = True
        self.generic_visit(node)

    visit_YieldFrom = visit_Await = visit_Yield

    def visit_Return(self, node):
        self.has["return"] = True
        self.generic_visit(node)


class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.count = 0
        self.fstack = []       # per function: set of names to be pre-declared
        self.bound = []        # per function: the names of the local variables
        self.loop = []         # "native" or "closure" per enclosing loop in the current function

    # ------------------------------------------------ functions
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node = self._generator(node)
        declared = set()
        self.fstack.append(declared)
        saved, self.loop = self.loop, []
        params = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        if node.args.vararg:
            params.add(node.args.vararg.arg)
        if node.args.kwarg:
            params.add(node.args.kwarg.arg)
        c = NameCollector()
        for s in node.body:
            c.visit(s)
        self.bound.append((params | set(c.names)) - c.globals)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loop = saved
        self.fstack.pop()
        self.bound.pop()
        pre = sorted(declared - params - c.globals)
        if pre:
            decl = ast.If(test=ast.Constant(False),
                          body=[ast.Assign(targets=[ast.Name(n, ast.Store())], value=ast.Constant(None)) for n in pre],
                          orelse=[])
            pos = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body.insert(pos, decl)
        node.body = body
        return node

    def _generator(self, node):
        """generator functions are run eagerly: the values are collected in a sequence"""
        ys, plain = [], True

        def walk(n, top):
            nonlocal plain
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) and not top:
                return
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                ys.append(n)
                for c in ast.iter_child_nodes(n.value):
                    walk(c, False)
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(n, ast.Return) and n.value is not None:
                plain = plain and isinstance(n, ast.Return) and not ys
                other.append(n)
            for c in ast.iter_child_nodes(n):
                walk(c, False)
        other = []
        for s in node.body:
            walk(s, False)
        if not ys or other:
            return node

        class Rewrite(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

            def visit_Expr(self, n):
                if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                    name = "emit" if isinstance(n.value, ast.Yield) else "extend"
                    n.value = ast.Call(ast.Attribute(ast.Name("_vc_col", ast.Load()), name, ast.Load()), [n.value.value or ast.Constant(None)], [])
                return n

            def visit_Return(self, n):
                n.value = ast.Call(ast.Attribute(ast.Name("_vc_col", ast.Load()), "result", ast.Load()), [], [])
                return n
        body = [Rewrite().visit(s) for s in node.body]
        pos = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        body.insert(pos, ast.Assign([ast.Name("_vc_col", ast.Store())], ast.Call(ast.Name("_vc_collector", ast.Load()), [], [])))
        body.append(ast.Return(ast.Call(ast.Attribute(ast.Name("_vc_col", ast.Load()), "result", ast.Load()), [], [])))
        node.body = body
        return node

    def visit_Lambda(self, node):
        saved, self.loop = self.loop, []
        self.generic_visit(node)
        self.loop = saved
        return node

    def visit_ClassDef(self, node):
        saved_f, self.fstack = self.fstack, []
        saved, self.loop = self.loop, []
        self.generic_visit(node)
        self.fstack, self.loop = saved_f, saved
        return node

    # ------------------------------------------------ loops
    def visit_For(self, node):
        return self._loop(node, True)

    def visit_While(self, node):
        return self._loop(node, False)

    def _loop(self, node, is_for):
        c = NameCollector()
        if is_for:
            c.visit(node.target)
        for s in node.body:
            c.visit(s)
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                c.has["yield"] = True
        if not self.fstack or c.has["yield"] or c.globals & set(c.names):
            self.loop.append("native")
            self.generic_visit(node)
            self.loop.pop()
            return node
        self.count += 1
        k = self.count
        # the lists, that are modified by the loop
        untracked, modified = False, []
        for s in node.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear"):
                    x = n.func.value
                    if isinstance(x, ast.Name) and x.id in self.bound[-1]:
                        c.add(x.id)
                        modified.append(x.id)
                    else:
                        untracked = True
        names = [n for n in c.names if n not in c.globals]
        self.fstack[-1].update(names)
        if is_for:
            it = self.visit(node.iter)
        else:
            test = self.visit(node.test)
        self.loop.append("closure")
        body = []
        if is_for:
            body.append(ast.Assign(targets=[node.target], value=ast.Name(f"_vc_x{k}", ast.Load())))
        # a nested function has its own scope: loops in it must declare the names in this function
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loop.pop()
        orelse = []
        for s in node.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        nonlocal_ = [ast.Nonlocal(names=list(names))] if names else []
        arg = ast.arguments(posonlyargs=[], args=[ast.arg(f"_vc_x{k}")], kwonlyargs=[], kw_defaults=[], defaults=[])
        noarg = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        fbody = ast.FunctionDef(name=f"_vc_body{k}", args=arg, body=nonlocal_ + body + [ast.Return(ast.Constant(None))], decorator_list=[], type_params=[])
        get_src = f"def _vc_get{k}():\n    _vc_o = {{}}\n"
        for n in names:
            get_src += f"    try:\n        _vc_o[{n!r}] = {n}\n    except NameError:\n        pass\n"
        get_src += "    return _vc_o\n"
        set_src = f"def _vc_set{k}(_vc_o):\n"
        if names:
            set_src += f"    nonlocal {', '.join(names)}\n"
        for n in names:
            set_src += f"    if {n!r} in _vc_o:\n        {n} = _vc_o[{n!r}]\n"
        set_src += "    return None\n"
        # NOTE: a variable, that is unbound before the loop may remain bound to its last value
        fget = ast.parse(get_src).body[0]
        fset = ast.parse(set_src).body[0]
        load = lambda n: ast.Name(n, ast.Load())        # noqa: E731
        if is_for:
            call = ast.Call(load("_vc_for"), [it, load(f"_vc_body{k}"), load(f"_vc_get{k}"), load(f"_vc_set{k}")] + [ast.Constant(True if untracked else tuple(modified))], [])
            pre = []
        else:
            ftest = ast.FunctionDef(name=f"_vc_test{k}", args=noarg, body=[ast.Return(test)], decorator_list=[], type_params=[])
            call = ast.Call(load("_vc_while"), [load(f"_vc_test{k}"), load(f"_vc_body{k}"), load(f"_vc_get{k}"), load(f"_vc_set{k}")], [])
            pre = [ftest]
        out = pre + [fbody, fget, fset, ast.Assign(targets=[ast.Name(f"_vc_r{k}", ast.Store())], value=call)]
        if c.has["return"]:
            ret = ast.Return(load(f"_vc_r{k}") if self.loop and self.loop[-1] == "closure"
                             else ast.Attribute(load(f"_vc_r{k}"), "value", ast.Load()))
            out.append(ast.If(test=ast.Call(load("_vc_is_return"), [load(f"_vc_r{k}")], []), body=[ret], orelse=[]))
        if orelse:
            out.append(ast.If(test=ast.Call(load("_vc_not_broken"), [load(f"_vc_r{k}")], []), body=orelse, orelse=[]))
        return out

    def visit_Return(self, node):
        self.generic_visit(node)
        if "closure" in self.loop:
            # (a native loop inside of a closure returns from the closure, too)
            node.value = ast.Call(ast.Name("_vc_Ret", ast.Load()), [node.value or ast.Constant(None)], [])
        return node

    def visit_Break(self, node):
        if self.loop and self.loop[-1] == "closure":
            return ast.Return(ast.Name("_vc_BRK", ast.Load()))
        return node

    def visit_Continue(self, node):
        if self.loop and self.loop[-1] == "closure":
            return ast.Return(ast.Constant(None))
        return node

    # ------------------------------------------------ indexing
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.fstack or not isinstance(node.ctx, ast.Load):
            return node

        def key(k):
            if isinstance(k, ast.Slice):
                return ast.Call(ast.Name("_vc_slice", ast.Load()), [x or ast.Constant(None) for x in (k.lower, k.upper, k.step)], [])
            if isinstance(k, ast.Tuple):
                return ast.Tuple([e if isinstance(e, ast.Starred) else key(e) for e in k.elts], ast.Load())
            return k
        return ast.Call(ast.Name("_vc_item", ast.Load()), [node.value, key(node.slice)], [])

    # ------------------------------------------------ comprehensions
    def _comp(self, node, kind):
        self.generic_visit(node)
        if not self.fstack or any(g.is_async for g in node.generators):
            return node
        for n in ast.walk(node):
            if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                return node
        for g in node.generators[:-1]:
            if g.ifs or not isinstance(g.target, ast.Name):
                return node
        return self._nested(node.elt, node.generators, node, kind)

    def _nested(self, elt, generators, node, kind):
        if len(generators) > 1:
            inner = self._nested(elt, generators[1:], node, "gen")
            if inner is node:
                return node
            args = ast.arguments(posonlyargs=[], args=[ast.arg(generators[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Call(ast.Name("_vc_flat", ast.Load()), [ast.Constant(kind), ast.Lambda(args, inner), generators[0].iter], [])
        g = generators[0]
        t = g.target
        if isinstance(t, ast.Name):
            names, star = [t.id], False
        elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
            names, star = [e.id for e in t.elts], True
        else:
            return node
        if len(set(names)) != len(names):
            return node

        def lam(expr):
            args = ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])
            f = ast.Lambda(args, expr)
            if star:
                f = ast.Call(ast.Name("_vc_star", ast.Load()), [f], [])
            return f
        args = [ast.Constant(kind), lam(elt), g.iter]
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            args.append(lam(cond))
        return ast.Call(ast.Name("_vc_comp", ast.Load()), args, [])

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_AsyncFunctionDef(self, node):
        return node


def instrument(source, path):
    tree = ast.parse(source, path)
    tree = Transformer().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# ----------------------------------------------------------------- built-in functions

class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return v_isinstance(x, cls.vc_builtin)

    def __call__(cls, *a, **k):
        return cls.convert(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.vc_builtin

    def __hash__(cls):
        return hash(cls.vc_builtin)

    def __getattr__(cls, n):
        return getattr(type.__getattribute__(cls, "vc_builtin"), n)


class vint(metaclass=_TypeMeta):
    vc_builtin = int

    @staticmethod
    def convert(x=0, *a):
        if isinstance(x, core.Sym):
            if isinstance(x, core.SVal):
                raise Unsupported("int() of a sample")
            return core.trunc(x)
        if isinstance(x, arrays.SymArr):
            return vint.convert(x.item())
        return int(x, *a)


class vfloat(metaclass=_TypeMeta):
    vc_builtin = float

    @staticmethod
    def convert(x=0.0):
        if isinstance(x, core.SVal):
            return x
        if isinstance(x, core.Sym):
            if isinstance(x, core.SCplx):
                raise TypeError("can't convert complex to float")
            return core.SReal(core.zreal(x))
        if isinstance(x, arrays.SymArr):
            return vfloat.convert(x.item())
        return float(x)


class vcomplex(metaclass=_TypeMeta):
    vc_builtin = complex

    @staticmethod
    def convert(*a):
        if any(isinstance(x, core.Sym) for x in a):
            if len(a) == 1:
                return a[0] if isinstance(a[0], core.SVal) else core.tocplx(a[0])
            return core.SCplx(core.zreal(a[0]), core.zreal(a[1]))
        return complex(*a)


class vbool(metaclass=_TypeMeta):
    vc_builtin = bool

    @staticmethod
    def convert(x=False):
        if isinstance(x, core.SBool):
            return x
        if isinstance(x, core._Num):
            return core.mkbool(core.zbool(x))
        return bool(x)


class vtuple(metaclass=_TypeMeta):
    vc_builtin = tuple

    @staticmethod
    def convert(x=()):
        if hasattr(x, "vc_seq"):
            x = x.vc_seq()
        if isinstance(x, seqs.FilteredSeq):
            return x
        if seqs.is_symbolic(x):
            s = seqs.as_seq(x)
            return seqs.Seq(s.length, s.get, "tuple")
        return tuple(x)


class vlist(metaclass=_TypeMeta):
    vc_builtin = list

    @staticmethod
    def convert(x=()):
        if hasattr(x, "vc_seq"):
            x = x.vc_seq()
        if isinstance(x, seqs.FilteredSeq):
            return x
        if seqs.is_symbolic(x):
            s = seqs.as_seq(x)
            return seqs.Seq(s.length, s.get, "list")
        return list(x)


class vstr(metaclass=_TypeMeta):
    vc_builtin = str

    @staticmethod
    def convert(x="", *a, **k):
        return str(x, *a, **k)


def v_isinstance(x, t):
    if isinstance(t, tuple):
        return any(v_isinstance(x, i) for i in t)
    t = t.__dict__.get("vc_builtin", t) if isinstance(t, type) else t
    if isinstance(t, npshim.DTypeFunc):
        if isinstance(x, core.Sym):
            return False
        return isinstance(x, t.real_type)
    if t is int:
        return isinstance(x, (int, core.SInt, core.SBool))
    if t is float:
        return isinstance(x, (float, core.SReal))
    if t is complex:
        return isinstance(x, (complex, core.SCplx))
    if t is bool:
        return isinstance(x, (bool, core.SBool))
    if t is str:
        return isinstance(x, (str, core.SLabel))
    if t is tuple:
        return isinstance(x, tuple) or (isinstance(x, seqs.Seq) and x.kind == "tuple")
    if t is list:
        return isinstance(x, list) or (isinstance(x, seqs.Seq) and x.kind == "list")
    import collections.abc
    if t in (collections.abc.Iterable, collections.abc.Sequence, collections.abc.Sized, collections.abc.Collection) and isinstance(x, seqs.Seq):
        return True
    if t is collections.abc.Hashable and isinstance(x, core.Sym):
        return True
    import numbers
    if isinstance(x, core.Sym) and t in (numbers.Number, numbers.Complex, numbers.Real, numbers.Integral, numbers.Rational):
        if t in (numbers.Integral, numbers.Rational):
            return isinstance(x, (core.SInt, core.SBool))
        if t is numbers.Real:
            return isinstance(x, (core.SInt, core.SBool, core.SReal))
        return isinstance(x, core._Num)
    return isinstance(x, t)


def v_issubclass(c, t):
    m = lambda q: q.__dict__.get("vc_builtin", q) if isinstance(q, type) else q      # noqa: E731
    return issubclass(m(c), tuple(m(i) for i in t) if isinstance(t, tuple) else m(t))


def v_len(x):
    if hasattr(x, "vlen"):
        return x.vlen()
    if type(x).__module__.startswith("sumpf") or type(x).__module__.startswith("contracts"):
        f = getattr(type(x), "__len__", None)
        if f is None:
            raise TypeError(f"object of type '{type(x).__name__}' has no len()")
        return f(x)
    return len(x)


def _flat(args):
    if len(args) == 1:
        x = args[0]
        if hasattr(x, "vc_seq"):
            x = x.vc_seq()
        if seqs.is_symbolic(x):
            raise Unsupported("min/max of a symbolic sequence")
        return tuple(x)
    return args


def v_min(*args, **k):
    if "key" in k:
        return min(*args, **k)
    xs = _flat(args)
    if not any(isinstance(x, core.Sym) for x in xs):
        return min(xs, **k) if len(args) == 1 else min(*xs, **k)
    return core.minmax(False, *xs)


def v_max(*args, **k):
    if "key" in k:
        return max(*args, **k)
    xs = _flat(args)
    if not any(isinstance(x, core.Sym) for x in xs):
        return max(xs, **k) if len(args) == 1 else max(*xs, **k)
    return core.minmax(True, *xs)


def v_sum(xs, start=0):
    if hasattr(xs, "vc_seq"):
        xs = xs.vc_seq()
    if seqs.is_symbolic(xs):
        raise Unsupported("sum of a symbolic sequence")
    r = start
    for x in xs:
        r = r + x
    return r


def v_any(xs):
    if isinstance(xs, arrays.SymArr) and xs.ndim == 1:
        return xs.any()
    if hasattr(xs, "vc_seq"):
        xs = xs.vc_seq()
    if seqs.is_symbolic(xs):
        return _exists(seqs.as_seq(xs))
    return any(xs)


def v_all(xs):
    if isinstance(xs, arrays.SymArr) and xs.ndim == 1:
        return xs.all()
    if hasattr(xs, "vc_seq"):
        xs = xs.vc_seq()
    if seqs.is_symbolic(xs):
        s = seqs.as_seq(xs)
        return not _exists(seqs.Seq(s.length, lambda i: core.bnot(_tobool(s.get(i)))))
    return all(xs)


def _tobool(x):
    if isinstance(x, (bool, core.SBool)):
        return x
    if isinstance(x, core.Sym):
        return core.mkbool(core.zbool(x))
    return bool(x)


def _exists(s):
    """is there an element, that is true? forks: in the positive case, an index is a witness"""
    E = core.E
    iz = E.fresh("w", core.IntS)
    rng = z3.And(iz >= 0, iz < core.zint(s.length))
    if E.choose(2) == 0:
        E.assume(rng)
        v = s.get(core.SInt(iz))
        if not bool(_tobool(v)):
            raise core.Infeasible()
        return True
    # none of them: the fact is available to the contracts as a quantified assumption
    def run():
        E.assume(rng)
        return _tobool(s.get(core.SInt(iz)))
    for guards, qf, (kind, val), _ in E.subexplore(run):
        if kind != "ok":
            continue
        guards = [g for g in guards if not z3.simplify(g).eq(z3.simplify(rng))]
        j = E.fresh("j", core.IntS)
        body = z3.Implies(z3.And(rng, *guards), z3.Not(core.zbool(val)))
        E.assume_q(z3.ForAll([j], z3.substitute(body, (iz, j))))
    E.notes = getattr(E, "notes", [])
    return False


def v_round(x, n=None):
    if isinstance(x, core.Sym):
        if n is not None:
            raise Unsupported("round")
        return core.rnd(x)
    return round(x) if n is None else round(x, n)


def v_abs(x):
    return abs(x)


def v_pow(a, b, *c):
    return pow(a, b, *c)


def v_divmod(a, b):
    return a // b, a % b


def v_sorted(xs, key=None, reverse=False):
    if hasattr(xs, "vc_seq"):
        xs = xs.vc_seq()
    if seqs.is_symbolic(xs):
        s = seqs.as_seq(xs)
        if key is not None or reverse:
            raise Unsupported("sorted of a symbolic sequence")
        npshim.ascending(lambda i: s.get(i[0]), s.length)       # otherwise, the order is not known
        return seqs.Seq(s.length, s.get, "list")
    return sorted(xs, key=key, reverse=reverse)


def v_hash(x):
    if isinstance(x, tuple) and any(isinstance(i, arrays.SymArr) for i in x):
        raise TypeError("unhashable type: 'numpy.ndarray'")
    if npshim.contains_sym(x) or isinstance(x, tuple) and any(isinstance(i, SymHash) for i in x):
        return SymHash.of(x)
    return hash(x)


class SymHash:
    """the hash of a value: an unknown function of that value"""
    __hash__ = None

    def __init__(self, value):
        self.value = value

    @staticmethod
    def of(x):
        return SymHash(x)


def v_iter(x, *a):
    return iter(x, *a)


def v_map(f, *its):
    its = [i.vc_seq() if hasattr(i, "vc_seq") else i for i in its]
    if any(seqs.is_symbolic(i) for i in its):
        z = seqs.vzip(*its)
        return seqs.Seq(z.length, lambda i: f(*z.get(i)))
    return map(f, *its)


def v_star(f):
    def g(t):
        if isinstance(t, seqs.Seq):
            t = tuple(t)
        return f(*t)
    return g


def v_item(x, key):
    """x[key], where the key may be symbolic, while x is a built-in sequence"""
    if type(x) in (tuple, list) and (isinstance(key, core.Sym) or isinstance(key, slice) and npshim.contains_sym(key)):
        s = seqs.as_seq(x)
        s.kind = "tuple" if isinstance(x, tuple) else "list"
        return s[key]
    return x[key]


BUILTINS = dict(vars(builtins))
BUILTINS.update({
    "len": v_len, "range": seqs.vrange, "zip": seqs.vzip, "enumerate": seqs.venumerate, "reversed": seqs.vreversed,
    "isinstance": v_isinstance, "issubclass": v_issubclass, "min": v_min, "max": v_max, "sum": v_sum, "any": v_any,
    "all": v_all, "round": v_round, "int": vint, "float": vfloat, "complex": vcomplex, "bool": vbool, "tuple": vtuple,
    "list": vlist, "str": vstr, "sorted": v_sorted, "divmod": v_divmod, "map": v_map, "hash": v_hash,
    "open": fakefiles.v_open,
    "_vc_for": loops.vc_for, "_vc_while": loops.vc_while, "_vc_comp": seqs.comp, "_vc_flat": seqs.flat, "_vc_collector": seqs.Collector, "_vc_star": v_star, "_vc_item": v_item, "_vc_slice": slice,
    "_vc_Ret": loops.Ret, "_vc_BRK": loops.BRK, "_vc_is_return": lambda r: isinstance(r, loops.Ret),
    "_vc_not_broken": lambda r: r is not loops.BRK,
})

SHIMS = {"json": fakefiles.JsonShim(), "pickle": fakefiles.PickleShim(), "numpy": npshim.numpy_shim, "math": npshim.math_shim, "numexpr": npshim.numexpr_shim, "multiprocessing": npshim.MultiprocessingShim(),
         "multiprocessing.sharedctypes": npshim.MultiprocessingShim.sharedctypes,
         "scipy": windows.SCIPY_MODULE, "scipy.signal": windows.SIGNAL, "scipy.signal.windows": windows.WINDOWS}


def v_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        if "." in name and not fromlist:
            return SHIMS[name.split(".")[0]]
        return SHIMS[name]
    if level == 0 and name.split(".")[0] in SHIMS:
        builtins.__import__(name, globals, locals, fromlist, level)
        return SHIMS[name.split(".")[0]] if not fromlist or name.split(".")[0] != "scipy" else builtins.__import__(name, globals, locals, fromlist, level)
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS["__import__"] = v_import

NATIVE_MODULES = ("sumpf._internal._persistence",)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return compile(instrument(data, path), path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        if module.__name__ not in SHIMS:
            module.__dict__["__builtins__"] = BUILTINS
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] != "sumpf":
            return None
        rel = fullname.replace(".", "/")
        for cand, pkg in ((os.path.join(ROOT, rel, "__init__.py"), True), (os.path.join(ROOT, rel + ".py"), False)):
            if os.path.isfile(cand):
                return importlib.util.spec_from_file_location(
                    fullname, cand, loader=Loader(fullname, cand),
                    submodule_search_locations=[os.path.dirname(cand)] if pkg else None)
        return None


def install():
    """from now on, ``import sumpf`` loads the instrumented code"""
    for m in list(sys.modules):
        if m.split(".")[0] == "sumpf":
            raise RuntimeError("sumpf is already imported")
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
    import sumpf
    return sumpf
