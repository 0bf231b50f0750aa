"""The trusted contracts of NumPy (and math), as far as the code under proof uses them."""
import builtins
import math as _math
import numpy as _np
import z3
from . import core, seqs, arrays, sums, fakefiles
from .core import (SInt, SReal, SVal, SCplx, Unsupported, zint, zreal, mkint, mkreal, mkbool, ite, band, bor, vop, is_intlike, is_reallike)
from .arrays import (SymArr, Masked, Buf, as_array, fresh_array, uninit, normal_shape, asdtype, ufunc, elementwise, B1, F8, C16, I8)


def contains_sym(x, depth=0):
    if isinstance(x, (core.Sym, SymArr, Masked, seqs.Seq, seqs.FilteredSeq)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return builtins.any(contains_sym(i, depth + 1) for i in x)
    if isinstance(x, dict) and depth < 4:
        return builtins.any(contains_sym(i, depth + 1) for i in x.values())
    if isinstance(x, slice):
        return contains_sym((x.start, x.stop, x.step))
    if hasattr(x, "vc_seq"):
        return True
    return False


def concrete(x):
    """numbers and sequences of numbers"""
    if isinstance(x, (list, tuple)):
        return builtins.all(concrete(i) for i in x)
    return isinstance(x, (int, float, complex)) and not isinstance(x, bool)


class UFunc:
    def __init__(self, name, real):
        self.vc_name = name
        self.real_func = real
        self.__name__ = name
        self.nin = getattr(real, "nin", 1)

    def __call__(self, *args, out=None, **kw):
        if core.E is None:
            return self.real_func(*args, out=out, **kw)
        if out is None and not kw and core.E.real_mode and builtins.any(isinstance(a, (complex, list, tuple)) for a in args) and builtins.all(concrete(a) for a in args):
            return self.real_func(*args)
        return ufunc(self.vc_name, *args, out=out, **kw)

    def reduce(self, *a, **k):
        raise Unsupported("ufunc.reduce")

    def outer(self, *a, **k):
        raise Unsupported("ufunc.outer")

    def __repr__(self):
        return f"<ufunc {self.__name__}>"


UFUNCS = ["add", "subtract", "multiply", "true_divide", "divide", "mod", "remainder", "power", "negative", "absolute",
          "fabs", "conjugate", "conj", "exp", "sqrt", "square", "log", "log2", "log10", "sin", "cos", "tan", "sinh",
          "cosh", "arcsin", "arcsinh", "arccos", "maximum", "minimum", "reciprocal", "sign", "rint", "expm1", "log1p", "exp2"]
CMPS = {"not_equal": "!=", "equal": "==", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}


class Cmp:
    def __init__(self, name, op):
        self.name, self.op = name, op

    def __call__(self, a, b, out=None, **kw):
        if core.E is None:
            return getattr(_np, self.name)(a, b, out=out, **kw)
        if isinstance(a, (SymArr, Masked)) or isinstance(b, (SymArr, Masked)) or contains_sym((a, b)):
            return arrays.compare(self.op, as_array(a), b)
        return getattr(_np, self.name)(a, b)


def empty(shape, dtype="float64", order=None):
    return uninit(normal_shape(shape), asdtype(dtype or "float64"))


def _full(shape, value, dtype):
    shape = normal_shape(shape)
    v = as_array(value)
    if v.ndim:
        get = arrays.broadcast_to(v, shape)
        return fresh_array(shape, get, asdtype(dtype) if dtype is not None else v.dtype)
    c = v.at(())
    return fresh_array(shape, lambda idx: c, asdtype(dtype) if dtype is not None else v.dtype)


def zeros(shape, dtype="float64", order=None):
    return _full(shape, 0.0 if asdtype(dtype or "float64").kind in "fc" else 0, dtype or "float64")


def ones(shape, dtype="float64", order=None):
    return _full(shape, 1.0 if asdtype(dtype or "float64").kind in "fc" else 1, dtype or "float64")


def full(shape, fill_value, dtype=None, order=None):
    return _full(shape, fill_value, dtype)


def empty_like(a, dtype=None, **k):
    a = as_array(a)
    return uninit(a.shape, asdtype(dtype) if dtype is not None else a.dtype)


def zeros_like(a, dtype=None, **k):
    a = as_array(a)
    return zeros(a.shape, dtype if dtype is not None else a.dtype)


def ones_like(a, dtype=None, **k):
    a = as_array(a)
    return ones(a.shape, dtype if dtype is not None else a.dtype)


def full_like(a, v, dtype=None, **k):
    a = as_array(a)
    return _full(a.shape, v, dtype if dtype is not None else a.dtype)


def array(x, dtype=None, copy=True, **k):
    return arrays.array(x, dtype)


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArr) and (dtype is None or asdtype(dtype) == x.dtype):
        return x
    return arrays.array(x, dtype)


def shape(x):
    if isinstance(x, (SymArr,)):
        return x.shape
    return as_array(x).shape


def arange(*args, dtype=None):
    r = None
    if builtins.all(is_intlike(a) for a in args):
        r = seqs.vrange(*args)
        if isinstance(r, builtins.range):
            s = seqs.as_seq(tuple(r))
            return fresh_array((s.length,), lambda idx: r[idx[0]] if isinstance(idx[0], int) else r.start + idx[0] * r.step, asdtype(dtype or "int64"))
        return fresh_array((r.length,), lambda idx: r.get(idx[0]), asdtype(dtype or "int64"))
    if len(args) == 1:
        args = (0, args[0])
    start, stop = args[0], args[1]
    step = args[2] if len(args) > 2 else 1
    n = core.minmax(True, core.ceil(core._arith("/", core._arith("-", stop, start), step)), 0)
    return fresh_array((n,), lambda idx: core._arith("+", start, core._arith("*", idx[0], step)), asdtype(dtype or "float64"))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not is_intlike(num):
        raise TypeError("linspace: num must be an integer")
    if isinstance(num, int):
        if num < 0:
            raise ValueError("Number of samples must be non-negative.")
    elif core.E.decide(zint(num) < 0):
        raise ValueError("Number of samples must be non-negative.")
    div = (num - 1) if endpoint else num
    if isinstance(start, (SymArr,)) or isinstance(stop, SymArr):
        raise Unsupported("linspace of arrays")
    dt = arrays.result_dtype(arrays.scalar_dtype(start), arrays.scalar_dtype(stop), F8)
    if isinstance(start, SVal) or isinstance(stop, SVal):
        raise Unsupported("linspace of samples")
    delta = core._arith("-", stop, start)
    single = bool(div <= 0) if isinstance(div, int) else core.E.decide(zint(div) <= 0)

    def get(idx):
        if single:
            return core._arith("*", start, 1.0)
        step = core._arith("/", delta, core._arith("*", div, 1.0))
        return core._arith("+", start, core._arith("*", step, idx[0]))
    r = fresh_array((num,), get, asdtype(dtype) if dtype is not None else dt)
    if retstep:
        return r, core._arith("/", delta, div)
    return r


def np_sum(x, axis=None, dtype=None, out=None, **k):
    x = as_array(x)
    if axis is None:
        if x.ndim == 1:
            return _reduce(x, lambda i: x.snapshot()((i,)), x.shape[0])
        if builtins.all(isinstance(s, int) for s in x.shape):
            import itertools
            r = 0.0
            snap = x.snapshot()
            for i in itertools.product(*(builtins.range(s) for s in x.shape)):
                r = r + snap(i)
            return r
        if x.ndim == 2:
            snap = x.snapshot()
            return _reduce(x, lambda c: _reduce(x, lambda i: snap((c, i)), x.shape[1]), x.shape[0])
        raise Unsupported("sum of all elements")
    if not isinstance(axis, int):
        raise Unsupported("sum axis")
    axis %= x.ndim
    snap, n = x.snapshot(), x.shape[axis]
    shp = x.shape[:axis] + x.shape[axis + 1:]
    if not shp:
        return _reduce(x, lambda i: snap((i,)), n)
    return fresh_array(shp, lambda idx: _reduce(x, lambda i: snap(tuple(idx[:axis]) + (i,) + tuple(idx[axis:])), n), x.dtype)


def _reduce(x, get, n):
    E = core.E
    if isinstance(n, int) and n <= 16:
        r = 0.0 if x.dtype.kind in "fc" else 0
        for i in builtins.range(n):
            r = r + get(i)
        return r
    kz = E.fresh("s", core.IntS)
    t = get(SInt(kz))
    if is_reallike(t):
        r = SReal(sums.rfold(z3.RealVal(0), n, kz, zreal(t)))
        return r
    return SVal(sums.fold("add", core.num(0), n, kz, core.toval(t).z))


def total(x, axis):
    """the number of the elements, that are reduced"""
    if axis is None:
        n = 1
        for q in x.shape:
            n = n * q
        return n
    return x.shape[axis]


def squared(v):
    """the square of the absolute value of a number"""
    if isinstance(v, (core.SCplx, complex)):
        return v.real * v.real + v.imag * v.imag
    return core._arith("*", v, v)


def norm(x, ord=None, axis=None, keepdims=False):       # noqa: A002
    """the square root of the sum of the squared elements"""
    if ord is not None or keepdims or not core.E.real_mode:
        raise Unsupported("norm")
    x = as_array(x)
    s = x.snapshot()
    square = fresh_array(x.shape, lambda idx: squared(s(idx)), F8)
    r = np_sum(square, axis=axis)
    return ufunc("sqrt", r)


def mean(x, axis=None, dtype=None, out=None, keepdims=False):
    """the sum, divided by the number of elements"""
    if dtype is not None or out is not None or keepdims or not core.E.real_mode:
        raise Unsupported("mean")
    x = as_array(x)
    return ufunc("true_divide", np_sum(x, axis=axis), total(x, axis))


def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    """the sum of the squared deviations from the mean, divided by the number of elements minus ddof"""
    if dtype is not None or out is not None or keepdims or not core.E.real_mode:
        raise Unsupported("variance")
    x = as_array(x)
    if x.ndim == 2 and axis not in (None, 1, -1):
        raise Unsupported("variance of an axis")
    s, m = x.snapshot(), mean(x, axis)
    if axis is None or x.ndim == 1:
        get = lambda idx: squared(core._arith("-", s(idx), m))                               # noqa: E731
    else:
        ms = m.snapshot()
        get = lambda idx: squared(core._arith("-", s(idx), ms((idx[0],))))                   # noqa: E731
    return ufunc("true_divide", np_sum(fresh_array(x.shape, get, F8), axis=axis), core._arith("-", total(x, axis), ddof))


def std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return ufunc("sqrt", var(x, axis, dtype, out, ddof, keepdims))


def cumsum(x, axis=None, dtype=None, out=None):
    """the sums of the elements up to an index"""
    x = as_array(x)
    if dtype is not None or axis is None or not core.E.real_mode:
        raise Unsupported("cumsum")
    axis %= x.ndim
    s = x.snapshot()

    def get(idx):
        return _reduce(x, lambda i: s(tuple(idx[:axis]) + (i,) + tuple(idx[axis + 1:])), core._arith("+", idx[axis], 1))
    r = fresh_array(x.shape, get, x.dtype)
    if out is None:
        return r
    out[...] = r
    return out


def fromiter(iterable, dtype=float, count=-1):
    if count != -1:
        raise Unsupported("fromiter with a count")
    q = seqs.as_seq(iterable)
    return fresh_array((q.vlen(),), lambda idx: q.at(idx[0]), asdtype(dtype))


class LinAlg:
    """the shim for ``numpy.linalg``"""
    norm = staticmethod(lambda *a, **k: _np.linalg.norm(*a, **k) if core.E is None else norm(*a, **k))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing("linalg." + n)


def np_prod(x, axis=None, **k):
    if isinstance(x, (tuple, list)):
        r = 1
        for i in x:
            r = r * i
        return r
    x = as_array(x)
    if x.ndim == 1 and isinstance(x.shape[0], int):
        r = 1 if x.dtype.kind == "i" else 1.0
        for i in builtins.range(x.shape[0]):
            r = r * x.at((i,))
        return r
    if axis == 0 and isinstance(x.shape[0], int):
        r = x.sub(0)
        for i in builtins.range(1, x.shape[0]):
            r = r * x.sub(i)
        return r
    raise Unsupported("prod")


def extremum(which, x, axis=None):
    x = as_array(x)
    if x.ndim == 1 and axis in (None, 0, -1) and isinstance(x.shape[0], int):
        if x.shape[0] == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return core.minmax(which == "max", *[x.at((i,)) for i in builtins.range(x.shape[0])])
    if x.ndim == 1 and axis in (None, 0, -1):
        E = core.E
        n = x.shape[0]
        if E.decide(core.zint(n) <= 0):
            raise ValueError("zero-size array to reduction operation which has no identity")
        if x.ordered():
            return x.at((0,)) if which == "min" else x.at((n - 1,))
        get = x.snapshot()
        w, j = E.freshint("extremum"), E.freshint("j")
        E.axiom(z3.And(w.z >= 0, w.z < core.zint(n)))
        v, o = get((w,)), get((j,))
        if not (core.is_reallike(v) and core.is_reallike(o)):
            raise Unsupported(f"numpy.{which}")
        e = core.zreal(v) <= core.zreal(o) if which == "min" else core.zreal(v) >= core.zreal(o)
        E.assume_q(z3.ForAll([j.z], z3.Implies(z3.And(j.z >= 0, j.z < core.zint(n)), e)))
        return v
    raise Unsupported(f"numpy.{which}")


def _fresh_index(name, key):
    core.E.counter += 1
    return z3.Function(f"{name}!{core.E.counter}", *([k for k in key]), core.IntS)


def ascending(get, n):
    """precondition of the search in an array: its elements are strictly increasing"""
    E = core.E
    i, j = E.freshint("i"), E.freshint("j")
    x, y = get((i,)), get((j,))
    if not (core.is_reallike(x) and core.is_reallike(y)) or not E.entails(z3.Implies(z3.And(i.z >= 0, i.z < j.z, j.z < core.zint(n)), core.zreal(x) < core.zreal(y))):
        raise Unsupported("a search in an array, that is not known to be sorted")


def searchsorted(a, v, side="left", sorter=None):
    """for an array in ascending order: the number of elements, that are smaller than (side "left") v"""
    E = core.E
    a = as_array(a)
    if a.ndim != 1 or sorter is not None or side not in ("left", "right"):
        raise Unsupported("searchsorted")
    n, get, f, known = a.shape[0], a.snapshot(), _fresh_index("position", [core.RealS]), {}
    ascending(get, n)

    def at(x):
        if not core.is_reallike(x):
            raise Unsupported("searchsorted")
        x = z3.simplify(core.zreal(x))
        r = f(x)
        if x.get_id() not in known:
            known[x.get_id()] = x
            lo, hi = core.zreal(get((core.SInt(r - 1),))), core.zreal(get((core.SInt(r),)))
            E.axiom(z3.And(r >= 0, r <= core.zint(n)))
            E.axiom(z3.Implies(r > 0, lo < x if side == "left" else lo <= x))
            E.axiom(z3.Implies(r < core.zint(n), x <= hi if side == "left" else x < hi))
        return core.SInt(r)
    E.theory(f, lambda x: at(core.SReal(x)))
    return elementwise(at, (v,), I8)


def interp(x, xp, fp, left=None, right=None, period=None):
    """linear interpolation between strictly increasing points, constant outside of them"""
    E = core.E
    xp, fp = as_array(xp), as_array(fp)
    if xp.ndim != 1 or fp.ndim != 1 or left is not None or right is not None or period is not None:
        raise Unsupported("interp")
    n = xp.shape[0]
    if not arrays.dims_eq(n, fp.shape[0]):
        raise ValueError("fp and xp are not of the same length.")
    if E.decide(core.zint(n) <= 0):
        raise ValueError("array of sample points is empty")
    xs, ys, f, known = xp.snapshot(), fp.snapshot(), _fresh_index("interval", [core.RealS]), {}
    ascending(xs, n)

    def at(v):
        if not core.is_reallike(v):
            raise Unsupported("interp")
        z = z3.simplify(core.zreal(v))
        j = core.SInt(f(z))
        first, last = core.zreal(xs((0,))), core.zreal(xs((n - 1,)))
        x0, x1 = core.zreal(xs((j,))), core.zreal(xs((j + 1,)))
        if z.get_id() not in known:
            known[z.get_id()] = z
            E.axiom(z3.Implies(z3.And(first < z, z < last), z3.And(j.z >= 0, j.z < core.zint(n) - 1, x0 <= z, z < x1)))

        def inside():
            t = core.SReal(core._quot(z - x0, x1 - x0))
            y0, y1 = ys((j,)), ys((j + 1,))
            return core._arith("+", y0, core._arith("*", t, core._arith("-", y1, y0)))
        return core.ite(mkbool(z <= first), lambda: ys((0,)), lambda: core.ite(mkbool(z >= last), lambda: ys((n - 1,)), inside))
    E.theory(f, lambda x: at(core.SReal(x)))
    return elementwise(at, (x,), fp.dtype if fp.dtype.kind == "c" else F8)


def finite(answer):
    def f(x):
        """all numbers are finite: the code under proof computes with mathematical numbers"""
        if not core.E.real_mode:
            raise Unsupported("floating point classification")
        return elementwise(lambda v: answer, (x,), B1)
    return f


def np_max(x, axis=None, **k):
    return extremum("max", x, axis)


def np_min(x, axis=None, **k):
    return extremum("min", x, axis)


def transpose(x, axes=None):
    return as_array(x).transpose(*([axes] if axes is not None else []))


def reshape(x, shp, order=None, newshape=None):
    return as_array(x).reshape(shp)


def np_any(x, axis=None, **k):
    return as_array(x).any(axis)


def np_all(x, axis=None, **k):
    return as_array(x).all(axis)


def array_equal(a, b, **k):
    a, b = as_array(a), as_array(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not arrays.dims_eq(x, y):
            return False
    return (a == b).all()


def real(x):
    return ufunc("real", x)


def imag(x):
    return ufunc("imag", x)


def angle(x, deg=False):
    return ufunc("angle", x)


def concatenate(xs, axis=0, **k):
    xs = [as_array(x) for x in xs]
    a = axis % xs[0].ndim
    for x in xs[1:]:
        for j in builtins.range(x.ndim):
            if j != a and not arrays.dims_eq(x.shape[j], xs[0].shape[j]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    snaps = [x.snapshot() for x in xs]
    starts = [0]
    for x in xs:
        starts.append(starts[-1] + x.shape[a])
    shp = xs[0].shape[:a] + (starts[-1],) + xs[0].shape[a + 1:]

    def get(idx):
        def pick(j):
            i = idx[a]
            here = lambda: snaps[j](tuple(idx[:a]) + (i - starts[j],) + tuple(idx[a + 1:]))    # noqa: E731
            if j == len(xs) - 1:
                return here()
            return ite(i < starts[j + 1], here, lambda: pick(j + 1))
        return pick(0)
    return fresh_array(shp, get, arrays.result_dtype(*(x.dtype for x in xs)))


def stack(xs, axis=0, **k):
    if axis != 0:
        raise Unsupported("stack axis")
    return arrays.array([as_array(x) for x in xs])


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where")
    a, b = as_array(a), as_array(b)
    dt = arrays.result_dtype(a.dtype, b.dtype)
    return elementwise(lambda c_, x, y: ite(c_ if isinstance(c_, bool) else mkbool(core.zbool(c_)), lambda: x, lambda: y), (c, a, b), dt)


def clip(x, a_min=None, a_max=None, out=None, **k):
    def f(v, *b):
        b = list(b)
        if a_min is not None:
            v = core.minmax(True, v, b.pop(0))
        if a_max is not None:
            v = core.minmax(False, v, b.pop(0))
        return v
    args = [x] + [b for b in (a_min, a_max) if b is not None]
    return elementwise(f, args, as_array(x).dtype, out)


def flip(x, axis=None):
    x = as_array(x)
    if axis is None and x.ndim == 1:
        axis = 0
    if axis is None:
        return x[tuple(slice(None, None, -1) for _ in x.shape)]
    return x[tuple(slice(None, None, -1) if j == axis % x.ndim else slice(None) for j in builtins.range(x.ndim))]


def roll(x, shift, axis=None):
    x = as_array(x)
    if axis is None and x.ndim != 1:
        raise Unsupported("roll")
    a = 0 if axis is None else axis % x.ndim
    snap, n = x.snapshot(), x.shape[a]

    def get(idx):
        return snap(tuple(idx[:a]) + ((idx[a] - shift) % n,) + tuple(idx[a + 1:]))
    return fresh_array(x.shape, get, x.dtype)


def tile(x, reps):
    x = as_array(x)
    if isinstance(reps, tuple) and len(reps) == 2 and x.ndim in (1, 2):
        if x.ndim == 1:
            x = x.reshape((1, x.shape[0]))
        r, c = x.shape
        snap = x.snapshot()
        shp = (r * reps[0], c * reps[1])

        def get(idx):
            i = 0 if isinstance(r, int) and r == 1 else (idx[0] if isinstance(reps[0], int) and reps[0] == 1 else idx[0] % r)
            j = idx[1] if isinstance(reps[1], int) and reps[1] == 1 else idx[1] % c
            return snap((i, j))
        return fresh_array(shp, get, x.dtype)
    raise Unsupported("tile")


def np_broadcast_to(x, shp, subok=False):
    x = as_array(x)
    shp = normal_shape(shp)
    return fresh_array(shp, arrays.broadcast_to(x, shp), x.dtype)


def repeat(x, n, axis=None):
    x = as_array(x)
    if axis == 0 and isinstance(x.shape[0], int) and x.shape[0] == 1:
        snap = x.snapshot()
        return fresh_array((n,) + x.shape[1:], lambda idx: snap((0,) + tuple(idx[1:])), x.dtype)
    raise Unsupported("repeat")


def outer(a, b):
    a, b = as_array(a), as_array(b)
    sa, sb = a.snapshot(), b.snapshot()
    return fresh_array((a.shape[0], b.shape[0]), lambda idx: vop("multiply", sa(idx[:1]), sb(idx[1:])), arrays.result_dtype(a.dtype, b.dtype))


def dot(a, b):
    raise Unsupported("dot")


def result_type(*args):
    return arrays.result_dtype(*(a.dtype if isinstance(a, (SymArr, Masked)) else (arrays.scalar_dtype(a) if isinstance(a, (core.Sym, bool, int, float, complex)) else asdtype(a)) for a in args))


def count_nonzero(x, axis=None, **k):
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    x = as_array(x)
    if x.ndim != 1 or not isinstance(x.shape[0], int):
        raise Unsupported("count_nonzero")
    r = 0
    for i in builtins.range(x.shape[0]):
        v = x.at((i,))
        r = r + ite(v if isinstance(v, bool) else mkbool(core.zbool(v)), 1, 0)
    return r


def nonzero(x):
    return as_array(x).nonzero()


def polyval(p, x):
    """Horner's scheme"""
    p, x = as_array(p), as_array(x)
    if not isinstance(p.shape[0], int):
        raise Unsupported("polyval of a symbolic length")
    cs = [p.at((i,)) for i in builtins.range(p.shape[0])]

    def f(v):
        y = 0.0
        for c in cs:
            y = vop("add", vop("multiply", y, v), c)
        return y
    return elementwise(f, (x,), arrays.result_dtype(p.dtype, x.dtype))


def _polyalign(a, b):
    a, b = as_array(a), as_array(b)
    if a.ndim == 0:
        a = a.reshape((1,))
    if b.ndim == 0:
        b = b.reshape((1,))
    if not isinstance(a.shape[0], int) or not isinstance(b.shape[0], int):
        raise Unsupported("polynomial of a symbolic length")
    n = builtins.max(a.shape[0], b.shape[0])
    out = []
    for x in (a, b):
        if x.shape[0] < n:
            x = concatenate((zeros((n - x.shape[0],), x.dtype), x))
        out.append(x)
    return out


def polyadd(a, b):
    return ufunc("add", *_polyalign(a, b))


def polysub(a, b):
    return ufunc("subtract", *_polyalign(a, b))


def ndim(x):
    return as_array(x).ndim


def size(x):
    return as_array(x).size


def pad(x, width, mode="constant", constant_values=0, **k):
    if mode != "constant":
        raise Unsupported("pad mode")
    x = as_array(x)
    if is_intlike(width):
        width = [(width, width)] * x.ndim
    elif isinstance(width, (tuple, list)) and len(width) == 2 and is_intlike(width[0]):
        width = [tuple(width)] * x.ndim
    elif len(width) == 1 and x.ndim > 1:
        width = [tuple(width[0])] * x.ndim
    for a, b in width:
        arrays.check_shape((a, b))
    snap = x.snapshot()
    shp = tuple(a + n + b for n, (a, b) in zip(x.shape, width))

    def get(idx):
        c = band(*(band(i >= a, i < a + n) for i, n, (a, b) in zip(idx, x.shape, width)))
        return ite(c, lambda: snap(tuple(i - a for i, (a, b) in zip(idx, width))), lambda: constant_values)
    return fresh_array(shp, get, x.dtype)


# ----------------------------------------------------------------- Fourier transform and convolution

W = z3.Function("dft_weight", core.IntS, core.IntS, core.IntS, core.V)       # exp(-2j*pi*k*t/n)
IW = z3.Function("idft_weight", core.IntS, core.IntS, core.IntS, core.V)
RW = [z3.Function("dft_weight." + p, core.IntS, core.IntS, core.IntS, core.RealS) for p in ("re", "im")]
RIW = [z3.Function("idft_weight." + p, core.IntS, core.IntS, core.IntS, core.RealS) for p in ("re", "im")]


def rdft(n, k, f):
    """the bin k of the discrete Fourier transform of the real numbers f(0), ..., f(n-1)"""
    t = core.E.fresh("t", core.IntS)
    x = core.zreal(f(SInt(t)))
    return core.SCplx(*(sums.rfold(z3.RealVal(0), n, t, x * w(zint(n), zint(k), t)) for w in RW))


def rirdft(n, t, f):
    """the sample t of the inverse transform of the complex numbers f(0), ..., f(n//2)"""
    k = core.E.fresh("t", core.IntS)
    x = core.tocplx(f(SInt(k)))
    return core.SReal(sums.rfold(z3.RealVal(0), n // 2 + 1, k, x.re * RIW[0](zint(n), k, zint(t)) - x.im * RIW[1](zint(n), k, zint(t))))


def ext(get, n):
    """zero extension of a finite sequence to all integers"""
    def f(i):
        return ite(band(i >= 0, i < n), lambda: get(i), lambda: 0.0)
    return f


def rfft(x, n=None, axis=-1, norm=None):
    x = as_array(x)
    if axis not in (-1, x.ndim - 1) or norm is not None:
        raise Unsupported("rfft arguments")
    N = x.shape[-1]
    snap = x.snapshot()
    if n is not None:
        m = n
        if not (zint(m).eq(zint(N)) or core.E.entails(zint(m) == zint(N))):
            s0, N0 = snap, N
            snap = lambda idx: ext(lambda i: s0(tuple(idx[:-1]) + (i,)), N0)(idx[-1])       # noqa: E731
        N = m
    if core.E.decide(zint(N) < 1) if not isinstance(N, int) else N < 1:
        raise ValueError(f"Invalid number of FFT data points ({N}) specified.")
    if x.dtype.kind == "c":
        raise TypeError("ufunc 'rfft_n_even' did not contain a loop")
    out = N // 2 + 1

    def get(idx):
        if core.E.real_mode:
            return rdft(N, idx[-1], lambda i: snap(tuple(idx[:-1]) + (i,)))
        kz = core.E.fresh("t", core.IntS)
        term = vop("multiply", snap(tuple(idx[:-1]) + (SInt(kz),)), SVal(W(zint(N), zint(idx[-1]), kz)))
        return SVal(sums.fold("add", core.num(0), N, kz, term.z))
    r = fresh_array(x.shape[:-1] + (out,), get, C16, "rfft")
    r.tag = ("spectrum", [(snap, N, False, x.ndim)])
    core.E.transforms.append(r)
    return r


def known_transform(x):
    """the tag of a Fourier transform, which is provably equal to x"""
    E = core.E
    for r in E.transforms:
        if r.tag is None or r.ndim != x.ndim or not builtins.all(E.entails(zint(p) == zint(q)) for p, q in zip(r.shape, x.shape)):
            continue
        idx = tuple(SInt(E.fresh("f", core.IntS)) for _ in x.shape)
        rng = [z3.And(i.z >= 0, i.z < zint(n)) for i, n in zip(idx, x.shape)]

        def run():
            for c in rng:
                E.assume(c)
            return core.veq(x.at(idx), r.at(idx))
        ok = True
        for guards, qf, (kind, val), bufs in E.subexplore(run):
            if kind == "raise" or not ok:
                ok = False
                continue
            g = z3.Implies(z3.And(*rng, *guards), core.zbool(val))
            ok = E._prove(g, [])[0] == "proved"
        if ok:
            return r.tag
    return None


def tagged(name, args):
    """products and conjugates of the spectrums of known sequences"""
    tags = [getattr(a, "tag", None) for a in args]
    if builtins.any(t is None for t in tags):
        return None
    if name == "multiply" and builtins.all(len(t[1]) == 1 for t in tags):
        return ("spectrum", tags[0][1] + tags[1][1])
    if name == "conjugate" and len(tags[0][1]) == 1:
        s, n, c, d = tags[0][1][0]
        return ("spectrum", [(s, n, not c, d)])
    return None


def irfft(x, n=None, axis=-1, norm=None):
    x0 = x
    x = as_array(x)
    if axis not in (-1, x.ndim - 1) or norm is not None:
        raise Unsupported("irfft arguments")
    if n is None:
        n = 2 * (x.shape[-1] - 1)
    if core.E.decide(zint(n) < 1) if not isinstance(n, int) else n < 1:
        raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
    tag = getattr(x0, "tag", None) or known_transform(x)
    shp = x.shape[:-1] + (n,)
    if tag is not None and builtins.all(core.E.entails(zint(N) == zint(n)) for _, N, _, _ in tag[1]):
        fs = tag[1]
        if len(fs) == 1 and not fs[0][2]:
            s, N, _, nd = fs[0]
            return fresh_array(shp, lambda idx: s(tuple(idx)), F8, "irfft")
        if len(fs) == 2 and not (fs[0][2] and fs[1][2]):
            if not builtins.any(n.eq(zint(fs[0][1])) for n in core.E.moduli):
                core.E.moduli.append(zint(fs[0][1]))

            def get(idx):
                # circular convolution (or correlation for a conjugated factor)
                kz = core.E.fresh("c", core.IntS)
                k = SInt(kz)
                t = idx[-1]
                vals = []
                (sa, N, ca, nda), (sb, _, cb, ndb) = fs
                lead = tuple(idx[:-1])

                def row(s, nd, i):
                    return s(lead[len(lead) - (nd - 1):] + (i,) if nd > 1 else (i,))
                if not ca and not cb:
                    # sum over k of a(k) * b((t-k) mod N), 0 <= k < N
                    i = t - k
                    j = mkint(z3.If(zint(i) < 0, zint(i + n), zint(i)))
                    body = vop("multiply", row(sa, nda, k), row(sb, ndb, j))
                else:
                    if cb:
                        (sa, nda), (sb, ndb) = (sb, ndb), (sa, nda)
                    # sum over k of a(k) * b((t+k) mod N)
                    i = t + k
                    j = mkint(z3.If(zint(i) >= zint(n), zint(i - n), zint(i)))
                    body = vop("multiply", row(sa, nda, k), row(sb, ndb, j))
                g = z3.And(kz >= 0, kz < zint(n))
                return SVal(sums.bisum(kz, z3.If(g, core.toval(body).z, core.num(0))))
            return fresh_array(shp, get, F8, "irfft")
    snap, m = x.snapshot(), x.shape[-1]
    if core.E.entails(zint(n) // 2 + 1 == zint(m)) if False else True:
        def get2(idx):
            if core.E.real_mode:
                return rirdft(n, idx[-1], ext(lambda i: snap(tuple(idx[:-1]) + (i,)), m))
            kz = core.E.fresh("t", core.IntS)
            v = ext(lambda i: snap(tuple(idx[:-1]) + (i,)), m)(SInt(kz))
            term = vop("multiply", v, SVal(IW(zint(n), kz, zint(idx[-1]))))
            return SVal(sums.fold("add", core.num(0), n // 2 + 1, kz, core.toval(term).z))
        return fresh_array(shp, get2, F8, "irfft")


def rfftfreq(n, d=1.0):
    """the frequencies of the bins: k / (n * d)"""
    if not is_intlike(n):
        raise ValueError("n should be an integer")
    unit = core._arith("*", n, core._arith("*", d, 1.0))
    return fresh_array((n // 2 + 1,), lambda idx: core._arith("/", idx[0], unit), F8)


class FFT:
    rfftfreq = staticmethod(lambda n, d=1.0: rfftfreq(n, d) if core.E is not None else _np.fft.rfftfreq(n, d))
    rfft = staticmethod(lambda *a, **k: rfft(*a, **k) if core.E is not None else _np.fft.rfft(*a, **k))
    irfft = staticmethod(lambda *a, **k: irfft(*a, **k) if core.E is not None else _np.fft.irfft(*a, **k))

    def __getattr__(self, n):
        return Missing("fft." + n)


def conv_term(sa, la, sb, lb, n):
    """sum over all k of a(k) * b(n - k), with zeros outside of the sequences"""
    kz = core.E.fresh("c", core.IntS)
    k = SInt(kz)
    i = n - k
    c = band(k >= 0, k < la, i >= 0, i < lb)
    body = ite(c, lambda: vop("multiply", sa(k), sb(i)), lambda: 0.0)
    return SVal(sums.bisum(kz, core.toval(body).z))


def corr_term(sa, la, sv, lv, shift):
    """sum over all k of a(k + shift) * v(k), with zeros outside of the sequences"""
    kz = core.E.fresh("c", core.IntS)
    k = SInt(kz)
    i = k + shift
    c = band(k >= 0, k < lv, i >= 0, i < la)
    body = ite(c, lambda: vop("multiply", sa(i), sv(k)), lambda: 0.0)
    return SVal(sums.bisum(kz, core.toval(body).z))


def _vec(x):
    x = as_array(x)
    if x.ndim != 1:
        raise ValueError("object too deep for desired array")
    s = x.snapshot()
    return (lambda i: s((i,))), x.shape[0], x.dtype


def _nonempty(*ls):
    for n in ls:
        if (n == 0) if isinstance(n, int) else core.E.decide(zint(n) == 0):
            raise ValueError("cannot be empty")


def convolve(a, v, mode="full"):
    sa, la, da = _vec(a)
    sb, lb, db = _vec(v)
    _nonempty(la, lb)
    lo, hi = core.minmax(False, la, lb), core.minmax(True, la, lb)
    if mode == "full":
        n, off = la + lb - 1, 0
    elif mode == "same":
        n, off = hi, (lo - 1) // 2
    elif mode == "valid":
        n, off = hi - lo + 1, lo - 1
    else:
        raise ValueError("mode")
    return fresh_array((n,), lambda idx: conv_term(sa, la, sb, lb, idx[0] + off), arrays.result_dtype(da, db))


def correlate(a, v, mode="valid"):
    sa, la, da = _vec(a)
    sb, lb, db = _vec(v)
    if db.kind == "c":
        raise Unsupported("complex correlation")
    _nonempty(la, lb)
    lo, hi = core.minmax(False, la, lb), core.minmax(True, la, lb)
    if mode == "full":
        n, off = la + lb - 1, 1 - lb
    elif mode == "valid":
        n = hi - lo + 1
        off = core.minmax(False, 0, la - lb)
    else:
        raise Unsupported("correlation mode")
    return fresh_array((n,), lambda idx: corr_term(sa, la, sb, lb, idx[0] + off), arrays.result_dtype(da, db))


# ----------------------------------------------------------------- the module object

class Missing:
    def __init__(self, name):
        self.vc_missing = name

    def __call__(self, *a, **k):
        f = _np
        for p in self.vc_missing.split("."):
            f = getattr(f, p)
        if core.E is None or not contains_sym((a, k)):
            return f(*real_args(a), **real_kwargs(k))
        raise Unsupported("numpy." + self.vc_missing)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self.vc_missing + "." + n)


class NDArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArr, _np.ndarray))


class ndarray(metaclass=NDArrayMeta):
    pass


class DTypeFunc:
    """numpy.float64 and its relatives"""

    def __init__(self, dt, real_type):
        self.dt, self.real_type = dt, real_type
        self.__name__ = dt.name
        self.name = dt.name
        self.kind = dt.kind
        self.itemsize = dt.itemsize

    def __call__(self, x=0):
        if contains_sym(x):
            return self.dt(x)
        return self.real_type(x)

    @property
    def dtype(self):
        return self.real_type(0).dtype

    def __eq__(self, o):
        try:
            return asdtype(o).name == self.name
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.name)


class NP:
    """the shim, that the instrumented code sees as ``numpy``"""
    newaxis = None
    pi, e, inf, nan, euler_gamma = _np.pi, _np.e, _np.inf, _np.nan, _np.euler_gamma
    ndarray = ndarray
    fft = FFT()
    linalg = LinAlg()
    __name__ = "numpy"

    def __init__(self):
        for n in UFUNCS:
            setattr(self, n, UFunc(n, getattr(_np, n)))
        self.abs = self.absolute
        for n, op in CMPS.items():
            setattr(self, n, Cmp(n, op))
        for n in ("float64", "complex128", "int64", "float32", "complex64", "longdouble", "clongdouble", "int32", "int16", "int8"):
            setattr(self, n, DTypeFunc(getattr(arrays, {"float64": "F8", "complex128": "C16", "int64": "I8", "float32": "F4", "complex64": "C8", "longdouble": "F16", "clongdouble": "C32", "int32": "I4", "int16": "I2", "int8": "I1"}[n]), getattr(_np, n)))
        self.bool_ = DTypeFunc(arrays.B1, _np.bool_)
        self.bool = self.bool_
        self.integer, self.floating, self.number, self.generic = _np.integer, _np.floating, _np.number, _np.generic
        g = globals()
        for n, f in {"empty": empty, "zeros": zeros, "ones": ones, "full": full, "array": array, "asarray": asarray,
                     "empty_like": empty_like, "zeros_like": zeros_like, "ones_like": ones_like, "full_like": full_like,
                     "asanyarray": asarray, "ascontiguousarray": asarray, "shape": shape, "arange": arange,
                     "linspace": linspace, "sum": np_sum, "mean": mean, "var": var, "std": std, "cumsum": cumsum, "fromiter": fromiter, "prod": np_prod, "max": np_max, "min": np_min,
                     "amax": np_max, "amin": np_min, "transpose": transpose, "reshape": reshape, "any": np_any,
                     "all": np_all, "array_equal": array_equal, "real": real, "imag": imag, "angle": angle,
                     "concatenate": concatenate, "stack": stack, "vstack": None, "where": where, "clip": clip,
                     "flip": flip, "roll": roll, "tile": tile, "broadcast_to": np_broadcast_to, "repeat": repeat,
                     "outer": outer, "result_type": result_type, "count_nonzero": count_nonzero, "nonzero": nonzero, "polyval": polyval, "polyadd": polyadd, "polysub": polysub, "ndim": ndim, "size": size, "pad": pad, "convolve": convolve, "frombuffer": frombuffer,
                     "correlate": correlate, "interp": interp, "searchsorted": searchsorted,
                     "save": fakefiles.save, "savez": fakefiles.savez, "savez_compressed": fakefiles.savez, "load": fakefiles.load,
                     "isinf": finite(False), "isnan": finite(False), "isfinite": finite(True)}.items():
            if f is not None:
                setattr(self, n, self._wrap(n, f))

    @staticmethod
    def _wrap(name, f):
        def g(*a, **k):
            if core.E is None:
                return getattr(_np, name)(*real_args(a), **real_kwargs(k))
            return f(*a, **k)
        g.__name__ = name
        return g

    @staticmethod
    def dtype(d):
        if core.E is None:
            return _np.dtype(real_arg(d))
        return asdtype(d)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if not hasattr(_np, n):
            raise AttributeError(f"module 'numpy' has no attribute '{n}'")
        return Missing(n)


def real_arg(d):
    if isinstance(d, DTypeFunc):
        return d.real_type
    if isinstance(d, arrays.DType):
        return d.name
    if getattr(type(d), "__name__", "") == "_TypeMeta":
        return d.vc_builtin
    return d


def real_args(a):
    return tuple(real_arg(x) for x in a)


def real_kwargs(k):
    return {n: real_arg(v) for n, v in k.items()}


# ----------------------------------------------------------------- shared memory

class RawMemory:
    """zero-filled memory for a number of C doubles"""

    def __init__(self, ctype, size):
        import ctypes
        self.itemsize = ctypes.sizeof(ctype)
        self.size = size


def frombuffer(buffer, dtype="float64", count=-1, offset=0):
    if not isinstance(buffer, RawMemory):
        raise Unsupported("frombuffer")
    dt = asdtype(dtype)
    nbytes = buffer.size * buffer.itemsize
    n = core.floordiv(nbytes, dt.itemsize)
    if isinstance(nbytes, int):
        if nbytes % dt.itemsize:
            raise ValueError("buffer size must be a multiple of element size")
    elif core.E.decide(zint(nbytes) % dt.itemsize != 0):
        raise ValueError("buffer size must be a multiple of element size")
    if (nbytes == 0) if isinstance(nbytes, int) else False:
        pass
    zero = 0 if dt.kind in "iu" else (False if dt.kind == "b" else 0.0)
    return fresh_array((n,), lambda b: zero, dt, "shared")


class SharedCTypesShim:
    __name__ = "multiprocessing.sharedctypes"

    @staticmethod
    def RawArray(ctype, size):
        if core.E is None:
            from multiprocessing import sharedctypes
            return sharedctypes.RawArray(ctype, size)
        if not is_intlike(size):
            raise Unsupported("RawArray with an initialiser")
        if (size < 0) if isinstance(size, int) else core.E.decide(zint(size) < 0):
            raise ValueError("Array length must be >= 0")
        return RawMemory(ctype, size)

    def __getattr__(self, n):
        from multiprocessing import sharedctypes
        return getattr(sharedctypes, n)


class MultiprocessingShim:
    sharedctypes = SharedCTypesShim()
    __name__ = "multiprocessing"

    def __getattr__(self, n):
        import multiprocessing
        return getattr(multiprocessing, n)


class MathShim:
    """the shim for ``math``"""
    pi, e, inf, nan, tau = _math.pi, _math.e, _math.inf, _math.nan, _math.tau
    __name__ = "math"

    @staticmethod
    def ceil(x):
        return core.ceil(x) if contains_sym(x) else _math.ceil(x)

    @staticmethod
    def floor(x):
        return core.floor(x) if contains_sym(x) else _math.floor(x)

    @staticmethod
    def trunc(x):
        return core.trunc(x) if contains_sym(x) else _math.trunc(x)

    @staticmethod
    def fsum(x):
        if contains_sym(x) or core.E is not None:
            x = as_array(x) if not isinstance(x, SymArr) else x
            return _reduce(x, lambda i, s=x.snapshot(): s((i,)), x.shape[0])
        return _math.fsum(x)

    @staticmethod
    def fabs(x):
        return abs(x) if contains_sym(x) else _math.fabs(x)

    @staticmethod
    def pow(a, b):
        return a ** b if contains_sym((a, b)) else _math.pow(a, b)

    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f
        alias = {"asinh": "arcsinh", "asin": "arcsin", "acos": "arccos"}.get(n, n)

        def g(*a):
            if not contains_sym(a):
                return f(*a)
            if len(a) == 1 and isinstance(a[0], SVal):
                return vop(alias, a[0])
            if len(a) == 1 and is_reallike(a[0]):
                r = core.scalar_op(alias, a[0])
                if r is not None:
                    return r
            raise Unsupported("math." + n)
        return g


class NumExprShim:
    """the shim for ``numexpr``: an expression has got the value, that it has in Python with NumPy's functions"""
    __name__ = "numexpr"
    __version__ = "2"

    @staticmethod
    def evaluate(ex, local_dict=None, global_dict=None, out=None, order="K", casting="safe", **kwargs):
        import sys
        frame = sys._getframe(1)
        scope = {**frame.f_globals, **frame.f_locals} if local_dict is None else {**(global_dict or {}), **local_dict}
        if core.E is None:
            import numexpr
            return numexpr.evaluate(ex, local_dict=scope, out=out, order=order, casting=casting, **kwargs)
        names = compile(ex, "<numexpr>", "eval").co_names
        functions = {"arcsinh", "arcsin", "arccos", "sin", "cos", "tan", "exp", "expm1", "log", "log10", "sqrt", "abs", "sinh", "cosh"}
        env = {}
        for n in names:
            if n in functions:
                env[n] = getattr(numpy_shim, n)
            elif n in scope:
                env[n] = scope[n]
            else:
                raise KeyError(n)
        r = eval(ex, {"__builtins__": {}}, env)     # pylint: disable=eval-used
        if out is None:
            return r
        out[...] = r
        return out

    def __getattr__(self, n):
        import numexpr
        return getattr(numexpr, n)


numexpr_shim = NumExprShim()
numpy_shim = NP()
math_shim = MathShim()
