"""Symbolic arrays: buffers of unbounded symbolic shape, views, and element-wise operations.

The operations implement the documented semantics of NumPy (these are the trusted
contracts of the external library, cross-checked against the real NumPy by the
witnesses of every explored path)."""
import builtins
import itertools
import math
import z3
from . import core, seqs
from .core import (Unsupported, SInt, SReal, SVal, zint, mkint, mkbool, ite, band, bor, bnot, vop, is_intlike, toval)
from .seqs import smart_ite, slice_indices, normal_index

_ids = itertools.count()


class DType:
    def __init__(self, name, kind, itemsize):
        self.name, self.kind, self.itemsize = name, kind, itemsize

    def __eq__(self, o):
        return asdtype(o).name == self.name if o is not None else False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __call__(self, x=0):
        if isinstance(x, SymArr):
            return x.astype(self)
        if self.kind == "f":
            return x if isinstance(x, (SReal, SVal)) else (float(x) if not isinstance(x, core.Sym) else SReal(core.zreal(x)))
        return x

    def __repr__(self):
        return self.name

    @property
    def type(self):
        return self


F8, C16, I8, B1, F4, C8, O8, F16, C32 = (DType(*a) for a in (
    ("float64", "f", 8), ("complex128", "c", 16), ("int64", "i", 8), ("bool", "b", 1), ("float32", "f", 4),
    ("complex64", "c", 8), ("object", "O", 8), ("longdouble", "f", 16), ("clongdouble", "c", 32)))
I4, I2, I1 = DType("int32", "i", 4), DType("int16", "i", 2), DType("int8", "i", 1)
_DT = {"float": F8, "int": I8, "bool": B1, "complex": C16}
_DT.update({d.name: d for d in (F8, C16, I8, B1, F4, C8, O8, F16, C32, I4, I2, I1)})


def asdtype(d):
    if isinstance(d, DType):
        return d
    if isinstance(d, str) and d in _DT:
        return _DT[d]
    for t, r in ((float, F8), (int, I8), (bool, B1), (complex, C16), (object, O8)):
        if d is t or getattr(d, "vc_builtin", None) is t:
            return r
    if hasattr(d, "name") and d.name in _DT:
        return _DT[d.name]
    if getattr(d, "__name__", None) in _DT:
        return _DT[d.__name__]
    raise Unsupported(f"dtype {d}")


def result_dtype(*ds):
    kinds = "biufcO"
    best = None
    for d in ds:
        if best is None or kinds.index(d.kind) > kinds.index(best.kind):
            best = d
        elif d.kind == best.kind and d.itemsize > best.itemsize:
            best = d
    if best.kind == "c" and best.itemsize < 16 and any(d.itemsize >= 8 and d.kind in "fiu" for d in ds):
        best = C16
    if best.kind == "f" and best.itemsize < 8 and any(d.kind == "i" and d.itemsize >= 4 for d in ds):
        best = F8
    return best


def scalar_dtype(x, other=None):
    if isinstance(x, (bool, core.SBool)):
        return B1
    if is_intlike(x):
        return I8
    if isinstance(x, (complex, core.SCplx)):
        return C16
    if isinstance(x, SVal):
        return F8
    if hasattr(x, "dtype") and not isinstance(x, core.Sym):
        return asdtype(x.dtype.name)
    return F8


class Buf:
    """the memory of an array"""

    def __init__(self, shape, elem, dtype, owner="fresh", name="buf"):
        self.shape = tuple(shape)
        self.elem = elem
        self.dtype = dtype
        self.owner = owner
        self.name = name
        self.id = next(_ids)
        self.version = 0
        self.writes = []
        if core.E is not None:
            core.E.buffers.append(self)

    __hash__ = object.__hash__


class Fixed:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Axis:
    __slots__ = ("axis", "start", "step")

    def __init__(self, axis, start, step):
        self.axis, self.start, self.step = axis, start, step


def dims_eq(a, b):
    """decides whether two dimensions are equal (forks if undetermined)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return core.E.decide(zint(a) == zint(b))


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


class SymArr:
    """a view of a buffer"""
    __hash__ = None
    __array_priority__ = 1000
    _tag = None

    @property
    def tag(self):
        """what is known about the content as a Fourier transform, unless the array has been written to since"""
        return self._tag[0] if self._tag is not None and self._tag[1] == self.buf.version else None

    @tag.setter
    def tag(self, value):
        self._tag = (value, self.buf.version)

    def __getattr__(self, n):
        if n.startswith("__") or n in ("vc_builtin", "vlen_", "name", "z"):
            raise AttributeError(n)
        import numpy
        if hasattr(numpy.ndarray, n):
            raise Unsupported(f"ndarray.{n}")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{n}'")

    def __init__(self, buf, shape=None, dims=None):
        self.buf = buf
        self.shape = tuple(buf.shape if shape is None else shape)
        self.dims = tuple(Axis(i, 0, 1) for i in range(len(buf.shape))) if dims is None else tuple(dims)

    # ------------------------------------------------------ attributes
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.ravel().vc_seq()

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def vlen(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __len__(self):
        n = self.vlen()
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic array outside of the instrumented code")

    def vc_symbolic(self):
        return not isinstance(self.shape[0], int)

    def vc_seq(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        return seqs.Seq(self.shape[0], lambda i: self.sub(i))

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        n = seqs.concrete_int(self.shape[0])
        return (self.sub(i) for i in range(n))

    def __bool__(self):
        if self.ndim == 0 or all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(self.at((0,) * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def ordered(self):
        """whether this is a strictly increasing array as a whole"""
        return self.ndim == 1 and getattr(self.buf, "index_of", None) is not None and self.buf.version == 0 and \
            isinstance(self.dims[0], Axis) and isinstance(self.dims[0].start, int) and self.dims[0].start == 0 and \
            isinstance(self.dims[0].step, int) and self.dims[0].step == 1 and self.shape[0] is self.buf.shape[0]

    def position(self, x):
        """(condition, index): whether and where a strictly increasing array contains a number"""
        i = self.buf.index_of(x)
        return band(i >= 0, i < self.shape[0], self.at((i,)) == x), i

    def __contains__(self, x):
        if self.ordered() and core.is_reallike(x):
            return bool(self.position(x)[0])
        if self.ndim != 1:
            raise Unsupported("membership in an array")
        return bool(quantify(compare("==", self, x), False))

    # ------------------------------------------------------ element access
    def bufidx(self, idx):
        out = []
        for d in self.dims:
            if isinstance(d, Fixed):
                out.append(d.e)
            else:
                out.append(d.start + idx[d.axis] * d.step)
        return tuple(out)

    def at(self, idx):
        """the element with the given index, which is known to be in range"""
        return self.buf.elem(self.bufidx(tuple(idx)))

    def snapshot(self):
        """the current content as a function, not affected by later writes"""
        elem = self.buf.elem
        return lambda idx: elem(self.bufidx(tuple(idx)))

    def sub(self, i):
        """self[i] for an index in range"""
        if self.ndim == 1:
            return self.at((i,))
        return self._index_first(i)

    def _index_first(self, i):
        dims = []
        for d in self.dims:
            if isinstance(d, Fixed):
                dims.append(d)
            elif d.axis == 0:
                dims.append(Fixed(d.start + i * d.step))
            else:
                dims.append(Axis(d.axis - 1, d.start, d.step))
        return SymArr(self.buf, self.shape[1:], dims)

    def view(self, key):
        """a view for basic indexing; returns (shape, dims)"""
        if not isinstance(key, tuple):
            key = (key,)
        n_real = builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            key = key[:p] + (slice(None),) * (self.ndim - n_real) + key[p + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - n_real)
        if builtins.sum(1 for k in key if k is not None) > self.ndim:
            raise IndexError("too many indices for array")
        shape = []
        amap = {}       # old axis -> (new axis, start, step) or Fixed
        old = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[old]
            if isinstance(k, slice):
                start, step, length = slice_indices(k, n)
                amap[old] = (len(shape), start, step)
                shape.append(length)
            elif is_intlike(k):
                amap[old] = Fixed(normal_index(k, n))
            elif isinstance(k, (list, SymArr, seqs.Seq)):
                raise Unsupported("fancy indexing")
            else:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            old += 1
        dims = []
        for d in self.dims:
            if isinstance(d, Fixed):
                dims.append(d)
                continue
            m = amap[d.axis]
            if isinstance(m, Fixed):
                dims.append(Fixed(d.start + m.e * d.step))
            else:
                dims.append(Axis(m[0], d.start + m[1] * d.step, d.step * m[2]))
        return SymArr(self.buf, shape, dims)

    def __getitem__(self, key):
        if isinstance(key, Masked):
            key = key.compact()
        origin = lazy(self)
        if origin is not None and isinstance(key, int):
            return origin[key]
        if isinstance(key, SymArr):
            if key.dtype.kind == "b":
                m = Masked(self, key)
                return m.compact() if core.E.real_mode else m
            return self.take(key)
        if isinstance(key, tuple) and any(isinstance(k, (SymArr, list)) for k in key):
            return self.fancy(key)
        if isinstance(key, list):
            return self.take(array(key))
        v = self.view(key)
        if v.ndim == 0:
            return v.at(())
        return v

    def take(self, key):
        snap, ks = self.snapshot(), key.snapshot()
        n = self.shape[0]
        if key.ndim != 1:
            raise Unsupported("fancy indexing")
        in_range(ks, key.shape, n)
        return fresh_array(tuple(key.shape) + self.shape[1:],
                           lambda idx: snap((wrap_index(ks((idx[0],)), n),) + tuple(idx[1:])), self.dtype)

    def fancy(self, key):
        raise Unsupported("fancy indexing")

    def __setitem__(self, key, value):
        if isinstance(key, Masked):
            key = key.compact()
        if isinstance(key, MaskIndex):
            return self.set_masked(key.mask, value)
        if isinstance(key, SymArr) and key.dtype.kind == "b":
            return self.set_masked(key, value)
        if isinstance(key, (SymArr, list)) or (isinstance(key, tuple) and any(isinstance(k, (SymArr, list)) for k in key)):
            raise Unsupported("fancy indexing")
        self.view(key).assign(value)

    def set_masked(self, mask, value):
        if mask.ndim != self.ndim:
            raise Unsupported("boolean mask of another dimension")
        for a, b in zip(mask.shape, self.shape):
            if not dims_eq(a, b):
                raise IndexError("boolean index did not match indexed array")
        ms = mask.snapshot()
        old = self.snapshot()
        origin = lazy(value)
        if origin is not None and origin.same_mask(mask):
            value = origin
        if isinstance(value, Masked):
            # a[mask] = f(b[mask]): element-wise, when both masks are equal
            if not value.same_mask(mask):
                raise Unsupported("assignment with different masks")
            vs = value.snapshot()
        else:
            v = as_array(value)
            if v.ndim == 1:
                m, c, r = compaction(mask, ms)
                if not dims_eq(v.shape[0], m):
                    if not dims_eq(v.shape[0], 1):
                        raise ValueError("NumPy boolean array indexing assignment: wrong number of values")
                    r = lambda *i: 0     # noqa: E731
                get = v.snapshot()
                self.write(lambda idx: ite(ms(idx), lambda: get((r(*idx),)), lambda: old(idx)), v.dtype)
                return
            if v.ndim != 0:
                raise Unsupported("masked assignment of an array")
            c = v.at(())
            vs = lambda idx: c      # noqa: E731
        dt = self.dtype
        self.write(lambda idx: ite(ms(idx), lambda: cast(vs(idx), dt), lambda: old(idx)))

    # ------------------------------------------------------ writing
    def assign(self, value):
        """self[...] = value with broadcasting"""
        if isinstance(value, Masked):
            raise Unsupported("assignment of a masked array")
        value = as_array(value)
        get = broadcast_to(value, self.shape, "could not broadcast input array into shape", strip=True)
        self.write(get, value.dtype)

    def write(self, get, dtype=None):
        """replaces the elements of this view with get(view index)"""
        buf = self.buf
        dt = buf.dtype
        dims, shape = self.dims, self.shape
        old = buf.elem
        if dtype is not None and dtype.kind == "c" and dt.kind == "f":
            g0 = get
            get = lambda idx: vop("real", g0(idx))      # noqa: E731   (NumPy discards the imaginary part)
        elif dtype is not None and dt.kind == "i" and dtype.kind == "f":
            g1 = get
            get = lambda idx: core.trunc(g1(idx))       # noqa: E731

        def elem(b, cache={}):
            k = tuple(x if isinstance(x, int) else x.z.get_id() for x in b)
            if k in cache:
                return cache[k][1]
            conds = []
            idx = [0] * len(shape)
            for d, x in zip(dims, b):
                if isinstance(d, Fixed):
                    conds.append(x == d.e)
                    continue
                r = x - d.start
                if d.step == 1:
                    i = r
                elif d.step == -1:
                    i = -r
                elif isinstance(d.step, int):
                    s = abs(d.step)
                    q = r if d.step > 0 else -r
                    conds.append((q % s) == 0)
                    i = q // s
                else:
                    raise Unsupported("symbolic stride")
                conds.append(i >= 0)
                conds.append(i < shape[d.axis])
                idx[d.axis] = i
            c = band(*conds)
            if not isinstance(c, bool) and core.E.lookahead:
                if core.E.entails(c.z):
                    c = True
                elif core.E.entails(z3.Not(c.z)):
                    c = False
            r = ite(c, lambda: get(tuple(idx)), lambda: old(b))
            cache[k] = (b, r)       # keeps b alive, so that the ids remain unique
            return r

        buf.writes.append((dims, shape))
        buf.version += 1
        buf.elem = (lambda cache: (lambda b: elem(b, cache)))({})

    # ------------------------------------------------------ shape manipulation
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        if len(axes) != self.ndim:
            raise ValueError("axes don't match array")
        inv = {o: n for n, o in enumerate(axes)}
        dims = [d if isinstance(d, Fixed) else Axis(inv[d.axis], d.start, d.step) for d in self.dims]
        return SymArr(self.buf, [self.shape[a] for a in axes], dims)

    def swapaxes(self, a, b):
        axes = list(range(self.ndim))
        axes[a], axes[b] = axes[b], axes[a]
        return self.transpose(axes)

    def copy(self, order=None):
        return fresh_array(self.shape, self.snapshot(), self.dtype)

    def astype(self, dtype, copy=True):
        d = asdtype(dtype)
        s = self.snapshot()
        if d.kind == "i" and self.dtype.kind == "f":
            return fresh_array(self.shape, lambda idx: core.trunc(s(idx)), d)
        if d.kind == "f" and self.dtype.kind == "c":
            return fresh_array(self.shape, lambda idx: vop("real", s(idx)), d)
        return fresh_array(self.shape, s, d)

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, seqs.Seq)):
            shape = tuple(shape[0])
        shape = list(shape)
        if any(isinstance(s, int) and s == -1 for s in shape):
            p = [isinstance(s, int) and s == -1 for s in shape].index(True)
            rest = prod(shape[:p] + shape[p + 1:])
            if isinstance(rest, int) and rest == 1:
                shape[p] = self.size
            elif len(shape) == 2 and self.ndim == 2 and dims_eq(rest, self.shape[1 - p]):
                shape[p] = self.shape[p]
            else:
                shape[p] = self.size // rest
        if not dims_eq(prod(shape), self.size):
            raise ValueError("cannot reshape array")
        if len(shape) == self.ndim and all(core.E.entails(zint(a) == zint(b)) for a, b in zip(shape, self.shape)):
            return self
        # views, that only add or remove dimensions of length one
        core_new = [s for s in shape if not (isinstance(s, int) and s == 1)]
        core_old = [(i, s) for i, s in enumerate(self.shape) if not (isinstance(s, int) and s == 1)]
        if len(core_new) == len(core_old) and all(core.E.entails(zint(a) == zint(b[1])) for a, b in zip(core_new, core_old)):
            amap = {}
            it = iter(core_old)
            for n, s in enumerate(shape):
                if not (isinstance(s, int) and s == 1):
                    amap[next(it)[0]] = n
            dims = []
            for d in self.dims:
                if isinstance(d, Fixed):
                    dims.append(d)
                elif d.axis in amap:
                    dims.append(Axis(amap[d.axis], d.start, d.step))
                else:
                    dims.append(Fixed(d.start))
            return SymArr(self.buf, shape, dims)
        snap, old = self.snapshot(), self.shape

        def get(idx):
            flat = 0
            for i, s in zip(idx, shape):
                flat = flat * s + i
            out = []
            for s in reversed(old[1:]):
                out.append(flat % s)
                flat = flat // s
            out.append(flat)
            return snap(tuple(reversed(out)))
        return fresh_array(shape, get, self.dtype)

    def ravel(self, order=None):
        if self.ndim == 1:
            return self
        return self.reshape((self.size,))

    flatten = ravel

    def nonzero(self):
        return MaskIndex(self if self.dtype.kind == "b" else compare("!=", self, 0))

    def squeeze(self):
        raise Unsupported("squeeze")

    def tolist(self):
        if not self.shape:
            return self.at(())
        snap = self.snapshot()

        def nested(prefix):
            n = len(prefix)
            get = lambda i: snap(prefix + (i,)) if n + 1 == self.ndim else nested(prefix + (i,))        # noqa: E731
            if isinstance(self.shape[n], int):
                return [get(i) for i in range(self.shape[n])]
            return seqs.Seq(self.shape[n], get, "list")
        return nested(())

    def item(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return self.at((0,) * self.ndim)
        raise Unsupported("item")

    # ------------------------------------------------------ reductions
    def any(self, axis=None):
        return quantify(self, False, axis)

    def all(self, axis=None):
        return quantify(self, True, axis)

    def sum(self, axis=None):
        from . import npshim
        return npshim.np_sum(self, axis=axis)

    def max(self, axis=None):
        from . import npshim
        return npshim.extremum("max", self, axis)

    def min(self, axis=None):
        from . import npshim
        return npshim.extremum("min", self, axis)

    def prod(self, axis=None):
        from . import npshim
        return npshim.np_prod(self, axis=axis)

    def conjugate(self):
        return ufunc("conjugate", self)

    conj = conjugate

    @property
    def real(self):
        return ufunc("real", self)

    @property
    def imag(self):
        return ufunc("imag", self)

    # ------------------------------------------------------ operators
    def __add__(self, o): return ufunc("add", self, o)
    def __radd__(self, o): return ufunc("add", o, self)
    def __sub__(self, o): return ufunc("subtract", self, o)
    def __rsub__(self, o): return ufunc("subtract", o, self)
    def __mul__(self, o): return ufunc("multiply", self, o)
    def __rmul__(self, o): return ufunc("multiply", o, self)
    def __truediv__(self, o): return ufunc("true_divide", self, o)
    def __rtruediv__(self, o): return ufunc("true_divide", o, self)
    def __pow__(self, o): return ufunc("power", self, o)
    def __rpow__(self, o): return ufunc("power", o, self)
    def __mod__(self, o): return ufunc("mod", self, o)
    def __rmod__(self, o): return ufunc("mod", o, self)
    def __neg__(self): return ufunc("negative", self)
    def __abs__(self): return ufunc("absolute", self)
    def __iadd__(self, o): return ufunc("add", self, o, out=self)
    def __isub__(self, o): return ufunc("subtract", self, o, out=self)
    def __imul__(self, o): return ufunc("multiply", self, o, out=self)
    def __itruediv__(self, o): return ufunc("true_divide", self, o, out=self)
    def __ipow__(self, o): return ufunc("power", self, o, out=self)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __and__(self, o): return elementwise(lambda a, b: band(a, b), (self, o), B1)
    def __or__(self, o): return elementwise(lambda a, b: bor(a, b), (self, o), B1)
    def __invert__(self): return elementwise(lambda a: bnot(a), (self,), B1)


def _delegates(cls):
    ops = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide", "pow": "power", "mod": "mod"}
    for n, u in ops.items():
        setattr(cls, f"__{n}__", lambda self, o, u=u: ufunc(u, self, o))
        setattr(cls, f"__r{n}__", lambda self, o, u=u: ufunc(u, o, self))
    for n, c in {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}.items():
        setattr(cls, f"__{n}__", lambda self, o, c=c: compare(c, self, o))
    cls.__neg__ = lambda self: ufunc("negative", self)
    cls.__abs__ = lambda self: ufunc("absolute", self)
    cls.__and__ = lambda self, o: elementwise(lambda a, b: band(a, b), (self, o), B1)
    cls.__or__ = lambda self, o: elementwise(lambda a, b: bor(a, b), (self, o), B1)
    cls.__invert__ = lambda self: elementwise(lambda a: bnot(a), (self,), B1)
    cls.__hash__ = None
    return cls


class MaskIndex(tuple):
    """the result of ``nonzero``: the indices, at which a mask is True"""

    def __new__(cls, mask):
        r = tuple.__new__(cls, (None,) * mask.ndim)
        r.mask = mask
        return r

    def __getitem__(self, i):
        m = self.mask
        if m.ndim != 1 or i != 0 or not isinstance(m.shape[0], int):
            raise Unsupported("nonzero")
        return array(tuple(j for j in range(m.shape[0]) if bool(mkbool(core.zbool(m.at((j,)))))), I8)

    def __iter__(self):
        raise Unsupported("nonzero")


@_delegates
class Masked:
    """array[boolean mask]: a lazily selected part of an array"""
    __hash__ = None

    def __init__(self, arr, mask, snap=None, dtype=None):
        self.arr, self.mask = arr, mask
        self._snap = snap or arr.snapshot()
        self.mask_snap = mask.snapshot()
        self.dtype = dtype or arr.dtype

    def snapshot(self):
        return self._snap

    def compact(self):
        """the selected elements as an array"""
        m, c, r = compaction(self.mask, self.mask_snap)
        snap = self._snap
        a = fresh_array((m,), lambda idx: snap(c(idx[0])), self.dtype, name="selected")
        a.origin = self, a.buf.elem
        return a

    def __getitem__(self, key):
        eq = getattr(self.mask, "equals", None)
        if eq is not None and isinstance(key, int) and key == 0 and eq[0].ordered() and core.is_reallike(eq[1]):
            found, i = eq[0].position(eq[1])
            if not found:
                raise IndexError("index 0 is out of bounds for axis 0 with size 0")
            return self._snap((i,))
        a = self.compact()
        a.origin = None
        return a[key]

    def __getattr__(self, n):
        if n.startswith("__") or n in ("vc_builtin", "vlen_", "name", "z", "_snap", "arr", "mask", "mask_snap", "dtype", "tag", "item"):
            raise AttributeError(n)
        return getattr(self.compact(), n)

    def __iter__(self):
        return iter(self.compact())

    def vc_symbolic(self):
        return self.compact().vc_symbolic()

    def vc_seq(self):
        return self.compact().vc_seq()

    def vlen(self):
        if self.mask.ndim != 1 or not isinstance(self.mask.shape[0], int) or core.E.real_mode:
            return compaction(self.mask, self.mask_snap)[0]
        r = 0
        for i in range(self.mask.shape[0]):
            r = r + core.ite(self.mask_snap((i,)), 1, 0)
        return r

    @property
    def shape(self):
        return (self.vlen(),)

    @property
    def size(self):
        return self.vlen()

    def same_mask(self, mask):
        if mask is self.mask:
            return True
        if mask.ndim != self.mask.ndim:
            return False
        idx = tuple(SInt(core.E.fresh("m", core.IntS)) for _ in mask.shape)
        rng = [z3.And(i.z >= 0, i.z < zint(n)) for i, n in zip(idx, mask.shape)]
        return core.E.entails(z3.Implies(z3.And(*rng), core.zbool(mask.at(idx)) == core.zbool(self.mask_snap(idx))))


def lazy(a):
    """the selection by a mask, that an array was made from and still equals, or None"""
    origin = a.__dict__.get("origin") if isinstance(a, SymArr) else None
    return origin[0] if origin and origin[1] is a.buf.elem else None


def compaction(mask, ms):
    """(m, c, r): the number of selected elements, the index of each selected element and the position of an element among the selected ones"""
    E = core.E
    shape = tuple(mask.shape)
    nd = len(shape)
    for other, os, q in E.apps.setdefault("compactions", []):
        if other is mask or nd == len(other.shape) and all(dims_eq(a, b) for a, b in zip(shape, other.shape)) and same_content(ms, os, shape):
            return q
    mz = E.fresh("selected", core.IntS)
    E.axiom(mz >= 0)
    if nd == 1:
        E.axiom(mz <= zint(shape[0]))
    E.counter += 1
    cfs = [z3.Function(f"selection!{E.counter}.{d}", core.IntS, core.IntS) for d in range(nd)]
    rf = z3.Function(f"rank!{E.counter}", *([core.IntS] * nd), core.IntS)
    known = {}

    def c(k):
        kz = z3.simplify(zint(k))
        v = [cf(kz) for cf in cfs]
        if ("c", kz.get_id()) not in known and not kz.decl().eq(rf):     # the contract of the rank specifies the selection at a rank
            known["c", kz.get_id()] = kz
            E.axiom(z3.Implies(z3.And(kz >= 0, kz < mz), z3.And(rf(*v) == kz, *[z3.And(x >= 0, x < zint(n)) for x, n in zip(v, shape)])))
            E.axiom(z3.Implies(z3.And(kz >= 0, kz < mz), core.zbool(ms(tuple(SInt(x) for x in v)))))
        return tuple(SInt(x) for x in v)

    def r(*idx):
        iz = [z3.simplify(zint(i)) for i in idx]
        v = rf(*iz)
        key = ("r",) + tuple(i.get_id() for i in iz)
        if key not in known and not all(i.decl().eq(cf) for i, cf in zip(iz, cfs)):      # the contract of the selection specifies its rank
            known[key] = iz
            rng = z3.And(*[z3.And(i >= 0, i < zint(n)) for i, n in zip(iz, shape)])
            E.axiom(z3.Implies(z3.And(rng, core.zbool(ms(tuple(SInt(i) for i in iz)))), z3.And(v >= 0, v < mz, *[cf(v) == i for cf, i in zip(cfs, iz)])))
        return SInt(v)
    for cf in cfs:
        E.theory(cf, lambda k: c(SInt(k)))
    E.theory(rf, lambda *idx: r(*(SInt(i) for i in idx)))
    q = (SInt(mz), c, r)
    E.apps["compactions"].append((mask, ms, q))
    return q


def same_content(f, g, shape):
    idx = tuple(SInt(core.E.fresh("m", core.IntS)) for _ in shape)
    rng = [z3.And(i.z >= 0, i.z < zint(n)) for i, n in zip(idx, shape)]
    return core.E.entails(z3.Implies(z3.And(*rng), core.zbool(f(idx)) == core.zbool(g(idx))))


def equal(a, b):
    """True, if two arrays are known to be equal"""
    if a is b:
        return True
    if not isinstance(a, SymArr) or not isinstance(b, SymArr) or a.ndim != b.ndim or a.dtype != b.dtype or not all(dims_eq(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    idx = tuple(SInt(core.E.fresh("m", core.IntS)) for _ in a.shape)
    rng = [z3.And(i.z >= 0, i.z < zint(n)) for i, n in zip(idx, a.shape)]
    return core.E.entails(z3.Implies(z3.And(*rng), core.veq(a.at(idx), b.at(idx))))


def in_range(get, shape, n):
    """all elements of an index array are valid indices; raises the IndexError on a path of its own otherwise"""
    E = core.E
    idx = tuple(SInt(E.fresh("t", core.IntS)) for _ in shape)
    rng = z3.And(*[z3.And(i.z >= 0, i.z < zint(m)) for i, m in zip(idx, shape)]) if shape else z3.BoolVal(True)

    def run():
        E.assume(rng)
        return get(idx)
    cases = []
    for guards, _, (kind, v), _ in E.subexplore(run):
        if kind != "ok":
            raise Unsupported("an index array with undefined elements")
        cases.append(z3.And(*guards, z3.Or(zint(v) >= zint(n), zint(v) < -zint(n))))
    bad = z3.Or(*cases) if cases else z3.BoolVal(False)
    if E.entails(z3.Not(bad)):
        return
    if E.choose(2) == 1:
        E.assume(bad)
        raise IndexError("index is out of bounds")
    vs = [i.z for i in idx]
    if not shape:
        E.assume(z3.Not(bad))
    elif not E.real_mode:
        E.assume_q(z3.ForAll(vs, z3.Not(bad)))


def wrap_index(i, n):
    return smart_ite(i < 0, i + n, i) if not isinstance(i, int) else (i + n if i < 0 else i)


def cast(x, dtype):
    return x


def fresh_array(shape, elem, dtype=F8, name="tmp", owner="fresh"):
    shape = tuple(shape)
    cache = {}

    def cached(b):
        k = tuple(x if isinstance(x, int) else x.z.get_id() for x in b)
        if k not in cache:
            cache[k] = (b, elem(b))
        return cache[k][1]
    return SymArr(Buf(shape, cached, dtype, owner, name))


def uninit(shape, dtype=F8, name="empty"):
    """uninitialised memory: arbitrary content"""
    core.E.counter += 1
    return SymArr(Buf(tuple(shape), unknown_elements(f"{name}!{core.E.counter}", len(shape), dtype), dtype, name=name))


def unknown_elements(name, ndim, dtype):
    """arbitrary elements: machine numbers, or mathematical numbers, if the contract is stated for those"""
    def const(suffix, sort):
        if not ndim:
            c = z3.Const(name + suffix, sort)
            return lambda b: c
        f = z3.Function(name + suffix, *([core.IntS] * ndim), sort)
        return lambda b: f(*(zint(x) for x in b))
    if core.E.real_mode and dtype.kind == "f":
        f = const("", core.RealS)
        return lambda b: SReal(f(b))
    if core.E.real_mode and dtype.kind == "c":
        f, g = const(".re", core.RealS), const(".im", core.RealS)
        return lambda b: core.SCplx(f(b), g(b))
    f = const("", core.V)
    return lambda b: SVal(f(b))


def check_shape(shape):
    for s in shape:
        if not is_intlike(s):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(s, int):
            if s < 0:
                raise ValueError("negative dimensions are not allowed")
        elif core.E.decide(zint(s) < 0):
            raise ValueError("negative dimensions are not allowed")


def normal_shape(shape):
    if isinstance(shape, seqs.Seq):
        shape = tuple(shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(shape)
    else:
        shape = (shape,)
    shape = tuple(s if isinstance(s, (int, SInt)) else (mkint(zint(s)) if is_intlike(s) else s) for s in shape)
    check_shape(shape)
    return shape


def as_array(x):
    if isinstance(x, SymArr):
        return x
    if isinstance(x, Masked):
        return x.compact()
    if isinstance(x, seqs.Seq) or hasattr(x, "vc_seq"):
        s = seqs.as_seq(x)
        if isinstance(s.length, int):
            return array(tuple(s))
        probe = s.get(SInt(core.E.fresh("p", core.IntS)))
        if isinstance(probe, (seqs.Seq, tuple, list)):
            # nested sequences must have the same length
            if dims_eq(s.length, 0):
                return fresh_array((0,), lambda idx: 0.0, F8)
            inner = as_array(s.get(0)).shape
            iz = core.E.freshint("p")
            other = as_array(s.get(iz)).shape
            if len(inner) != len(other) or not core.E.entails(z3.Implies(z3.And(iz.z >= 0, iz.z < zint(s.length)), z3.And(*[zint(a) == zint(b) for a, b in zip(inner, other)]))):
                raise Unsupported("an array from sequences with different lengths")

            def element(idx):
                x = s.get(idx[0])
                for i in idx[1:]:
                    x = seqs.as_seq(x).get(i)
                return x
            return fresh_array((s.length,) + tuple(inner), element, as_array(probe).dtype)
        if isinstance(probe, SymArr):
            inner = probe.shape
            return fresh_array((s.length,) + inner, lambda idx: s.get(idx[0]).at(idx[1:]), probe.dtype)
        return fresh_array((s.length,), lambda idx: s.get(idx[0]), scalar_dtype(probe))
    if isinstance(x, core.Sym) or isinstance(x, (bool, int, float, complex)):
        return SymArr(Buf((), lambda b: x, scalar_dtype(x)))
    if isinstance(x, (list, tuple)):
        return array(x)
    if hasattr(x, "dtype") and hasattr(x, "shape"):       # a concrete array of the real NumPy
        return from_numpy(x)
    if callable(x) or isinstance(x, (str, dict, type(None))) or True:
        raise TypeError(f"unsupported operand type for an array operation: {type(x).__name__}")


def from_numpy(x):
    import numpy
    x = numpy.asarray(x)
    dt = asdtype(x.dtype.name)
    shape = x.shape

    def elem(b):
        if all(isinstance(i, int) for i in b):
            return x[b].item()
        raise Unsupported("symbolic index of a concrete array") if x.size > 64 else _select(x, b)
    def elem2(b):
        if all(isinstance(i, int) for i in b):
            return x[b].item()
        if x.size > 64:
            raise Unsupported("symbolic index of a concrete array")
        return _select(x, b)
    return SymArr(Buf(shape, elem2, dt))


def _select(x, b):
    if len(b) == 0:
        return x.item()
    i = b[0]
    if isinstance(i, int):
        return _select(x[i], b[1:])
    r = _select(x[-1], b[1:])
    for j in range(x.shape[0] - 2, -1, -1):
        r = ite(i == j, _select(x[j], b[1:]), r)
    return r


def array(x, dtype=None, copy=True):
    if isinstance(x, SymArr):
        r = x.copy()
        if dtype is not None:
            r = r.astype(dtype)
        return r
    if isinstance(x, seqs.Seq) and not isinstance(x.length, int):
        r = as_array(x)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, (list, tuple, seqs.Seq)):
        items = [as_array(i) for i in x]
        if not items:
            return fresh_array((0,), lambda b: 0.0, asdtype(dtype or "float64"))
        nd = items[0].ndim
        if any(i.ndim != nd for i in items):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        for i in items[1:]:
            for a, b in zip(i.shape, items[0].shape):
                if not dims_eq(a, b):
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        dt = asdtype(dtype) if dtype is not None else result_dtype(*(i.dtype for i in items))
        snaps = [i.snapshot() for i in items]

        def elem(b):
            i = b[0]
            if isinstance(i, int):
                return snaps[i](b[1:])
            r = snaps[-1](b[1:])
            for j in range(len(snaps) - 2, -1, -1):
                r = ite(i == j, lambda j=j: snaps[j](b[1:]), r) if not callable(r) else r
            return r
        return fresh_array((len(items),) + items[0].shape, elem, dt)
    r = as_array(x)
    s = r.snapshot()
    return fresh_array(r.shape, s, asdtype(dtype) if dtype is not None else r.dtype)


# ----------------------------------------------------------------- broadcasting and element-wise operations

def broadcast_shapes(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        dim = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(dim, int) and dim == 1:
                dim = d
                continue
            if isinstance(dim, int) and isinstance(d, int):
                if dim != d:
                    raise ValueError("operands could not be broadcast together")
                continue
            if zint(dim).eq(zint(d)):
                continue
            if dims_eq(dim, d):
                continue
            if dims_eq(d, 1):
                continue
            if dims_eq(dim, 1):
                dim = d
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(dim)
    return tuple(out)


def broadcast_to(arr, shape, msg="operands could not be broadcast together", strip=False):
    """a function from indices of the given shape to the (current) elements of arr"""
    snap = arr.snapshot()
    ashape = arr.shape
    extra = len(ashape) - len(shape)
    if extra > 0:
        if not strip:
            raise ValueError(msg)
        for s in ashape[:extra]:
            if not dims_eq(s, 1):
                raise ValueError(msg)
        lead, ashape = (0,) * extra, ashape[extra:]
    else:
        lead = ()
    off = len(shape) - len(ashape)
    one = []
    for j, d in enumerate(ashape):
        t = shape[off + j]
        if isinstance(d, int) and d == 1:
            one.append(True)
        elif zint(d).eq(zint(t)) or dims_eq(d, t):
            one.append(False)
        elif dims_eq(d, 1):
            one.append(True)
        else:
            raise ValueError(msg)

    def get(idx):
        return snap(lead + tuple(0 if o else idx[off + j] for j, o in enumerate(one)))
    return get


def elementwise(f, args, dtype, out=None):
    if out is None and core.E is not None and core.E.real_mode and any(lazy(a) is not None for a in args):
        m = next(lazy(a) for a in args if lazy(a) is not None)
        selected = [lazy(a) for a in args]
        if all(s is not None and (s is m or s.same_mask(m.mask)) or s is None and not isinstance(a, Masked) and as_array(a).ndim == 0 for s, a in zip(selected, args)):
            r = elementwise(f, tuple(a if s is None else s for s, a in zip(selected, args)), dtype)
            return r.compact()
    if any(isinstance(a, Masked) for a in args) and (out is not None or any(isinstance(a, SymArr) and a.ndim for a in args)):
        args = tuple(a.compact() if isinstance(a, Masked) else a for a in args)
        out = out.compact() if isinstance(out, Masked) else out
    if any(isinstance(a, Masked) for a in args):
        m = next(a for a in args if isinstance(a, Masked))
        gets = []
        for a in args:
            if isinstance(a, Masked):
                if a is not m and not a.same_mask(m.mask):
                    raise Unsupported("operation on different masks")
                gets.append(a.snapshot())
            else:
                v = as_array(a)
                if v.ndim != 0:
                    raise Unsupported("operation on a masked array and an array")
                c = v.at(())
                gets.append(lambda idx, c=c: c)
        if out is not None:
            raise Unsupported("out with a masked array")
        return Masked(m.arr, m.mask, lambda idx: f(*(g(idx) for g in gets)), dtype)
    arrs = [as_array(a) for a in args]
    shape = broadcast_shapes(*(a.shape for a in arrs))
    if out is None:
        gets = [broadcast_to(a, shape) for a in arrs]
        if not shape:
            return f(*(g(()) for g in gets))
        return fresh_array(shape, lambda idx: f(*(g(idx) for g in gets)), dtype)
    if isinstance(out, tuple):
        out = out[0]
    selected = None
    if lazy(out) is not None and core.E.real_mode:
        r = elementwise(f, args, dtype)
        if lazy(r) is not None and lazy(r).same_mask(lazy(out).mask):
            selected = Masked(lazy(out).arr, lazy(out).mask, lazy(r).snapshot(), out.dtype)
    if len(shape) > out.ndim:
        raise ValueError("non-broadcastable output operand")
    off = out.ndim - len(shape)
    for j, s in enumerate(shape):
        if not (zint(s).eq(zint(out.shape[off + j])) or dims_eq(s, out.shape[off + j])):
            # the inputs may be broadcast to the output, if all have length 1
            if not dims_eq(s, 1):
                raise ValueError("operands could not be broadcast together with the output")
    gets = [broadcast_to(a, out.shape) for a in arrs]
    out.write(lambda idx: f(*(g(idx) for g in gets)))
    if selected is not None:
        out.origin = selected, out.buf.elem
    return out


FLOATING = {"true_divide", "exp", "exp2", "sqrt", "log", "log2", "log10", "sin", "cos", "tan", "sinh", "cosh", "arcsin", "arcsinh", "arccos", "angle"}
REALOUT = {"absolute", "real", "imag", "angle"}


def ufunc(name, *args, out=None, dtype=None, where=None, casting=None):
    if where is not None and where is not True:
        if out is not None or dtype is not None:
            raise Unsupported("where and out")
        w = as_array(where)
        full = ufunc(name, *args)
        if not isinstance(full, SymArr):
            raise Unsupported("where for a scalar")
        ws = broadcast_to(w, full.shape)
        fs, us = full.snapshot(), uninit(full.shape, full.dtype).snapshot()
        if core.E.real_mode:    # an element, that is not computed, might not be defined
            return fresh_array(full.shape, lambda idx: fs(idx) if core.E.decide(core.zbool(ws(idx))) else us(idx), full.dtype)
        return fresh_array(full.shape, lambda idx: ite(ws(idx), lambda: fs(idx), lambda: us(idx)), full.dtype)
    name = core.ALIAS.get(name, name)
    real = []
    for a in args:
        if isinstance(a, Masked):
            real.append(a.dtype)
            continue
        if isinstance(a, str) or a is None or isinstance(a, dict) or a is NotImplemented:
            raise TypeError(f"ufunc '{name}' did not contain a loop with signature matching types")
        real.append(as_array(a).dtype)
    dt = result_dtype(*real)
    if any(d.kind == "O" for d in real):
        raise Unsupported("object arrays")
    if name in REALOUT and dt.kind == "c":
        dt = F8 if dt.itemsize >= 16 else F4
    if name in FLOATING and dt.kind in "ib":
        dt = F8
    if name == "mod" and dt.kind == "c":
        raise TypeError("ufunc 'remainder' not supported for the input types")
    if dtype is not None:
        dt = asdtype(dtype)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SymArr):
            raise TypeError("return arrays must be of ArrayType")
        order = "bifc"
        if order.index(dt.kind) > order.index(o.dtype.kind):
            raise TypeError(f"Cannot cast ufunc '{name}' output from dtype('{dt}') to dtype('{o.dtype}') with casting rule 'same_kind'")
    r = elementwise(lambda *xs: vop(name, *xs), args, dt, out)
    if out is None and any(getattr(a, "tag", None) for a in args):
        from . import npshim
        r.tag = npshim.tagged(name, args)
    return r


def compare(op, a, b):
    def f(x, y):
        import operator
        o = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
        r = o(x, y)
        if r is NotImplemented:
            raise Unsupported("comparison")
        return r
    try:
        r = elementwise(f, (a, b), B1)
        if op == "==" and isinstance(r, SymArr):
            r.equals = (a, b)
        return r
    except ValueError:
        if op == "==":
            raise
        if op == "!=":
            raise
        raise


def quantify(arr, universal, axis=None):
    """numpy.any / numpy.all"""
    if isinstance(arr, Masked):
        raise Unsupported("any/all of a masked array")
    if axis is not None:
        raise Unsupported("any/all with axis")
    if all(isinstance(s, int) for s in arr.shape) and prod(arr.shape) <= 64:
        xs = [arr.at(i) for i in itertools.product(*(range(s) for s in arr.shape))]
        xs = [x if isinstance(x, (bool, core.SBool)) else mkbool(core.zbool(x)) for x in xs]
        return band(*xs) if universal else bor(*xs)
    E = core.E
    idx = tuple(SInt(E.fresh("q", core.IntS)) for _ in arr.shape)
    rng = z3.And(*[z3.And(i.z >= 0, i.z < zint(n)) for i, n in zip(idx, arr.shape)])
    body = core.zbool(arr.at(idx))
    if universal:
        return mkbool(z3.ForAll([i.z for i in idx], z3.Implies(rng, body)))
    return mkbool(z3.Exists([i.z for i in idx], z3.And(rng, body)))
