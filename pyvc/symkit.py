"""Symbolic inputs and the symbolic specification kit."""
import fractions
import traceback
import z3
from . import core, seqs, arrays, loader, fakefiles
from .core import SInt, SReal, SVal, SLabel, SBool, SCplx, Unsupported, zint, zreal, mkbool
from .arrays import SymArr, Buf


class UnexpectedException(Exception):
    pass


class SymInputs:
    def __init__(self, E, choices, S):
        self.E, self.choices, self.S = E, choices, S
        self.symbolic = True
        self.frozen = []
        self.undo = []
        fakefiles.clear()

    def __getitem__(self, name):
        return self.choices[name]

    def _reg(self, name, z):
        if name in self.E.inputs:
            raise RuntimeError(f"input {name} is defined twice")
        self.E.inputs[name] = z

    def int(self, name, lo=None, hi=None, near=None):
        z = z3.Int("in:" + name)
        self._reg(name, z)
        if lo is not None:
            self.E.assume(z >= zint(lo))
        if hi is not None:
            self.E.assume(z <= zint(hi))
        return SInt(z)

    def real(self, name, lo=None, hi=None, positive=False):
        z = z3.Real("in:" + name)
        self._reg(name, z)
        if positive:
            self.E.assume(z > 0)
        if lo is not None:
            self.E.assume(z >= zreal(lo))
        if hi is not None:
            self.E.assume(z <= zreal(hi))
        return SReal(z)

    def univariate(self):
        """divisors are examined as polynomials of one positive variable"""
        self.E.univariate = True

    def bool(self, name):
        z = z3.Bool("in:" + name)
        self._reg(name, z)
        return SBool(z)

    def cplx(self, name):
        return SCplx(self.real(name + ".re").z, self.real(name + ".im").z)

    def num(self, name):
        """an arbitrary number, whose arithmetic is uninterpreted"""
        return SVal(z3.Const("in:" + name, core.V))

    def assume(self, cond):
        self.E.assume(cond)

    def array(self, name, shape, dtype="float64", kind=None, positive=False):
        """an array with arbitrary content, that is owned by the caller"""
        kind = kind or ("R" if self.E.real_mode else "V")
        shape = tuple(shape)
        dt = arrays.asdtype(dtype)
        if kind == "V":
            f = z3.Function("in:" + name, *([core.IntS] * len(shape)), core.V)
            get = lambda b: SVal(f(*(zint(x) for x in b)))      # noqa: E731
        elif dt.kind == "c":
            f = z3.Function("in:" + name + ".re", *([core.IntS] * len(shape)), core.RealS)
            g = z3.Function("in:" + name + ".im", *([core.IntS] * len(shape)), core.RealS)
            get = lambda b: SCplx(f(*(zint(x) for x in b)), g(*(zint(x) for x in b)))   # noqa: E731
            self.E.inputs[name + ".re"], self.E.inputs[name + ".im"] = f, g
        else:
            f = z3.Function("in:" + name, *([core.IntS] * len(shape)), core.RealS)
            get = lambda b: SReal(f(*(zint(x) for x in b)))     # noqa: E731
            if positive:
                E, known = self.E, {}

                def get(b):
                    v = f(*(z3.simplify(zint(x)) for x in b))
                    if v.get_id() not in known:
                        known[v.get_id()] = v
                        E.axiom(v > 0)
                    return SReal(v)
                E.theory(f, lambda *b: get(tuple(SInt(x) for x in b)))
            self.E.inputs[name] = f
        buf = Buf(shape, get, dt, owner="in:" + name, name=name)
        arr = SymArr(buf)
        self.frozen.append((name, buf))
        return arr

    def points(self, name, n, positive=False):
        """an array of n strictly increasing numbers"""
        f = z3.Function("in:" + name, core.IntS, core.RealS)
        inv = z3.Function("index:" + name, core.RealS, core.IntS)
        E, known = self.E, {}

        def get(b):
            i = z3.simplify(zint(b[0]))
            v = f(i)
            if i.get_id() not in known:
                E.axiom(inv(v) == i)
                if positive:
                    E.axiom(v > 0)
                for j, w in known.values():
                    E.axiom((i < j) == (v < w))
                    E.axiom((i == j) == (v == w))
                known[i.get_id()] = (i, v)
            return SReal(v)
        E.theory(f, lambda i: get((SInt(i),)))
        buf = Buf((n,), get, arrays.F8, owner="in:" + name, name=name)
        buf.index_of = lambda x: SInt(inv(zreal(x)))
        arr = SymArr(buf)
        self.frozen.append((name, buf))
        return arr

    def around(self, name, n, xs, positive=False):
        """an array of n numbers (run-time checks prefer numbers, that are related to those in xs)"""
        return self.array(name, (n,), positive=positive)

    def scratch(self, name, shape, dtype="float64"):
        """an array with arbitrary content, that may be written to"""
        x = self.array(name, shape, dtype)
        self.frozen.pop()
        x.buf.owner = "scratch"
        return x

    def copy(self, arr):
        """another array with the same content"""
        e = arr.snapshot()
        buf = Buf(tuple(arr.shape), e, arr.dtype, owner="in:copy", name="copy")
        self.frozen.append(("copy", buf))
        return SymArr(buf)

    def curve(self, name):
        """an arbitrary function, that returns an array with as many samples, as it is asked for"""
        from . import windows
        return windows.curve(name)

    def log2_fact(self, x, b):
        """2 ** (b - 1) < x <= 2 ** b implies b - 1 < log2(x) <= b"""
        self.E.axiom(z3.Implies(z3.And(zreal(x) > 2 ** (b - 1), zreal(x) <= 2 ** b), z3.And(zreal(core.scalar_op("log2", x)) > b - 1, zreal(core.scalar_op("log2", x)) <= b)))

    def between(self, name, lo=None, hi=None):
        """a number between two others (both excluded)"""
        z = z3.Real("in:" + name)
        self._reg(name, z)
        if lo is not None:
            self.E.assume(z > zreal(lo))
        if hi is not None:
            self.E.assume(z < zreal(hi))
        return SReal(z)

    def invariant(self, f):
        """suggests x == f(k) as an invariant for the loops of the code under proof (which is proved, before it is used)"""
        self.E.candidates.append(f)

    def content(self, f):
        """suggests element == f(k, index, element before the loop) after k iterations as an invariant for arrays, that are written by a
        while loop (which is proved, before it is used)"""
        def g(k, idx, before):
            return f(k, idx, lambda: before(idx))
        self.E.contents.append(g)

    def seq(self, name, n, kind="tuple"):
        """a sequence of n arbitrary numbers"""
        f = z3.Function("in:" + name, core.IntS, core.V)
        return seqs.Seq(n, lambda i: SVal(f(zint(i))), kind)

    def label_seq(self, name, n):
        f = z3.Function("in:" + name, core.IntS, core.L)
        if isinstance(n, int):
            return tuple(SLabel(f(z3.IntVal(i))) for i in range(n))
        return seqs.Seq(n, lambda i: SLabel(f(zint(i))))

    @staticmethod
    def labels_of(n, fn):
        """the labels, that a function computes"""
        return tuple(fn(i) for i in range(n)) if isinstance(n, int) else seqs.Seq(n, fn)

    def label(self, name):
        return SLabel(z3.Const("in:" + name, core.L))

    @staticmethod
    def path(extension, name="file"):
        """the path of a file, that does not exist"""
        return fakefiles.PREFIX + name + extension

    # ---------------------------------------------------- terms of filters
    def term(self, name, like=None, compact=True, zero=None, transform=None):
        """an arbitrary term of a transfer function: any function of the frequency variable
        :param like: another arbitrary term, that might be equal to the new one
        :param compact: True, if the term is not evaluated at 0 Hz, so that its contract can be applied without a case distinction"""
        nowhere, zero = zero == "nowhere", (self.bool(name + ".zero") if zero is None else zero and zero != "nowhere")
        transform = self.bool(name + ".transform") if transform is None else transform
        key = name
        f, g = (z3.Function(f"in:{key}.{p}", core.RealS, core.RealS, core.RealS) for p in ("re", "im"))

        def value(x):
            x = core.tocplx(x)
            re, im = f(x.re, x.im), g(x.re, x.im)
            if nowhere:     # exp(u + jv) is not zero
                return core.scalar_op("exp", SCplx(re, im))
            return core.ite(zero, lambda: SCplx(z3.RealVal(0), z3.RealVal(0)), lambda: SCplx(re, im))
        if like is None:
            return opaque(self.S, compact)(value, zero, key, None, transform)
        eq = self.bool(name + ".equal")
        z = core.ite(eq, like.vc_zero, zero)
        return opaque(self.S, compact)(lambda x: core.ite(eq, lambda: like.vc_value(x), lambda: value(x)), z, key, (eq, like), core.ite(eq, like.transform, transform))

    def terms(self, name, n, compact=True, zero=None, transform=None, like=None):
        """a tuple of n arbitrary terms
        :param like: other terms, each of which might be equal to the new one with the same index
        :param zero: False, if none of the terms is zero by its parameters"""
        if isinstance(n, int):
            return tuple(self.term(f"{name}.{i}", compact=compact, zero=zero, transform=transform) for i in range(n))
        known, known_transform = zero, transform
        equal = z3.Function(f"in:{name}.equal", core.IntS, z3.BoolSort())
        zero, transform = (z3.Function(f"in:{name}.{p}", core.IntS, z3.BoolSort()) for p in ("zero", "transform"))
        f, g = (z3.Function(f"in:{name}.{p}", core.IntS, core.RealS, core.RealS, core.RealS) for p in ("re", "im"))

        def at(i):
            z = zint(i)
            iszero = mkbool(zero(z)) if known is None else known

            def value(x):
                x = core.tocplx(x)
                return core.ite(iszero, lambda: SCplx(z3.RealVal(0), z3.RealVal(0)), lambda: SCplx(f(z, x.re, x.im), g(z, x.re, x.im)))
            if like is not None:
                eq, other = mkbool(equal(z)), seqs.as_seq(like).at(i)
                return opaque(self.S, compact)(lambda x: core.ite(eq, lambda: other.vc_value(x), lambda: value(x)), core.ite(eq, other.vc_zero, iszero), (name, str(z)), (eq, other),
                                               core.ite(eq, other.transform, mkbool(transform(z))))
            return opaque(self.S, compact)(value, iszero, (name, str(z)), None, mkbool(transform(z)) if known_transform is None else known_transform)
        return seqs.Seq(n, at, "tuple")

    def interpolated(self, xs, ys):
        """states the contract of the interpolation functions for the given supporting points, so that their callers are verified
        against that contract; returns the function, that it specifies: (name of the flag, x) -> the interpolated value"""
        module = self.S._internal.interpolation
        original = module.get
        dtype = ys.dtype

        def value(flag, x):
            f, g = (z3.Function(f"interpolated:{flag}.{p}", core.RealS, core.RealS) for p in ("re", "im"))
            z = core.zreal(x)
            return SCplx(f(z), g(z)) if dtype.kind == "c" else SReal(f(z))

        def get(flag):
            function = original(flag)

            def interpolation(x, xs_, ys_):
                if not (arrays.equal(xs_, xs) and arrays.equal(ys_, ys)):
                    return function(x, xs_, ys_)
                r = arrays.elementwise(lambda v: value(flag.name, v), (x,), dtype)
                return r

            def call(x, xs, ys):        # pylint: disable=redefined-outer-name
                return interpolation(x, xs, ys)
            return call
        module.get = get
        self.undo.append(lambda: setattr(module, "get", original))
        return value

    # ---------------------------------------------------- containers
    def dims(self, name, given, key, lo):
        return given if given is not None else self.int(f"{name}.{key}", lo)

    def signal(self, name, channels=None, length=None, offset=None, sampling_rate=None, min_channels=0, min_length=0, kind=None, dtype="float64"):
        c = channels if channels is not None else self.int(name + ".channels", min_channels)
        n = length if length is not None else self.int(name + ".length", min_length)
        o = offset if offset is not None else self.int(name + ".offset")
        sr = sampling_rate if sampling_rate is not None else self.real(name + ".sampling_rate", positive=True)
        return self.S.Signal(channels=self.array(name, (c, n), dtype, kind), sampling_rate=sr, offset=o, labels=self.label_seq(name + ".labels", c))

    def spectrum(self, name, channels=None, length=None, resolution=None, min_channels=0, min_length=0, kind=None, dtype="complex128"):
        c = channels if channels is not None else self.int(name + ".channels", min_channels)
        n = length if length is not None else self.int(name + ".length", min_length)
        r = resolution if resolution is not None else self.real(name + ".resolution", positive=True)
        return self.S.Spectrum(channels=self.array(name, (c, n), dtype, kind), resolution=r, labels=self.label_seq(name + ".labels", c))

    def spectrogram(self, name, channels=None, frequencies=None, length=None, offset=None, resolution=None, sampling_rate=None, min_channels=0, min_length=0, min_frequencies=0, kind=None, dtype="complex128"):
        c = channels if channels is not None else self.int(name + ".channels", min_channels)
        m = frequencies if frequencies is not None else self.int(name + ".frequencies", min_frequencies)
        n = length if length is not None else self.int(name + ".length", min_length)
        o = offset if offset is not None else self.int(name + ".offset")
        r = resolution if resolution is not None else self.real(name + ".resolution", positive=True)
        sr = sampling_rate if sampling_rate is not None else self.real(name + ".sampling_rate", positive=True)
        return self.S.Spectrogram(channels=self.array(name, (c, m, n), dtype, kind), resolution=r, sampling_rate=sr, offset=o, labels=self.label_seq(name + ".labels", c))


_opaque = {}


def opaque(S, compact):
    """a class for terms, of which nothing but the contract of a term is known"""
    if (S, compact) in _opaque:
        return _opaque[S, compact]
    Term = next(c for c in reversed(type(S.Filter.Exp(1.0)).__mro__) if c is not object)

    class Opaque(Term):
        def __init__(self, value, zero, key, twin, transform=False):
            Term.__init__(self, transform=transform)
            self.vc_value, self.vc_zero, self.vc_key, self.vc_twin = value, zero, key, twin

        def __call__(self, s, out=None):
            """the contract of a term: the value at s or at 1/s (away from s = 0)"""
            t = self.transform
            if isinstance(t, bool) or not compact:
                return super().__call__(s, out=out)
            one, two = s(), s.transform()()
            r = arrays.elementwise(lambda x, y: core.ite(t, lambda: self.vc_value(y), lambda: self.vc_value(x)), (one, two), arrays.C16)
            if out is None:
                return r
            out[...] = r
            return out

        def _compute(self, s, out=None):
            r = arrays.elementwise(self.vc_value, (s(),), arrays.C16)
            if out is None:
                return r
            out[...] = r
            return out

        def is_zero(self):
            return self.vc_zero

        def invert_transform(self):
            return Opaque(self.vc_value, self.vc_zero, self.vc_key, self.vc_twin, core.bnot(self.transform))

        def __eq__(self, o):
            if not isinstance(o, Opaque):
                return False        # a term of a class, of which nothing is known, differs from the others
            same = mkbool(core.zbool(self.transform) == core.zbool(o.transform))
            if self.vc_key == o.vc_key:
                return same
            for a, b in ((self, o), (o, self)):
                if a.vc_twin is not None and a.vc_twin[1].vc_key == b.vc_key:
                    return core.band(a.vc_twin[0], same)
            return False

        def __ne__(self, o):
            return core.bnot(self == o)

        def __repr__(self):
            return f"<{self.vc_key}>"
    _opaque[S, compact] = Opaque
    return Opaque


class SymKit:
    symbolic = True

    def __init__(self, E, inputs):
        self.E, self.I = E, inputs

    # ---------------------------------------------------- expressions
    ite = staticmethod(core.ite)
    and_ = staticmethod(core.band)
    or_ = staticmethod(core.bor)
    not_ = staticmethod(core.bnot)

    @staticmethod
    def implies(a, b):
        return core.bor(core.bnot(a), b)

    @staticmethod
    def iff(a, b):
        return mkbool(core.zbool(a) == core.zbool(b))

    @staticmethod
    def min(*xs): return core.minmax(False, *xs)

    @staticmethod
    def max(*xs): return core.minmax(True, *xs)

    @staticmethod
    def abs(x): return abs(x)

    @staticmethod
    def op(name, *xs): return core.vop(name, *xs)

    @staticmethod
    def len(x): return loader.v_len(x)

    @staticmethod
    def round(x): return core.rnd(x)

    @staticmethod
    def trunc(x): return core.trunc(x)

    @staticmethod
    def floor(x): return core.floor(x)

    @staticmethod
    def ceil(x): return core.ceil(x)

    @staticmethod
    def same(a, b):
        """equality of two scalars as a condition"""
        return mkbool(core.veq(a, b))

    @staticmethod
    def draws(method, seed, *params):
        """the function (n, i) -> element i of the n random numbers, that the first call of a method of NumPy's generator returns"""
        from . import rng
        return lambda n, i: rng.draw(method, rng.seed_term(seed), 0, params, i)

    @staticmethod
    def pow2(k):
        return core.pow2(k)

    @staticmethod
    def rudin_shapiro(n, k=None):
        """element n of the Rudin-Shapiro sequence (its definition is instantiated for the numbers with k + 2 digits)"""
        return core.rudin_shapiro(n, 0 if k is None else k)

    @staticmethod
    def shape(x): return tuple(x.shape)

    @staticmethod
    def dtype(x):
        """'float64' or 'complex128'..."""
        return x.dtype.name

    @staticmethod
    def fn(name, *xs):
        """an elementary function of real numbers"""
        r = core.scalar_op(name, *xs)
        if r is None:
            raise Unsupported(name)
        return r

    def same_hash(self, name, a, b):
        """equal objects have equal hashes: the hashes are computed from equal values"""
        a, b = a.__hash__(), b.__hash__()
        if isinstance(a, loader.SymHash) and isinstance(b, loader.SymHash):
            self._same_structure(name, a.value, b.value)
        else:
            self.E.prove(a == b if isinstance(a, int) and isinstance(b, int) else False, name)

    def _same_structure(self, name, a, b):
        if isinstance(a, loader.SymHash) and isinstance(b, loader.SymHash):
            a, b = a.value, b.value
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self._same_structure(f"{name}.{i}", x, y)
            return
        if isinstance(a, seqs.Seq) and isinstance(b, seqs.Seq):
            if self.E.prove(zint(a.length) == zint(b.length), name + ".length"):
                self.forall(name, [a.length], lambda i: (a.at(i), b.at(i)))
            return
        self.E.prove(self._eq(a, b), name)

    @staticmethod
    def window(name, *args, **kwargs):
        """the function (M, i) -> the sample i of the window with M samples, that is computed by NumPy or SciPy"""
        from . import windows
        n, params, sym = windows.bind(name, args, kwargs)
        return lambda M, i: windows.value(n, params, M if sym else M + 1, i)

    @staticmethod
    def curve(function):
        """the function (M, i) -> the sample i of the result of function(M)"""
        from . import arrays as a
        return lambda M, i: a.as_array(function(M)).at((i,))

    @staticmethod
    def cplx(re, im):
        return core.mkcplx(zreal(re), zreal(im))

    def elem(self, arr):
        """the current content of an array as a function of its indices"""
        s = arrays.as_array(arr).snapshot()
        return lambda *idx: s(idx)

    def item(self, seq, i):
        if isinstance(seq, seqs.Seq):
            return seq.at(i)
        return seqs.as_seq(seq).at(i)

    def sum(self, n, f):
        """f(0) + f(1) + ... + f(n-1)"""
        from . import sums
        kz = self.E.fresh("s", core.IntS)
        t = f(SInt(kz))
        if core.is_reallike(t):
            return SReal(sums.rfold(z3.RealVal(0), n, kz, zreal(t)))
        return SVal(sums.fold("add", core.num(0), n, kz, core.toval(t).z))

    def bisum(self, f):
        """the sum over all integers k of f(k), which has a finite support"""
        from . import sums
        kz = self.E.fresh("c", core.IntS)
        return SVal(sums.bisum(kz, core.toval(f(SInt(kz))).z))

    def dft(self, n, k, f):
        """the bin k of the discrete Fourier transform of f(0), ..., f(n-1)"""
        from . import sums, npshim
        if self.E.real_mode:
            return npshim.rdft(n, k, f)
        t = self.E.fresh("t", core.IntS)
        term = core.vop("multiply", f(SInt(t)), SVal(npshim.W(zint(n), zint(k), t)))
        return SVal(sums.fold("add", core.num(0), n, t, core.toval(term).z))

    def irdft(self, n, t, f):
        """the sample t of the inverse transform (with n samples) of the spectrum of a real signal with the bins f(0), ..., f(n//2)"""
        from . import sums, npshim
        if self.E.real_mode:
            return npshim.rirdft(n, t, f)
        k = self.E.fresh("t", core.IntS)
        term = core.vop("multiply", f(SInt(k)), SVal(npshim.IW(zint(n), k, zint(t))))
        return SVal(sums.fold("add", core.num(0), n // 2 + 1, k, core.toval(term).z))

    # ---------------------------------------------------- obligations
    def check(self, name, cond):
        self.E.prove(cond, name)

    def eq(self, name, a, b, tol=None):
        self.E.prove(self._eq(a, b), name)

    def near(self, name, a, b, scale, tolerance):
        """|a - b| <= tolerance * scale"""
        self.E.prove_near(zreal(a), zreal(b), zreal(scale), tolerance, name)

    def _eq(self, a, b):
        if isinstance(a, (seqs.Seq, tuple, list)) and isinstance(b, (seqs.Seq, tuple, list)):
            r = seqs.seq_eq(seqs.as_seq(a), seqs.as_seq(b)) if isinstance(a, seqs.Seq) or isinstance(b, seqs.Seq) else None
            if r is None:
                if len(a) != len(b):
                    return z3.BoolVal(False)
                return z3.And(*[self._eq(x, y) for x, y in zip(a, b)]) if len(a) else z3.BoolVal(True)
            return core.zbool(r)
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            raise Unsupported("comparison of arrays")
        if isinstance(a, (core.Sym, bool, int, float, complex, str)) or a is None or hasattr(a, "item"):
            if isinstance(b, (core.Sym, bool, int, float, complex, str)) or b is None or hasattr(b, "item"):
                a = a.item() if hasattr(a, "item") else a
                b = b.item() if hasattr(b, "item") else b
                return core.veq(a, b)
        return z3.BoolVal(bool(a == b))

    def forall(self, name, bounds, fn):
        """for all i in [0, n) for every n in bounds: fn(*i) is a condition or a pair of equal values"""
        E = self.E

        def run():
            idx = []
            for n in bounds:
                z = E.fresh("x", core.IntS)
                E.assume(z3.And(z >= 0, z < zint(n)))
                idx.append(SInt(z))
            if E.check() == z3.unsat:
                raise core.Infeasible()
            r = fn(*idx)
            goal = self._eq(*r[:2]) if isinstance(r, tuple) else core.zbool(r)
            E.prove(goal, name)
        for guards, qf, (kind, val), bufs in E.subexplore(run):
            if kind == "raise":
                raise val

    def array(self, name, arr, shape, elem, dtype=None):
        """the array has the given shape and content"""
        a = arrays.as_array(arr)
        if a.ndim != len(shape):
            self.E.prove(False, name + ".ndim")
            return
        ok = self.E.prove(z3.And(*[zint(x) == zint(y) for x, y in zip(a.shape, shape)]) if shape else z3.BoolVal(True), name + ".shape")
        if dtype is not None:
            self.E.prove(a.dtype == arrays.asdtype(dtype), name + ".dtype")
        if ok:
            s = a.snapshot()
            self.forall(name + ".elements", shape, lambda *idx: (s(idx), elem(*idx)))

    def labels(self, name, labels, n, fn):
        """labels is a sequence of n labels"""
        kind = isinstance(labels, tuple) or (isinstance(labels, seqs.Seq) and labels.kind == "tuple")
        self.E.prove(kind, name + ".tuple")
        s = seqs.as_seq(labels)
        if self.E.prove(zint(s.length) == zint(n), name + ".count"):
            self.forall(name + ".text", [n], lambda i: (s.at(i), fn(i)))

    def catch(self, fn):
        """(exception, result) of a call, that may raise"""
        try:
            return None, fn()
        except Exception as e:      # pylint: disable=broad-except
            return e, None

    def raises(self, name, exc, fn):
        e, _ = self.catch(fn)
        self.check(name, isinstance(e, exc))

    def finish(self):
        """frame: the operands are not modified"""
        bad = [n for n, b in self.I.frozen if b.version]
        if self.I.frozen:
            self.E.prove(not bad, "frame: operands unmodified" + (f" {bad}" if bad else ""))

    def note(self, *a):
        pass


def frac(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return int(f) if f.denominator == 1 else float(f)
    if z3.is_algebraic_value(v):
        f = v.approx(20).as_fraction()
        return float(f)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def assignment(E, model):
    out = {}
    for name, z in E.inputs.items():
        if isinstance(z, z3.FuncDeclRef):
            fi = model[z]
            if fi is None:
                continue
            try:
                table = {}
                for j in range(fi.num_entries()):
                    e = fi.entry(j)
                    table[",".join(str(frac(e.arg_value(q))) for q in range(e.num_args()))] = frac(e.value())
                els = fi.else_value()
                out["@" + name] = {"entries": table, "else": frac(els) if els is not None else 0}
            except Exception:       # pylint: disable=broad-except
                pass
            continue
        v = frac(model.eval(z, model_completion=True))
        if v is not None:
            out[name] = v
    return out


def small_bounds(E):
    out = []
    ints = [z for z in E.inputs.values() if isinstance(z, z3.ArithRef) and z.is_int()]
    reals = [z for z in E.inputs.values() if isinstance(z, z3.ArithRef) and z.is_real()]
    for b in (3, 7, 20, 100):
        out.append([z3.And(z >= -b, z <= b) for z in ints] + [z3.And(z >= -10 * b, z <= 10 * b) for z in reals])
    return out


def refute_model(E, goal):
    """a counterexample with small values"""
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*E.pc)
    s.add(*E.axioms)
    s.add(z3.Not(goal))
    s.add(*core.commutativity([goal]))
    for b in small_bounds(E):
        s.push()
        s.add(*b)
        r = s.check()
        if r == z3.sat:
            return s.model()
        s.pop()
    return None


def run_job(contract, choices, S, timeout_ms=8000, deadline=None, max_paths=4000, shard=None):
    """all paths of a contract; returns a dictionary"""
    E = core.Engine(timeout_ms=timeout_ms, deadline=deadline, max_paths=max_paths)
    E.real_mode = contract.mode == "R"
    refuted, witnesses, errors = [], [], []
    orig_prove = E.prove

    def prove(goal, name, facts=(), witness=None):
        ok = orig_prove(goal, name, facts, witness)
        ob = E.obligations[-1]
        if (ob.status == "refuted" or ob.status == "unknown" and ob.model is not None) and len(refuted) < 25:
            g = goal if isinstance(goal, z3.BoolRef) else (z3.BoolVal(goal) if isinstance(goal, bool) else core.zbool(goal))
            m = refute_model(E, g) or ob.model
            refuted.append({"obligation": name, "assignment": assignment(E, m) if m is not None else {}, "goal": str(g)[:600], "path": E.paths, "exception": ob.status == "unknown"})
        ob.model = None
        return ok
    E.prove = prove

    def body():
        E.zero_product = contract.mode == "V0"
        inputs = SymInputs(E, choices, S)
        kit = SymKit(E, inputs)
        n0 = len(E.obligations)
        exc = None
        try:
            contract.fn(inputs, kit, S)
            kit.finish()
        except Exception as e:      # pylint: disable=broad-except
            exc = e
            tb = traceback.extract_tb(e.__traceback__)
            where = " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb[-7:]))
        finally:
            for f in inputs.undo:
                f()
        m = E.feasible_model(small_bounds(E))
        if m is None:
            if exc is not None:
                if E.check() == z3.unsat:
                    raise core.Infeasible()
        a = assignment(E, m) if m is not None else None
        if exc is not None:
            E.obligations.append(core.Obligation("no unexpected exception", "exception", 0.0, None, "z3", E.paths, f"{type(exc).__name__}: {exc} [{where}]"))
            refuted.append({"obligation": "no unexpected exception", "assignment": a or {}, "goal": f"{type(exc).__name__}: {exc} [{where}]", "path": E.paths, "exception": True})
        if a is not None:
            witnesses.append(a)
        return len(E.obligations) - n0
    results = E.explore(body)
    counts = {}
    for kind, val in results:
        counts[kind] = counts.get(kind, 0) + 1
        if kind in ("unsupported", "budget") and len(errors) < 12:
            errors.append(f"{kind}: {val}")
    obs = {}
    for o in E.obligations:
        k = (o.name, o.status, o.backend)
        q = obs.setdefault(k, [0, 0.0, o.detail])
        q[0] += 1
        q[1] += o.time
    return {"contract": contract.id, "choices": choices, "paths": counts, "errors": errors,
            "obligations": [{"name": k[0], "status": k[1], "backend": k[2], "count": v[0], "time": round(v[1], 3), "detail": v[2]} for k, v in obs.items()],
            "refuted": refuted, "witnesses": witnesses, "solver_time": round(E.solver_time, 3), "queries": E.queries}
