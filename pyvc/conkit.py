"""Concrete inputs and the concrete kit: contracts as run-time checks on the unmodified real code.

This module runs in a separate process, that imports the plain package from the
repository (without any instrumentation).  It replays models of the verifier and
performs the bounded run-time contract checks."""
import cmath
import hashlib
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy

MAX_ELEMENTS = 400000


class Reject(BaseException):
    """the precondition is not fulfilled"""


class TooBig(BaseException):
    """the input cannot be constructed with reasonable effort"""


class Timeout(BaseException):
    pass


class Failed(BaseException):
    def __init__(self, name, detail):
        super().__init__(name)
        self.name, self.detail = name, detail


def rng_of(*key):
    return numpy.random.Generator(numpy.random.PCG64(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "little")))


def random_term(S, seed, zero, transform, depth=2):
    """a term of a random class with the given properties"""
    for k in range(20):
        t = _random_term(S, f"{seed}:{k}" if k else seed, zero, transform, depth)
        if zero or not t.is_zero():
            break
    return t


def _random_term(S, seed, zero, transform, depth):
    r = random.Random(f"{seed}:{depth}")
    F = S.Filter

    def number():
        x = r.choice([1.0, 2.0, -1.0, 0.5, r.uniform(-3, 3), r.uniform(0.2, 2)])
        return x
    if zero:
        z = r.choice([0, 1, 2])
        sub = random_term(S, f"{seed}:z", False, transform, 0)
        if z == 0:
            return F.Constant(0.0)
        if z == 1:
            return sub * F.Constant(0.0)
        return type(F.Polynomial((1.0, 1.0)))(coefficients=r.choice([[], [0.0], (0.0, 0.0), numpy.zeros(2)]), transform=transform)
    k = r.choice(["constant", "polynomial", "exp"] if depth == 0 else ["constant", "polynomial", "polynomial", "exp", "absolute", "negative", "sum", "difference", "product", "quotient", "sum2", "product2"])
    sub = lambda i: random_term(S, f"{seed}:{i}", False, r.random() < 0.3, depth - 1)     # noqa: E731
    if k == "constant":
        return F.Constant(number() if r.random() < 0.8 else complex(number(), number()))
    if k == "polynomial":
        c = [number() for _ in range(r.randint(1, 4))]
        return F.Polynomial(r.choice([list, tuple, numpy.array])(c), transform)
    if k == "exp":
        return F.Exp(number() * 0.3, transform)
    if k == "absolute":
        return F.Absolute(sub(0), transform)
    if k == "negative":
        return F.Negative(sub(0), transform)
    if k == "sum":
        return F.Sum(tuple(sub(i) for i in range(r.randint(2, 4))), transform)
    if k == "product":
        return F.Product(tuple(sub(i) for i in range(r.randint(2, 4))), transform)
    if k == "difference":
        return F.Difference(sub(0), sub(1), transform)
    if k == "quotient":
        return F.Quotient(sub(0), sub(1), transform)
    if k == "sum2":
        return sub(0) + sub(1)
    return sub(0) * sub(1)


class ConInputs:
    symbolic = False

    def __init__(self, S, choices, assignment=None, seed=0, size=8, variant=0):
        self.S, self.choices, self.given, self.seed, self.size, self.variant = S, choices, assignment or {}, seed, size, variant
        self.used = {}
        self.random = random.Random(f"{seed}:{sorted(choices.items())}")
        self.frozen = []
        self.elements = 0
        self.made_terms = {}
        self.folder = None

    def __getitem__(self, name):
        return self.choices[name]

    def int(self, name, lo=None, hi=None, near=None):
        if name in self.given:
            v = int(self.given[name])
        else:
            r = self.random
            if lo is not None and hi is not None:
                v = r.randint(int(lo), max(int(lo), min(int(hi), int(lo) + 4 * self.size)))
                if r.random() < 0.3:
                    v = r.randint(int(lo), max(int(lo), min(int(hi), int(lo) + 3)))
            elif lo is not None:
                v = int(lo) + (r.randint(0, 3) if r.random() < 0.5 else r.randint(0, self.size))
            elif hi is not None:
                v = int(hi) - (r.randint(0, 3) if r.random() < 0.5 else r.randint(0, self.size))
            else:
                v = r.randint(-3, 3) if r.random() < 0.5 else r.randint(-self.size - 2, self.size + 2)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, positive=False):
        if name in self.given:
            v = float(self.given[name])
        else:
            r = self.random
            if lo is not None and hi is not None:
                v = r.choice([r.uniform(lo, hi), r.uniform(lo, hi), lo, hi, (lo + hi) / 2])
            elif positive:
                v = r.choice([1.0, 2.0, 0.5, 48000.0, 44100.0, 17.0, r.uniform(0.01, 100.0)])
                if lo is not None:
                    v = max(v, lo)
            elif lo is not None:
                v = lo + r.choice([0.0, 1.0, r.uniform(0.0, 10.0)])
            elif hi is not None:
                v = hi - r.choice([0.0, 1.0, r.uniform(0.0, 10.0)])
            else:
                v = r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-10, 10), r.uniform(-3, 3), float(r.randint(-9, 9))])
        if positive and not v > 0 or lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        self.used[name] = v
        return v

    def univariate(self):
        pass

    def bool(self, name):
        v = bool(self.given[name]) if name in self.given else self.random.random() < 0.5
        self.used[name] = v
        return v

    def cplx(self, name):
        return complex(self.real(name + ".re"), self.real(name + ".im"))

    def num(self, name):
        r = random.Random(f"{self.seed}:{name}:{self.variant}")
        return r.choice([2.0, -1.5, 0.0, 1.0, -1.0, 3, r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-3, 3)])

    def assume(self, cond):
        if not cond:
            raise Reject()

    def _data(self, name, shape, cplx):
        size = 1
        for s in shape:
            if s < 0:
                raise Reject()
            size *= s
        self.elements += size
        if self.elements > MAX_ELEMENTS or any(s > MAX_ELEMENTS for s in shape):
            raise TooBig()
        g = rng_of(self.seed, name, self.variant)
        mode = g.integers(0, 6)
        if mode == 0:
            x = g.integers(-3, 4, size=shape).astype(float)
        elif mode == 1:
            x = numpy.round(g.uniform(-4, 4, size=shape), 1)
        elif mode == 2 and self.variant % 2:
            x = numpy.where(g.random(size=shape) < 0.5, 0.0, g.normal(size=shape))
        else:
            x = g.normal(size=shape)
        if cplx:
            x = x + 1j * g.normal(size=shape)
        return x

    def points(self, name, n, positive=False):
        """an array of n strictly increasing numbers"""
        if n > 2000:
            raise TooBig()
        r = random.Random(f"{self.seed}:{name}:{self.variant}")
        steps = [r.choice([1.0, 0.5, 2.0, r.uniform(0.1, 5.0), r.uniform(0.1, 50.0)]) for _ in range(n)]
        x = numpy.cumsum(steps) if n else numpy.empty(0)
        if not positive and r.random() < 0.6:
            x = x - r.choice([0.0, x[0] if n else 0.0, r.uniform(-50.0, 50.0)])
        elif r.random() < 0.5:
            x = x * r.choice([0.01, 20.0, 1000.0])
        self.frozen.append((name, x, x.copy()))
        return x

    def around(self, name, n, xs, positive=False):
        if n > 2000:
            raise TooBig()
        r = random.Random(f"{self.seed}:{name}:{self.variant}")
        lo, hi = (float(xs[0]), float(xs[-1])) if len(xs) else (1.0, 2.0)
        w = hi - lo or 1.0
        out = []
        for _ in range(n):
            i = r.randrange(len(xs)) if len(xs) else None
            v = r.choice([r.uniform(lo - w, hi + w), r.uniform(lo, hi), lo if i is None else float(xs[i]),
                          lo if i is None else float(xs[i]), hi if not i else (float(xs[i]) + float(xs[i - 1])) / 2 + r.choice([-0.01, 0.0, 0.01])])
            out.append(abs(v) + 0.001 if positive and v <= 0 else v)
        x = numpy.array(out, dtype=float)
        self.frozen.append((name, x, x.copy()))
        return x

    def interpolated(self, xs, ys):
        """(name of an interpolation flag, x) -> the interpolated value"""
        i = self.S._internal.interpolation
        return lambda flag, x: i.get(self.S.Bands.interpolations[flag])(numpy.array([x]), xs, ys)[0]

    def path(self, extension, name="file"):
        """the path of a file, that does not exist, in a scratch folder (which is removed after the run)"""
        if self.folder is None:
            self.folder = tempfile.mkdtemp(prefix="vc_files_")
        return os.path.join(self.folder, name + extension)

    def scratch(self, name, shape, dtype="float64"):
        """an array with arbitrary content, that may be written to"""
        x = self.array(name, shape, dtype)
        self.frozen.pop()
        return x

    def copy(self, arr):
        """another array with the same content"""
        x = numpy.array(arr)
        self.frozen.append(("copy", x, x.copy()))
        return x

    def curve(self, name):
        """a function, that returns an array with as many samples, as it is asked for"""
        r = random.Random(f"{self.seed}:{name}:{self.variant}")

        def lopsided(n):
            return numpy.sqrt(numpy.arange(1, n + 1) / (n + 1.0)) * numpy.arange(n, 0, -1) / n if n else numpy.empty(0)
        return r.choice([numpy.blackman, numpy.hanning, numpy.bartlett, lopsided, lopsided])

    def between(self, name, lo=None, hi=None):
        """a number between two others (both excluded)"""
        r = random.Random(f"{self.seed}:{name}:{self.variant}")
        if lo is not None and hi is not None:
            v = lo + (hi - lo) * r.choice([0.5, 0.25, 0.9, r.uniform(0.01, 0.99), r.uniform(0.01, 0.99)])
        elif lo is not None:
            v = lo + r.choice([1.0, 0.01, 100.0, r.uniform(0.01, 10.0)])
        else:
            v = hi - r.choice([1.0, 0.01, 100.0, r.uniform(0.01, 10.0)])
        self.used[name] = v
        return v

    def array(self, name, shape, dtype="float64", kind=None, positive=False):
        shape = tuple(int(s) for s in shape)
        dt = numpy.dtype(dtype)
        x = self._data(name, shape, dt.kind == "c")
        if self.variant == 0 and "@" in "".join(k[0] for k in self.given):
            for part, key in (("re", name + ".re"), ("im", name + ".im"), ("re", name)):
                t = self.given.get("@" + key)
                if t is None:
                    continue
                y = numpy.full(shape, float(t["else"] or 0))
                for k, v in t["entries"].items():
                    try:
                        idx = tuple(int(q) for q in k.split(","))
                    except ValueError:
                        continue
                    if len(idx) == len(shape) and all(0 <= i < s for i, s in zip(idx, shape)):
                        y[idx] = v
                if dt.kind == "c":
                    x = (y + 1j * x.imag) if part == "re" else (x.real + 1j * y)
                else:
                    x = y
        if positive:
            x = numpy.abs(x) + 0.01
        x = numpy.array(x, dtype=dt)
        if x.size == 0:
            x = numpy.empty(shape, dtype=dt)
        self.frozen.append((name, x, x.copy()))
        return x

    def invariant(self, f):
        pass

    def content(self, f):
        pass

    def log2_fact(self, x, b):
        pass

    def term(self, name, like=None, compact=True, zero=None, transform=None):
        """an arbitrary term of a transfer function"""
        zero, transform = self.bool(name + ".zero") if zero is None else zero, self.bool(name + ".transform") if transform is None else transform
        if like is not None and self.bool(name + ".equal"):
            return random_term(self.S, *self.made_terms[id(like)][1])
        if zero == "nowhere":       # a term, that is not zero at any frequency
            zero = False
            r = random.Random(f"{self.seed}:{name}:{self.variant}")
            return self.S.Filter.Exp(r.uniform(-0.3, 0.3), transform) if r.random() < 0.5 else self.S.Filter.Constant(r.choice([1.0, 2.5, -0.3 + 0.1j]))
        if name + ".zero" not in self.given:
            zero = zero and self.random.random() < 0.3
        t = random_term(self.S, f"{self.seed}:{name}:{self.variant}", zero, transform)
        self.made_terms[id(t)] = (t, (f"{self.seed}:{name}:{self.variant}", zero, transform))
        return t

    def terms(self, name, n, compact=True, zero=None, transform=None, like=None):
        if n > 200:
            raise TooBig()
        return tuple(self.term(f"{name}.{i}", like=like[i] if like is not None and i < len(like) else None, zero=zero, transform=transform) for i in range(n))

    def seq(self, name, n, kind="tuple"):
        x = self._data(name, (n,), False).tolist()
        return tuple(x) if kind == "tuple" else list(x)

    def label_seq(self, name, n):
        if n > MAX_ELEMENTS:
            raise TooBig()
        r = random.Random(f"{self.seed}:{name}:{self.variant}:labels")
        if r.random() < 0.6:
            return tuple(f"{name}:{i}" for i in range(n))
        return tuple(r.choice(LABELS) for _ in range(n))     # repeated, empty and unusual labels

    @staticmethod
    def labels_of(n, fn):
        return tuple(fn(i) for i in range(n))

    def label(self, name):
        return f"label {name}"

    def signal(self, name, channels=None, length=None, offset=None, sampling_rate=None, min_channels=0, min_length=0, kind=None, dtype="float64"):
        c = channels if channels is not None else self.int(name + ".channels", min_channels)
        n = length if length is not None else self.int(name + ".length", min_length)
        o = offset if offset is not None else self.int(name + ".offset")
        sr = sampling_rate if sampling_rate is not None else self.real(name + ".sampling_rate", positive=True)
        return self.S.Signal(channels=self.array(name, (c, n), dtype, kind), sampling_rate=sr, offset=o, labels=self.label_seq(name + ".labels", c))

    def spectrum(self, name, channels=None, length=None, resolution=None, min_channels=0, min_length=0, kind=None, dtype="complex128"):
        c = channels if channels is not None else self.int(name + ".channels", min_channels)
        n = length if length is not None else self.int(name + ".length", min_length)
        r = resolution if resolution is not None else self.real(name + ".resolution", positive=True)
        return self.S.Spectrum(channels=self.array(name, (c, n), dtype, kind), resolution=r, labels=self.label_seq(name + ".labels", c))

    def spectrogram(self, name, channels=None, frequencies=None, length=None, offset=None, resolution=None, sampling_rate=None, min_channels=0, min_length=0, min_frequencies=0, kind=None, dtype="complex128"):
        c = channels if channels is not None else self.int(name + ".channels", min_channels)
        m = frequencies if frequencies is not None else self.int(name + ".frequencies", min_frequencies)
        n = length if length is not None else self.int(name + ".length", min_length)
        o = offset if offset is not None else self.int(name + ".offset")
        r = resolution if resolution is not None else self.real(name + ".resolution", positive=True)
        sr = sampling_rate if sampling_rate is not None else self.real(name + ".sampling_rate", positive=True)
        return self.S.Spectrogram(channels=self.array(name, (c, m, n), dtype, kind), resolution=r, sampling_rate=sr, offset=o, labels=self.label_seq(name + ".labels", c))


def close(a, b, tol=1e-9):
    if a is b:
        return True
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return (type(a) is type(b) or isinstance(a, str) and isinstance(b, str)) and a == b
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list, numpy.ndarray)) or not isinstance(b, (tuple, list, numpy.ndarray)) or len(a) != len(b):
            return False
        return all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        a, b = numpy.asarray(a), numpy.asarray(b)
        return a.shape == b.shape and all(close(x, y, tol) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    try:
        x, y = complex(a), complex(b)
    except TypeError:
        return bool(a == b)
    for p, q in ((x.real, y.real), (x.imag, y.imag)):
        if math.isnan(p) or math.isnan(q):
            if math.isnan(x.real) or math.isnan(x.imag):
                return math.isnan(y.real) or math.isnan(y.imag)
            return False
    if x == y:
        return True
    if any(math.isinf(v) for v in (x.real, x.imag, y.real, y.imag)):
        return False
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def inexact(y):
    """a number, that stands for no mathematical number"""
    try:
        y = complex(y)
    except (TypeError, ValueError):
        return False
    return not (abs(y.real) < 1e12 and abs(y.imag) < 1e12)


class ConKit:
    symbolic = False
    mathematical = False        # the contract is about mathematical numbers

    def __init__(self, inputs):
        self.I = inputs
        self.checks = 0

    @staticmethod
    def ite(c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    @staticmethod
    def and_(*xs): return all(bool(x) for x in xs)

    @staticmethod
    def or_(*xs): return any(bool(x) for x in xs)

    @staticmethod
    def not_(x): return not x

    @staticmethod
    def implies(a, b): return (not a) or bool(b)

    @staticmethod
    def iff(a, b): return bool(a) == bool(b)

    @staticmethod
    def min(*xs): return min(xs)

    @staticmethod
    def max(*xs): return max(xs)

    @staticmethod
    def abs(x): return abs(x)

    @staticmethod
    def op(name, *xs):
        return getattr(numpy, name)(*xs)

    len = staticmethod(len)

    @staticmethod
    def round(x): return int(round(x))

    @staticmethod
    def trunc(x): return int(x)

    @staticmethod
    def floor(x): return math.floor(x)

    @staticmethod
    def ceil(x): return math.ceil(x)

    @staticmethod
    def same(a, b): return close(a, b)

    @staticmethod
    def shape(x): return tuple(x.shape)

    @staticmethod
    def dtype(x): return x.dtype.name

    @staticmethod
    def fn(name, *xs):
        return getattr(numpy, name)(*xs).item()

    @staticmethod
    def draws(method, seed, *params):
        cache = {}

        def value(n, i):
            if n not in cache:
                cache[n] = getattr(numpy.random.default_rng(seed), method)(*params, size=n)
            return cache[n][i].item()
        return value

    @staticmethod
    def pow2(k):
        return 2 ** k

    @staticmethod
    def rudin_shapiro(n, k=None):
        return -1 if bin(n & (n >> 1)).count("1") % 2 else 1

    def same_hash(self, name, a, b):
        self.check(name, hash(a) == hash(b))

    @staticmethod
    def window(name, *args, **kwargs):
        from .winfn import real_function
        f, cache = real_function(name), {}

        def value(M, i):
            if M not in cache:
                cache[M] = f(M, *args, **kwargs)
            return cache[M][i].item()
        return value

    @staticmethod
    def curve(function):
        cache = {}

        def value(M, i):
            if M not in cache:
                cache[M] = function(M)
            return cache[M][i].item()
        return value

    @staticmethod
    def cplx(re, im):
        return complex(re, im)

    @staticmethod
    def elem(arr):
        c = numpy.array(arr)
        return lambda *idx: c[tuple(int(i) for i in idx)].item() if all(i >= 0 for i in idx) else _negative()

    @staticmethod
    def item(seq, i): return seq[i]

    @staticmethod
    def sum(n, f):
        r = 0.0
        for i in range(n):
            r = r + f(i)
        return r

    @staticmethod
    def bisum(f):
        r = 0.0
        for i in range(-120, 121):
            r = r + f(i)
        return r

    @staticmethod
    def dft(n, k, f):
        return sum(f(t) * cmath.exp(-2j * math.pi * ((k * t) % n) / n) for t in range(n))

    @staticmethod
    def irdft(n, t, f):
        r = 0.0
        for k in range(n // 2 + 1):
            r += (f(k) * cmath.exp(2j * math.pi * ((k * t) % n) / n)).real * (1.0 if k == 0 or 2 * k == n else 2.0)
        return r / n

    def check(self, name, cond):
        self.checks += 1
        if not cond:
            raise Failed(name, "condition is false")

    def eq(self, name, a, b, tol=1e-9):
        self.checks += 1
        if self.mathematical and not isinstance(b, (str, bytes, tuple, list, numpy.ndarray)) and inexact(b):
            raise Reject()
        if not close(a, b, tol or 1e-9):
            raise Failed(name, f"{a!r:.300} != {b!r:.300}")

    def near(self, name, a, b, scale, tolerance):
        """|a - b| <= tolerance * scale"""
        self.checks += 1
        if not abs(a - b) <= tolerance * scale:
            raise Failed(name, f"{a!r:.300} != {b!r:.300} (scale {scale!r:.300})")

    def forall(self, name, bounds, fn):
        import itertools
        for idx in itertools.product(*(range(int(n)) for n in bounds)):
            self.checks += 1
            r = fn(*idx)
            if isinstance(r, tuple):
                if self.mathematical and inexact(r[1]):
                    continue
                if not close(*r):
                    raise Failed(name, f"at {idx}: got {r[0]!r:.200}, expected {r[1]!r:.200}")
            elif not r:
                raise Failed(name, f"at {idx}")

    def array(self, name, arr, shape, elem, dtype=None):
        a = numpy.asarray(arr)
        if a.shape != tuple(shape):
            raise Failed(name + ".shape", f"got {a.shape}, expected {tuple(shape)}")
        if dtype is not None and a.dtype != numpy.dtype(dtype):
            raise Failed(name + ".dtype", f"got {a.dtype}, expected {dtype}")
        self.forall(name + ".elements", shape, lambda *idx: (a[idx].item(), elem(*idx)))

    def labels(self, name, labels, n, fn):
        if not isinstance(labels, tuple):
            raise Failed(name + ".tuple", f"{type(labels)}")
        if len(labels) != n:
            raise Failed(name + ".count", f"{len(labels)} labels, expected {n}")
        self.forall(name + ".text", [n], lambda i: (labels[i], fn(i)))

    @staticmethod
    def catch(fn):
        try:
            return None, fn()
        except Exception as e:      # pylint: disable=broad-except
            return e, None

    def raises(self, name, exc, fn):
        e, _ = self.catch(fn)
        self.check(name, isinstance(e, exc))

    def finish(self):
        for name, x, copy in self.I.frozen:
            if x.shape != copy.shape or not ((x == copy) | (numpy.isnan(x) & numpy.isnan(copy))).all():
                raise Failed("frame: operands unmodified", name)


LABELS = ("", "a", "b", "Sum", "ä ß", "x, y", "1.5", "a b")


def _negative():
    raise IndexError("negative index in a specification")


def run(contract, choices, S, assignment=None, seed=0, size=8, variant=0, limit=20):
    """returns (outcome, obligation, detail, used assignment)"""
    inputs = ConInputs(S, choices, assignment, seed, size, variant)
    kit = ConKit(inputs)
    kit.mathematical = contract.mode == "R"

    def alarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with numpy.errstate(all="ignore"):
                contract.fn(inputs, kit, S)
                kit.finish()
        return "pass", None, kit.checks, inputs.used
    except Reject:
        return "reject", None, None, inputs.used
    except (TooBig, MemoryError, OverflowError) as e:
        return "toobig", None, str(e), inputs.used
    except Failed as e:
        return "fail", e.name, e.detail, inputs.used
    except Timeout:
        return "fail", "termination", f"no result within {limit} s", inputs.used
    except Exception as e:      # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb[-6:]))
        return "fail", "no unexpected exception", f"{type(e).__name__}: {str(e)[:300]} [{where}]", inputs.used
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if inputs.folder is not None:
            shutil.rmtree(inputs.folder, ignore_errors=True)


def random_checks(contracts, S, seed, seconds, part=0, parts=1, only=None):
    """stratified random run-time contract checks; returns (counts, failures)"""
    jobs = [(c, ch) for c in contracts for ch in c.combinations() if only is None or [c.id, ch] in only]
    counts, fails = {}, []
    start = time.time()
    rnd = 0
    failed = set()
    if not jobs:
        return counts, fails
    weights = [(c, ch, max(1, int(c.weight))) for c, ch in jobs]
    while time.time() - start < seconds and rnd < 4000:
        progress = False
        for k, (c, ch, w) in enumerate(weights):
            if k % parts != part and len(weights) >= parts:
                continue
            key = (c.id, json.dumps(ch, sort_keys=True))
            if key in failed:
                continue
            if c.fixed_runs and rnd >= c.fixed_runs:
                continue
            if rnd and time.time() - start > seconds:
                break
            if time.time() - start > 2.5 * seconds + 5:
                break
            progress = True
            for rep in range(w):
                s = f"{seed}:{rnd}:{part if len(weights) < parts else 0}:{rep}"
                size = (4, 8, 8, 16, 40)[rnd % 5]
                o, name, detail, used = run(c, ch, S, seed=s, size=size, variant=rnd % 3)
                q = counts.setdefault(c.id, {"pass": 0, "reject": 0, "fail": 0, "toobig": 0, "checks": 0})
                q[o] += 1
                if o == "pass":
                    q["checks"] += detail
                if o == "fail":
                    failed.add(key)
                    fails.append({"contract": c.id, "choices": ch, "assignment": used, "seed": s, "size": size, "variant": rnd % 3, "obligation": name, "detail": detail, "source": "run-time contract check"})
                    break
        rnd += 1
        if not progress:
            break
    return counts, fails


def main():
    """protocol: JSON lines on stdin, JSON lines on stdout"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from pyvc import fakejack       # noqa: F401  pylint: disable=unused-import; provides the module jack
    import sumpf
    assert os.path.realpath(sumpf.__file__).startswith(os.path.realpath(repo) + "/"), sumpf.__file__
    from pyvc import api
    import contracts        # noqa: F401  pylint: disable=unused-import
    for line in sys.stdin:
        msg = json.loads(line)
        if msg["cmd"] == "random":
            cs = [c for c in api.contracts_of(msg["prop"]) if msg.get("thorough") or c.tier == "quick"]
            counts, fails = random_checks(cs, sumpf, msg["seed"], msg["seconds"], msg.get("part", 0), msg.get("parts", 1), msg.get("only"))
            out.write(json.dumps({"counts": counts, "fails": fails}) + "\n")
        elif msg["cmd"] == "run":
            c = api.find(msg["contract"])
            res = []
            for item in msg["items"]:
                o, name, detail, used = run(c, msg["choices"], sumpf, item.get("assignment"), item.get("seed", 0), item.get("size", 8), item.get("variant", 0))
                res.append({"outcome": o, "obligation": name, "detail": detail, "used": used})
            out.write(json.dumps({"results": res}) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
