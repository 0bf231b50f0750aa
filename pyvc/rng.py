"""The trusted contracts of NumPy's random number generators and of SciPy's maximum length sequence.

A generator is determined by its seed.  The result of the n-th method call of a generator is an opaque function
of the seed, n, the method, its parameters and the index of the element."""
import z3
from . import core, npshim, arrays, windows
from .core import SReal, SVal, SBool, SInt, Unsupported, zint, zreal

DISTRIBUTIONS = {"uniform": ("low", "high"), "normal": ("loc", "scale"), "poisson": ("lam",), "laplace": ("loc", "scale"), "vonmises": ("mu", "kappa"),
                 "triangular": ("left", "mode", "right"), "geometric": ("p",), "hypergeometric": ("ngood", "nbad", "nsample"), "binomial": ("n", "p"), "beta": ("a", "b"),
                 "gamma": ("shape", "scale"), "logseries": ("p",), "logistic": ("loc", "scale"), "pareto": ("a",), "wald": ("mean", "scale"), "chisquare": ("df",),
                 "exponential": ("scale",), "standard_normal": (), "random": ()}
DEFAULTS = {"uniform": (0.0, 1.0), "normal": (0.0, 1.0), "poisson": (1.0,), "laplace": (0.0, 1.0), "logistic": (0.0, 1.0), "gamma": (None, 1.0), "exponential": (1.0,)}
INTEGERS = ("poisson", "geometric", "hypergeometric", "binomial", "logseries")


def seed_term(seed):
    if isinstance(seed, (SInt, int)) and not isinstance(seed, bool):
        return zint(seed)
    raise Unsupported("the seed of a random number generator")


def draw(method, seed, call, params, i):
    """the element i of the result of a method"""
    E = core.E
    sort = core.RealS if E.real_mode else core.V
    f = z3.Function(f"random:{method}:{len(params)}", core.IntS, core.IntS, *([core.RealS] * len(params)), core.IntS, sort)
    v = f(seed, z3.IntVal(call), *[z3.simplify(zreal(p)) for p in params], zint(i))
    return SReal(v) if E.real_mode else SVal(v)


class Generator:
    def __init__(self, seed):
        E = core.E
        self.seed = E.fresh("entropy", core.IntS) if seed is None else seed_term(seed)
        self.calls = 0

    def _next(self):
        self.calls += 1
        return self.calls - 1

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if tuple(a) not in ((False, True), (True, False)) or size is None or not replace or p is not None:
            raise Unsupported("random choice")
        f = z3.Function("random:choice", core.IntS, core.IntS, core.IntS, core.BoolS)
        call = z3.IntVal(self._next())
        return arrays.fresh_array((size,), lambda idx: SBool(f(self.seed, call, zint(idx[0]))), arrays.B1)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if size is not None:
            raise Unsupported("random integers")
        if high is None:
            low, high = 0, low
        if not endpoint:
            high = high - 1
        if core.E.decide(zint(low) > zint(high)):
            raise ValueError("low >= high")
        f = z3.Function("random:integers", core.IntS, core.IntS, core.IntS, core.IntS, core.IntS)
        r = f(self.seed, z3.IntVal(self._next()), zint(low), zint(high))
        core.E.axiom(z3.And(r >= zint(low), r <= zint(high)))
        return core.mkint(r)

    def __getattr__(self, method):
        if method not in DISTRIBUTIONS:
            raise Unsupported("random generator: " + method)
        names = DISTRIBUTIONS[method]

        def call(*args, size=None, **kwargs):
            values = dict(zip(names, DEFAULTS.get(method, [None] * len(names))))
            if len(args) > len(names):
                size, args = args[len(names)], args[:len(names)]
            values.update(zip(names, args))
            for k, v in kwargs.items():
                if k not in names:
                    raise TypeError(f"{method}() got an unexpected keyword argument '{k}'")
                values[k] = v
            params = list(values.values())
            if size is None or any(v is None or not core.is_reallike(v) for v in params):
                raise Unsupported("random numbers")
            n, seed = self._next(), self.seed
            return arrays.fresh_array((size,), lambda idx: draw(method, seed, n, params, idx[0]), arrays.F8)
        return call


class Random:
    """the shim for ``numpy.random``"""
    __name__ = "numpy.random"
    Generator = Generator

    @staticmethod
    def default_rng(seed=None):
        if core.E is None:
            import numpy
            return numpy.random.default_rng(seed)
        return Generator(seed)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return npshim.Missing("random." + n)


def mls(bits, i):
    """the element i of a maximum length sequence (zero or one), which repeats itself after 2 ** bits - 1 elements"""
    E = core.E
    f = z3.Function(f"mls:{bits}", core.IntS, core.IntS)
    v = f(zint(i) % (2 ** bits - 1))
    E.axiom(z3.Or(v == 0, v == 1))
    return core.mkint(v)


def max_len_seq(nbits, state=None, length=None, taps=None):
    import scipy.signal
    if core.E is None:
        return scipy.signal.max_len_seq(nbits, state, length, taps)
    if taps is not None or not isinstance(nbits, int):
        raise Unsupported("maximum length sequences of this kind")
    if nbits < 2 or nbits > 32:
        raise ValueError("nbits must be between 2 and 32 if taps is None")
    if state is not None:
        state = arrays.as_array(state)
        if state.ndim != 1 or core.E.decide(zint(state.shape[0]) != nbits):
            raise ValueError("state must be a 1-D array of size nbits")
        if core.E.decide(z3.Not(z3.Or(*[core.zbool(state.at((i,)) != 0) if not isinstance(state.at((i,)), (bool, SBool)) else core.zbool(state.at((i,))) for i in range(nbits)]))):
            raise ValueError("state must not be all zeros")
    if length is None:
        length = 2 ** nbits - 1
    elif core.E.decide(zint(length) < 0):
        raise ValueError("length must be greater than or equal to 0")
    return arrays.fresh_array((length,), lambda idx: mls(nbits, idx[0]), arrays.I1), npshim.Missing("the final state of a shift register")


npshim.NP.random = Random()
windows.SIGNAL.vc_known["max_len_seq"] = max_len_seq
