"""The trusted contracts of the window functions of NumPy and SciPy.

A window function of the length M is an opaque function (M, parameters, i) -> number, of which only the
length, the symmetry and the value of the window with a single sample are known.
"""
import inspect
import z3
from . import core, npshim, arrays
from .winfn import real_function
from .core import SVal, SReal, Unsupported, zint, zreal

NUMPY = ("bartlett", "blackman", "hamming", "hanning", "kaiser")
SCIPY = ("barthann", "blackmanharris", "bohman", "boxcar", "chebwin", "cosine", "exponential", "flattop", "gaussian", "general_cosine", "general_gaussian",
         "general_hamming", "hamming", "hann", "kaiser", "nuttall", "parzen", "triang", "bartlett", "blackman", "tukey", "dpss", "lanczos", "taylor", "kaiser_bessel_derived")
SYNONYMS = {"scipy.hann": "numpy.hanning", "scipy.hamming": "numpy.hamming", "scipy.bartlett": "numpy.bartlett", "scipy.blackman": "numpy.blackman", "scipy.kaiser": "numpy.kaiser"}


def bind(name, args, kwargs):
    """(name, parameters, symmetric): a normal form of the call"""
    if name.startswith("numpy."):
        b = inspect.signature(real_function(name)).bind(None, *args, **kwargs)
        b.apply_defaults()
        p = [v for k, v in b.arguments.items() if k != "M"]
        return name, p, True
    b = inspect.signature(real_function(name)).bind(None, *args, **kwargs)
    b.apply_defaults()
    sym = b.arguments.pop("sym", True)
    b.arguments.pop("M")
    b.arguments.pop("xp", None)
    b.arguments.pop("device", None)
    return SYNONYMS.get(name, name), list(b.arguments.values()), sym


def flat(params):
    names, numbers = [], []
    for p in params:
        if isinstance(p, (tuple, list)):
            n, r = flat(p)
            names.append("(" + ",".join(n) + ")")
            numbers.extend(r)
        elif isinstance(p, (bool, str)) or p is None:
            names.append(repr(p))
        elif core.is_reallike(p):
            names.append("#")
            numbers.append(z3.simplify(zreal(p)))
        else:
            raise Unsupported("parameter of a window function")
    return names, numbers


def value(name, params, M, i, symmetric=True):
    """the sample i of the window with M samples"""
    E = core.E
    names, numbers = flat(params)
    sort = core.RealS if E.real_mode else core.V
    f = z3.Function(f"window:{name}({','.join(names)})", core.IntS, *([core.RealS] * len(numbers)), core.IntS, sort)
    m, k = z3.simplify(zint(M)), z3.simplify(zint(i))
    v = f(m, *numbers, k)
    wrap = SReal if E.real_mode else SVal
    if symmetric:
        if v.get_id() not in E.windows:
            E.windows[v.get_id()] = v
            E.axiom(z3.Implies(z3.And(k >= 0, k < m), v == f(m, *numbers, z3.simplify(m - 1 - k))))
            one = wrap(v) == 1.0
            E.axiom(z3.Implies(z3.And(m == 1, k == 0), core.zbool(one)))
    return wrap(v)


def window(name):
    def call(M, *args, **kwargs):
        if core.E is None or not npshim.contains_sym((M, args, kwargs)):
            return real_function(name)(M, *args, **kwargs)
        n, params, sym = bind(name, args, kwargs)
        if not core.is_intlike(M):
            raise Unsupported("the length of a window function")
        if not core.E.entails(zint(M) >= 0):
            raise Unsupported("the length of a window function")
        m = M if sym else M + 1
        return arrays.fresh_array((M,), lambda idx: value(n, params, m, idx[0]), arrays.F8)
    call.__name__ = name
    return call


def curve(name):
    """an arbitrary function, that computes as many samples, as it is asked for"""
    def call(M):
        if not core.E.entails(zint(M) >= 0):
            raise Unsupported("the length of a window function")
        return arrays.fresh_array((M,), lambda idx: value("in:" + name, (), M, idx[0], False), arrays.F8)
    return call


class Proxy:
    """a module, of which only the functions in ``known`` have contracts"""
    def __init__(self, name, known):
        self.__dict__["vc_module"], self.__dict__["vc_known"] = name, known

    def __getattr__(self, n):
        if n in self.vc_known:
            return self.vc_known[n]
        import importlib
        f = getattr(importlib.import_module(self.vc_module), n)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            if core.E is None or not npshim.contains_sym((a, k)):
                return f(*npshim.real_args(a), **npshim.real_kwargs(k))
            raise Unsupported(f"{self.vc_module}.{n}")
        return g


WINDOWS = Proxy("scipy.signal.windows", {n: window("scipy." + n) for n in SCIPY})
SIGNAL = Proxy("scipy.signal", {"windows": WINDOWS})
SCIPY_MODULE = Proxy("scipy", {"signal": SIGNAL})
for _n in NUMPY:
    setattr(npshim.NP, _n, staticmethod(window("numpy." + _n)))
