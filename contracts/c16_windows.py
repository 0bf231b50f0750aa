"""C16: window functions and fades"""
import math
from pyvc.api import contract

BASE = ["sumpf._data._signals._windows.Window.__init__", "sumpf._internal.index"]


def one(K, M, i):
    return 1.0


def plain(name, *args, **kwargs):
    return lambda K, p: K.window(name, *args, **kwargs)


def chebyshev(K, p):
    w = K.window("scipy.chebwin", p)
    return lambda M, i: K.ite(M <= 2, 1.0, lambda: K.op("true_divide", w(M, i), w(M, M // 2)))


def exponential(K, p):
    # the ends of the window are p dB below its maximum: exp(-(M - 1) / 2 / tau) == 10 ** (-p / 20)
    return lambda M, i: K.ite(M == 1, 1.0, lambda: K.window("scipy.exponential", tau=10.0 * (M - 1) / (math.log(10) * p))(M, i))


def slepian(K, p):
    return lambda M, i: K.ite(M <= 2, 1.0, lambda: K.window("scipy.dpss", NW=p / math.pi, norm="subsample")(M, i))


WINDOWS = {
    "RectangularWindow": lambda K, p: lambda M, i: 1.0,
    "BartlettWindow": plain("numpy.bartlett"),
    "HannWindow": plain("numpy.hanning"),
    "HammingWindow": plain("numpy.hamming"),
    "BlackmanWindow": plain("numpy.blackman"),
    "KaiserWindow": lambda K, p: K.window("numpy.kaiser", p),
    "BartlettHannWindow": plain("scipy.barthann"),
    "BlackmanHarrisWindow": plain("scipy.blackmanharris"),
    "BohmanWindow": plain("scipy.bohman"),
    "DolphChebyshevWindow": chebyshev,
    "ExponentialWindow": exponential,
    "ExponentialWindow without decay": lambda K, p: lambda M, i: 1.0,
    "GaussianWindow": lambda K, p: lambda M, i: K.window("scipy.gaussian", std=p * (M - 1) / 2.0)(M, i),
    "ParzenWindow": plain("scipy.parzen"),
    "SlepianWindow": slepian,
}
PARAMETER = {"KaiserWindow": "beta", "DolphChebyshevWindow": "attenuation", "ExponentialWindow": "decay", "GaussianWindow": "standard_deviation", "SlepianWindow": "beta"}
# the coefficients of the windows, that are sums of cosines, and the factor, by which their sum is normalised
COSINES = {
    "FlatTopWindow": {
        "SFT3F": ((0.26526, 0.5, 0.23474), None),
        "SFT4F": ((0.21706, 0.42103, 0.28294, 0.07897), None),
        "SFT5F": ((0.1881, 0.36923, 0.28702, 0.13077, 0.02488), None),
        "SFT3M": ((0.28235, 0.52105, 0.19659), None),
        "SFT4M": ((0.241906, 0.460841, 0.255381, 0.041872), None),
        "SFT5M": ((0.209671, 0.407331, 0.281225, 0.092669, 0.0091036), None),
        "FTNI": ((0.2810639, 0.5208972, 0.1980399), None),
        "FTHP": ((1.0, 1.912510941, 1.079173272, 0.1832630879), 4.1749473009),
        "FTSRS": ((1.0, 1.93, 1.29, 0.388, 0.028), 4.635999999999999),
        "HFT70": ((1.0, 1.90796, 1.07349, 0.18199), 4.1634400000000005),
        "HFT90D": ((1.0, 1.942604, 1.340318, 0.440811, 0.043097), 4.766830000000001),
        "HFT95": ((1.0, 1.9383379, 1.3045202, 0.4028270, 0.0350665), 4.680751600000001),
        "HFT116D": ((1.0, 1.9575375, 1.4780705, 0.6367431, 0.1228389, 0.0066288), 5.2018188),
        "HFT144D": ((1.0, 1.96760033, 1.57983607, 0.81123644, 0.22583558, 0.02773848, 0.00090360), 5.6131505),
        "HFT169D": ((1.0, 1.97441842, 1.65409888, 0.95788186, 0.33673420, 0.06364621, 0.00521942, 0.00010599), 5.99210498),
        "HFT196D": ((1.0, 1.979280420, 1.710288951, 1.081629853, 0.448734314, 0.112376628, 0.015122992, 0.000871252, 0.000011896), 6.348316306),
        "HFT223D": ((1.0, 1.98298997309, 1.75556083063, 1.19037717712, 0.56155440797, 0.17296769663, 0.03233247087, 0.00324954578, 0.00013801040, 0.00000132725), 6.69917143974),
        "HFT248D": ((1.0, 1.985844164102, 1.791176438506, 1.282075284005, 0.667777530266, 0.240160796576, 0.056656381764, 0.008134974479, 0.000624544650, 0.000019808998, 0.000000132974), 7.032470056319999),
    },
    "NuttallWindow": {
        "NUTTALL3": ((0.375, 0.5, 0.125), None),
        "NUTTALL3A": ((0.40897, 0.5, 0.09103), None),
        "NUTTALL3B": ((0.4243801, 0.4973406, 0.0782793), None),
        "NUTTALL4": ((0.3125, 0.46875, 0.1875, 0.03125), None),
        "NUTTALL4A": ((0.338946, 0.481973, 0.161054, 0.018027), None),
        "NUTTALL4B": ((0.355768, 0.487396, 0.144232, 0.012604), None),
        "NUTTALL4C": ((0.3635819, 0.4891775, 0.1365995, 0.0106411), None),
    },
}


def choose_plateau(I, n):
    """the plateau argument and its number of samples"""
    if I["plateau"] == "none":
        return 0, 0
    if I["plateau"] == "integer":
        p = I.int("plateau", 0, n)
        return p, p
    p = I.real("plateau", 0.0, 1.0)
    return p, "fraction"


def check(I, K, w, formula, n, p, symmetric, sampling_rate):
    if p == "fraction":
        p = w.plateau()
    K.eq("length", w.length(), n)
    K.eq("offset", w.offset(), 0)
    K.eq("sampling rate", w.sampling_rate(), sampling_rate)
    K.eq("symmetric", w.symmetric(), symmetric)
    K.eq("plateau", w.plateau(), p)
    K.eq("number of labels", K.len(w.labels()), 1)
    more = 0 if symmetric else 1
    f = (n - p) // 2

    def value(c, i):
        return K.ite(p == 0, lambda: formula(n + more, i),
                     lambda: K.ite(i < f, lambda: formula(2 * f + more, i), lambda: K.ite(i < n - f, 1.0, lambda: formula(2 * f + more, i - (n - 2 * f)))))
    K.array("samples", w.channels(), (1, n), value)
    e = K.elem(w.channels())
    if symmetric:
        K.forall("symmetry", [n], lambda i: K.same(e(0, i), e(0, n - 1 - i)))
    else:
        # with a plateau, the first sample of the fade out is the central sample of the window function
        def mirrored(i):
            alone = K.or_(i == 0, K.and_(p > 0, K.or_(i == f, i == n - f)))
            return K.same(e(0, i), e(0, K.ite(alone, i, n - i)))
        K.forall("symmetry", [n], mirrored)


@contract("C16", functions=BASE + [f"sumpf.{w}._function" for w in WINDOWS if " " not in w], choices={"window": list(WINDOWS), "plateau": ["none", "integer", "fraction"], "symmetric": [True, False]})
def windows(I, K, S):
    """every sample of a window signal follows the window function; symmetric and periodic windows"""
    name = I["window"]
    n = I.int("length", 0)
    plateau, p = choose_plateau(I, n)
    rate = I.real("sampling_rate", positive=True)
    kw = {}
    v = None
    if name in PARAMETER:
        v = kw[PARAMETER[name]] = I.real("parameter", positive=True)
    if name == "ExponentialWindow without decay":
        name, kw["decay"] = "ExponentialWindow", 0.0
    if name == "SlepianWindow":     # the bandwidth of Slepian sequences is limited by their length
        q = K.round(plateau * n) if I["plateau"] == "fraction" else p
        m = K.ite(q == 0, n, 2 * ((n - q) // 2))
        m = m if I["symmetric"] else m + 1
        I.assume(K.or_(m <= 2, 2.0 * v < math.pi * m))
    w = getattr(S, name)(plateau=plateau, sampling_rate=rate, length=n, symmetric=I["symmetric"], **kw)
    if p == "fraction":
        K.eq("rounded plateau", w.plateau(), K.round(plateau * n))
    check(I, K, w, WINDOWS[I["window"]](K, v), n, p, I["symmetric"], rate)


def cosine_cases(c):
    return c["function"] in COSINES[c["window"]] and (c["plateau"] == "none" or c["function"] in ("HFT70", "NUTTALL4A"))


@contract("C16", functions=BASE + ["sumpf.FlatTopWindow._function", "sumpf.NuttallWindow._function"],
          choices={"window": list(COSINES), "function": [f for w in COSINES.values() for f in w], "plateau": ["none", "integer"], "symmetric": [True, False]}, where=cosine_cases)
def sums_of_cosines(I, K, S):
    """flat top and Nuttall windows have the coefficients, by which they are defined"""
    name, function = I["window"], I["function"]
    n = I.int("length", 0)
    plateau, p = choose_plateau(I, n)
    rate = I.real("sampling_rate", positive=True)
    a, total = COSINES[name][function]
    cls = getattr(S, name)
    w = cls(function=getattr(cls.functions, function), plateau=plateau, sampling_rate=rate, length=n, symmetric=I["symmetric"])
    g = K.window("scipy.general_cosine", a)
    check(I, K, w, g if total is None else (lambda M, i: K.op("true_divide", g(M, i), total)), n, p, I["symmetric"], rate)


@contract("C16", functions=BASE + ["sumpf.FlatTopWindow._function"], choices={"plateau": ["none", "integer"], "symmetric": [True, False]})
def default_functions(I, K, S):
    """the default flat top window is that of SciPy, the default Nuttall window is the four term window with minimal side lobes"""
    n = I.int("length", 0)
    plateau, p = choose_plateau(I, n)
    rate = I.real("sampling_rate", positive=True)
    for cls, formula in ((S.FlatTopWindow, K.window("scipy.flattop")), (S.NuttallWindow, K.window("scipy.general_cosine", COSINES["NuttallWindow"]["NUTTALL4C"][0]))):
        check(I, K, cls(plateau=plateau, sampling_rate=rate, length=n, symmetric=I["symmetric"]), formula, n, p, I["symmetric"], rate)


def position(I, K, name, form, n):
    """an index of a sample and the position, that it stands for"""
    if form == "fraction":
        v = I.real(name, -1.0, 1.0)
        p = K.round(v * n)
    else:
        v = p = I.int(name, 0 - n, n)
    return v, K.ite(p < 0, lambda: p + n, p)


def interval(I, K, name, n):
    form = I[name]
    if form == "none":
        return None, None
    if form in ("integer", "fraction"):
        v, p = position(I, K, name, form, n)
        return v, (0, p) if name == "rise" else (p, n)
    v0, p0 = position(I, K, name + ".start", "fraction" if form == "fractions" else "integer", n)
    v1, p1 = position(I, K, name + ".stop", "fraction" if form == "fractions" else "integer", n)
    I.assume(p0 <= p1)
    return (v0, v1), (p0, p1)


FORMS = ["none", "integer", "fraction", "pair", "fractions"]


@contract("C16", functions=["sumpf.Fade.__init__", "sumpf._data._signals._fade.fade_in_out", "sumpf._data._signals._fade.fade_out_in", "sumpf._internal.index"],
          choices={"rise": FORMS, "fall": FORMS},
          where=lambda c: "pair" in (c["rise"], c["fall"]) and "fractions" not in (c["rise"], c["fall"]) or "none" in (c["rise"], c["fall"]) or c["rise"] == c["fall"] == "integer")
def fades(I, K, S):
    """the transitions are those of the given function, the rest of the signal is zero or one"""
    n = I.int("length", 0)
    rise_interval, rise = interval(I, K, "rise", n)
    fall_interval, fall = interval(I, K, "fall", n)
    rate = I.real("sampling_rate", positive=True)
    function = I.curve("function")
    w = K.curve(function)
    s = S.Fade(function=function, rise_interval=rise_interval, fall_interval=fall_interval, sampling_rate=rate, length=n)
    K.eq("length", s.length(), n)
    K.eq("offset", s.offset(), 0)
    K.eq("sampling rate", s.sampling_rate(), rate)
    K.eq("number of labels", K.len(s.labels()), 1)

    def rising(i):      # zero, rising, one
        return [i < rise[0], i >= rise[1], lambda: w(2 * (rise[1] - rise[0]), i - rise[0])]

    def falling(i):     # zero, falling, one
        return [i >= fall[1], i < fall[0], lambda: w(2 * (fall[1] - fall[0]), fall[1] - fall[0] + i - fall[0])]

    def single(c):
        return K.ite(c[0], 0.0, lambda: K.ite(c[1], 1.0, c[2]))

    def value(c, i):
        if rise is None and fall is None:
            return 1.0
        if rise is None:
            return single(falling(i))
        if fall is None:
            return single(rising(i))
        r, f = rising(i), falling(i)

        def in_out():
            return K.ite(K.or_(r[0], f[0]), 0.0, lambda: K.ite(r[1], lambda: single(f), lambda: K.ite(f[1], r[2], lambda: K.op("multiply", r[2](), f[2]()))))

        def out_in():
            return K.ite(r[0], lambda: single(f), lambda: K.ite(f[0], lambda: single(r), lambda: K.op("add", single(f), single(r))))
        first = K.or_(rise[0] < fall[0], K.and_(rise[0] == rise[1], rise[0] == fall[0], K.not_(fall[0] == fall[1])))
        return K.ite(first, in_out, out_in)
    K.array("samples", s.channels(), (1, n), value)
