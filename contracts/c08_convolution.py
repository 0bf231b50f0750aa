"""C08: convolution and correlation"""
from pyvc.api import contract

MODES = ["FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED"]
OPERANDS = ["1:1", "n:1", "1:n", "n:m", "array1", "array2", "array2:1"]
CONV = ["sumpf.Signal.convolve"] + [f"sumpf._internal._convolution.{c}.{m}" for c in ("FullConvolution", "SameConvolution", "ValidConvolution", "SpectrumConvolution", "SpectrumPaddedConvolution") for m in ("with_vector", "with_vector2", "with_matrix")]
CORR = ["sumpf.Signal.correlate"] + [f"sumpf._internal._convolution.{c}.{m}" for c in ("FullCorrelation", "SameCorrelation", "ValidCorrelation", "SpectrumCorrelation", "SpectrumPaddedCorrelation") for m in ("with_vector", "with_vector2", "with_matrix")]
HELPERS = [f"sumpf._internal._convolution.{f}" for f in ("pad_vector", "pad_matrix", "shift_vector", "shift_matrix", "pad_and_shift_vector", "pad_and_shift_matrix", "cycle_vector", "cycle_matrix",
                                                        "pad_and_cycle_vector", "pad_and_cycle_matrix", "shift_and_cycle_vector", "shift_and_cycle_matrix")]


def operands(I, kind):
    """the signal, the argument, (channels, length, offset, samples) of the argument"""
    n = I.int("a.length", 1)
    m = I.int("b.length", 1)
    if kind in ("1:1", "1:n"):
        ca = 1
    elif kind == "n:m":
        ca = I.int("a.channels", 2)
    else:
        ca = I.int("a.channels", 1)
    a = I.signal("a", channels=ca, length=n)
    if kind == "array1":
        b = I.array("b", (m,))
        return a, b, 1, m, 0
    cb = 1 if kind in ("1:1", "n:1", "array2:1") else I.int("b.channels", 2)
    if kind in ("array2", "array2:1"):
        b = I.array("b", (cb, m))
        return a, b, cb, m, 0
    b = I.signal("b", channels=cb, length=m)
    return a, b, cb, m, b.offset()


def parameters(K, I, a, b, cb, op):
    """rows of the operands and of the result"""
    ca = a.shape()[0]
    ea = K.elem(a.channels())
    eb = K.elem(b.channels() if hasattr(b, "channels") else b)
    kind = I["operands"]
    if kind == "array1":
        fb = lambda c, k: eb(k)                          # noqa: E731
    elif kind in ("1:1", "n:1", "array2:1"):
        fb = lambda c, k: eb(0, k)                       # noqa: E731
    else:
        fb = lambda c, k: eb(c, k)                       # noqa: E731
    if kind in ("1:1", "1:n"):
        fa = lambda c, k: ea(0, k)                       # noqa: E731
    elif kind == "array2":
        fa = lambda c, k: ea(K.ite(ca == 1, 0, c), k)    # noqa: E731
    else:
        fa = lambda c, k: ea(c, k)                       # noqa: E731
    if kind in ("array1", "array2:1", "1:1", "n:1"):
        channels = ca
    elif kind == "1:n":
        channels = cb
    else:
        channels = K.ite(ca == 1, cb, K.min(ca, cb))
    return fa, fb, channels


@contract("C08", functions=CONV + HELPERS, choices={"mode": MODES, "operands": OPERANDS}, mode="V0")
def convolve(I, K, S):
    """sum over k of a(k)*b(t-k), where t is the point in time"""
    a, b, cb, m, ob = operands(I, I["operands"])
    n, oa = a.length(), a.offset()
    mode = I["mode"]
    fa, fb, channels = parameters(K, I, a, b, cb, "convolve")
    r = a.convolve(b, mode=S.Signal.convolution_modes[mode])
    lo, hi = K.min(n, m), K.max(n, m)
    length, first = {"FULL": (n + m - 1, 0), "SPECTRUM_PADDED": (n + m - 1, 0), "SAME": (hi, (lo - 1) // 2), "VALID": (hi - lo + 1, lo - 1), "SPECTRUM": (hi, 0)}[mode]
    K.check("type", type(r) is S.Signal)
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.eq("offset", r.offset(), oa + ob + first)
    K.eq("number of labels", K.len(r.labels()), channels)
    t0 = r.offset() - oa - ob
    period = hi + hi % 2

    def linear(c, j):
        t = j + t0
        return K.bisum(lambda k: K.ite(K.and_(k >= 0, k < n, t - k >= 0, t - k < m), lambda: K.op("multiply", fa(c, k), fb(c, t - k)), 0.0))

    def circular(c, j):
        t = j + t0

        def term(k):
            i = K.ite(t - k < 0, t - k + period, t - k)
            return K.ite(K.and_(k >= 0, k < n, i >= 0, i < m), lambda: K.op("multiply", fa(c, k), fb(c, i)), 0.0)
        return K.bisum(term)
    K.array("samples", r.channels(), (channels, length), circular if mode == "SPECTRUM" else linear)


@contract("C08", functions=CORR + HELPERS, choices={"mode": MODES, "operands": OPERANDS}, mode="V0")
def correlate(I, K, S):
    """sum over k of a(k)*b(k+t), where t is the time difference"""
    a, b, cb, m, ob = operands(I, I["operands"])
    n, oa = a.length(), a.offset()
    mode = I["mode"]
    fa, fb, channels = parameters(K, I, a, b, cb, "correlate")
    r = a.correlate(b, mode=S.Signal.convolution_modes[mode])
    lo, hi = K.min(n, m), K.max(n, m)
    # the full correlation starts with the lag 1-n, the other modes with a later one
    length, first = {"FULL": (n + m - 1, 0), "SPECTRUM_PADDED": (n + m - 1, 0), "SAME": (hi, (lo - 1) // 2), "VALID": (hi - lo + 1, lo - 1), "SPECTRUM": (hi, 0)}[mode]
    K.check("type", type(r) is S.Signal)
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.eq("offset", r.offset(), ob - oa + 1 - n + first)
    K.eq("number of labels", K.len(r.labels()), channels)
    t0 = 1 - n + first
    period = hi + hi % 2

    def linear(c, j):
        t = j + t0
        return K.bisum(lambda k: K.ite(K.and_(k >= 0, k < n, k + t >= 0, k + t < m), lambda: K.op("multiply", fa(c, k), fb(c, k + t)), 0.0))

    def circular(c, j):
        t = j + t0

        def term(k):
            i = K.ite(k + t < 0, k + t + period, K.ite(k + t >= period, k + t - period, k + t))
            return K.ite(K.and_(k >= 0, k < n, i >= 0, i < m), lambda: K.op("multiply", fa(c, k), fb(c, i)), 0.0)
        return K.bisum(term)
    K.array("samples", r.channels(), (channels, length), circular if mode == "SPECTRUM" else linear)


@contract("C08", functions=["sumpf.Signal.convolve", "sumpf.Signal.correlate"], choices={"method": ["convolve", "correlate"], "mode": MODES}, mode="V")
def numbers(I, K, S):
    """a number scales the signal"""
    a, x = I.signal("a"), I.num("x")
    ea = K.elem(a.channels())
    r = getattr(a, I["method"])(x, mode=S.Signal.convolution_modes[I["mode"]])
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.eq("offset", r.offset(), a.offset())
    K.array("samples", r.channels(), a.shape(), lambda c, t: K.op("multiply", ea(c, t), x))
    la = a.labels()
    K.labels("labels", r.labels(), a.shape()[0], lambda i: K.item(la, i))
