"""C13: filters combine and apply channel-wise"""
from pyvc.api import contract
from contracts.c12_terms import CLASSES, OPERATORS, nonzero, frequency, make as make_any


def make_term(I, K, S, cls, name):
    """a term of the given class without zero divisors"""
    if cls == "quotient":
        return S.Filter.Quotient(I.term(name + ".0", compact=False), I.term(name + ".1", compact=False, zero="nowhere"), I.bool(name + ".t"))
    return make_any(I, K, S, cls, name, None, compact=False)


def make(I, S, name, channels, divisor=False):
    return S.Filter(transfer_functions=I.terms(name, channels, zero=False if divisor else None), labels=I.label_seq(name + ".labels", channels))


@contract("C13", functions=["sumpf.Filter.__add__", "sumpf.Filter.__sub__", "sumpf.Filter.__mul__", "sumpf.Filter.__truediv__", "sumpf.Filter.__call__", "sumpf.Filter.labels"],
          choices={"operator": list(OPERATORS)}, mode="R")
def combining(I, K, S):
    """an operator between filters with any numbers of channels"""
    n, m = I.int("a.channels", 1), I.int("b.channels", 1)
    function, name = OPERATORS[I["operator"]]
    a, b = make(I, S, "a", n), make(I, S, "b", m, divisor=name == "true_divide")
    f = frequency(I)
    if K.not_(K.or_(n == 1, m == 1, n == m)):
        K.raises("incompatible channels", ValueError, lambda: function(a, b))
        return
    r = function(a, b)
    count = K.max(n, m)
    K.eq("channels", K.len(r), count)
    va, vb, vr = a(f), b(f), r(f)
    K.eq("values", K.len(vr), count)
    label = {"add": "Sum", "subtract": "Difference", "multiply": "Product", "true_divide": "Quotient"}[name]
    K.labels("labels", r.labels(), count, lambda i: label)

    def channel(i):
        x = K.item(va, K.ite(n == 1, 0, i))
        y = K.item(vb, K.ite(m == 1, 0, i))
        if name == "true_divide":
            nonzero(I, K, y)
        return K.item(vr, i), K.op(name, x, y)
    K.forall("values.elements", [count], channel)


UNARY = {"neg": (lambda a: -a, lambda K, v: K.op("negative", v)), "abs": (lambda a: abs(a), lambda K, v: K.op("absolute", v)),     # pylint: disable=unnecessary-lambda
         "invert": (lambda a: ~a, lambda K, v: K.op("true_divide", 1.0, v))}


@contract("C13", functions=["sumpf.Filter.__neg__", "sumpf.Filter.__abs__", "sumpf.Filter.__invert__", "sumpf.Filter.__call__", "sumpf.Filter.labels"],
          choices={"operator": list(UNARY)}, mode="R")
def unary(I, K, S):
    """a unary operator of a filter with any number of channels"""
    n = I.int("channels", 0)
    a = make(I, S, "a", n, divisor=I["operator"] == "invert")
    f = frequency(I)
    function, expected = UNARY[I["operator"]]
    r = function(a)
    la = a.labels()
    K.eq("channels", K.len(r), n)
    K.labels("labels", r.labels(), n, lambda i: K.item(la, i))
    va, vr = a(f), r(f)
    K.eq("values", K.len(vr), n)

    def channel(i):
        x = K.item(va, i)
        if I["operator"] == "invert":
            nonzero(I, K, x)
        return K.item(vr, i), expected(K, x)
    K.forall("values.elements", [n], channel)


@contract("C13", functions=["sumpf.Filter.__add__", "sumpf.Filter.__sub__", "sumpf.Filter.__mul__", "sumpf.Filter.__truediv__", "sumpf.Filter.__radd__", "sumpf.Filter.__rsub__",
                            "sumpf.Filter.__rmul__", "sumpf.Filter.__rtruediv__"],
          choices={"operator": list(OPERATORS), "side": ["right", "left"]}, mode="R")
def numbers(I, K, S):
    """an operator between a filter with any number of channels and a number"""
    n = I.int("channels", 0)
    function, name = OPERATORS[I["operator"]]
    left = I["side"] == "left"
    a = make(I, S, "a", n, divisor=left and name == "true_divide")
    f = frequency(I)
    number = I.real("number")
    if name == "true_divide" and not left:
        nonzero(I, K, number)
    r = function(number, a) if left else function(a, number)
    la = a.labels()
    K.eq("channels", K.len(r), n)
    K.labels("labels", r.labels(), n, lambda i: K.item(la, i))
    va, vr = a(f), r(f)

    def channel(i):
        x = K.item(va, i)
        if name == "true_divide" and left:
            nonzero(I, K, x)
        return K.item(vr, i), K.op(name, number, x) if left else K.op(name, x, number)
    K.forall("values.elements", [n], channel)


@contract("C13", functions=["sumpf.Filter.__getitem__"], choices={"key": ["integer", "slice"]}, mode="R")
def indexing(I, K, S):
    """indexing a filter selects its channels and their labels"""
    n = I.int("channels", 1)
    a = make(I, S, "a", n)
    f = frequency(I)
    if I["key"] == "integer":
        i = I.int("index")
        I.assume(K.and_(-n <= i, i < n))
        r, start, count = a[i], K.ite(i < 0, i + n, i), 1
    else:
        start, stop = I.int("start", 0), I.int("stop", 0)
        I.assume(K.and_(start <= stop, stop <= n))
        r, count = a[start:stop], stop - start
    la, va, vr = a.labels(), a(f), r(f)
    K.eq("channels", K.len(r), count)
    K.labels("labels", r.labels(), count, lambda c: K.item(la, start + c))
    K.eq("values", K.len(vr), count)
    K.forall("values.elements", [count], lambda c: (K.item(vr, c), K.item(va, start + c)))


@contract("C13", functions=["sumpf.Filter.__call__", "sumpf.Filter.spectrum"], choices={"kind": ["array", "list", "tuple", "spectrum"]},
          mode="R")
def evaluation(I, K, S):
    """the three ways of evaluating a filter agree, and channels and frequencies do not affect each other"""
    n = I.int("channels", 1)
    ts = I.terms("a", n, compact=False)
    a = S.Filter(transfer_functions=ts, labels=I.label_seq("labels", n))
    c = I.int("channel", 0)
    I.assume(c < n)
    single = S.Filter((K.item(ts, c),))
    if I["kind"] == "spectrum":
        m, resolution = I.int("length", 1), I.real("resolution", positive=True)
        r = a.spectrum(resolution=resolution, length=m)
        K.eq("resolution", r.resolution(), resolution)
        la = a.labels()
        K.labels("labels", r.labels(), n, lambda i: K.item(la, i))
        frequency_at = lambda k: k * resolution     # noqa: E731
        channels = r.channels()
        K.eq("shape", tuple(K.shape(channels)), (n, m))
        e = K.elem(channels)
        value_at = lambda k: e(c, k)                # noqa: E731
    else:
        if I["kind"] == "array":
            m = I.int("length", 1)
            fs = I.array("frequencies", (m,), "float64")
            frequency_at = K.elem(fs)
        else:
            m = 3
            fs = [I.real(f"frequency{i}") for i in range(m)]
            if I["kind"] == "tuple":
                fs = tuple(fs)
            frequency_at = lambda k: K.item(fs, k)  # noqa: E731
        r = a(fs)
        K.eq("channels", K.len(r), n)
        x = K.item(r, c)
        K.eq("shape", tuple(K.shape(x)), (m,))
        value_at = K.elem(x)
    k = I.int("index", 0)
    I.assume(k < m)
    K.eq("value", value_at(k), single(frequency_at(k))[0])


@contract("C13", functions=["sumpf.Filter.__call__", "sumpf.Filter.spectrum"], choices={"kind": ["array", "spectrum"], "term": CLASSES}, mode="R")
def evaluation_of_terms(I, K, S):
    """evaluating a term of any class for several frequencies (including 0 Hz) gives the same value as evaluating it for a single frequency"""
    a = S.Filter((make_term(I, K, S, I["term"], "a"),))
    m = I.int("length", 1)
    k = I.int("index", 0)
    I.assume(k < m)
    if I["kind"] == "spectrum":
        resolution = I.real("resolution", positive=True)
        r = K.elem(a.spectrum(resolution=resolution, length=m).channels())(0, k)
        f = k * resolution
    else:
        fs = I.array("frequencies", (m,), "float64")
        r = K.elem(a(fs)[0])(k)
        f = K.elem(fs)(k)
    K.eq("value", r, a(f)[0])


@contract("C13", functions=["sumpf.Filter.__mul__", "sumpf.Filter.__rmul__", "sumpf.Spectrum.__mul__"], choices={"side": ["left", "right"], "channels": ["1:n", "n:1", "n:n"]}, mode="R")
def applying_to_spectrums(I, K, S):
    """each bin of a spectrum is multiplied with the filter's value at the bin's frequency"""
    n = I.int("channels", 1)
    kind = I["channels"]
    ts = I.terms("a", 1 if kind[0] == "1" else n, compact=False)
    a = S.Filter(transfer_functions=ts, labels=("filter",))
    x = I.spectrum("x", channels=1 if kind[2] == "1" else n)
    r = x * a if I["side"] == "left" else a * x
    e = K.elem(x.channels())
    K.eq("resolution", r.resolution(), x.resolution())

    def element(c, k):
        p, q = (0 if kind[0] == "1" else c), (0 if kind[2] == "1" else c)
        return K.op("multiply", S.Filter((K.item(ts, p),))(k * x.resolution())[0], e(q, k))
    K.array("bins", r.channels(), (n, x.length()), element)


@contract("C13", functions=["sumpf.Filter.__mul__", "sumpf.Filter.__rmul__", "sumpf.Spectrogram.__mul__"], choices={"side": ["left", "right"], "channels": ["1:n", "n:1", "n:n"]}, mode="R")
def applying_to_spectrograms(I, K, S):
    """each value of a spectrogram is multiplied with the filter's value at the bin's frequency"""
    n = I.int("channels", 1)
    kind = I["channels"]
    ts = I.terms("a", 1 if kind[0] == "1" else n, compact=False)
    a = S.Filter(transfer_functions=ts, labels=("filter",))
    x = I.spectrogram("x", channels=1 if kind[2] == "1" else n)
    r = x * a if I["side"] == "left" else a * x
    e = K.elem(x.channels())
    K.eq("resolution", r.resolution(), x.resolution())
    K.eq("sampling_rate", r.sampling_rate(), x.sampling_rate())
    K.eq("offset", r.offset(), x.offset())

    def element(c, k, t):
        p, q = (0 if kind[0] == "1" else c), (0 if kind[2] == "1" else c)
        return K.op("multiply", S.Filter((K.item(ts, p),))(k * x.resolution())[0], e(q, k, t))
    K.array("values", r.channels(), (n, x.number_of_frequencies(), x.length()), element)


@contract("C13", functions=["sumpf.Filter.__mul__", "sumpf.Filter.__rmul__"], choices={"side": ["left", "right"], "channels": ["1:n", "n:1", "n:n"]}, mode="R")
def applying_to_signals(I, K, S):
    """applying a filter to a signal multiplies the filter's values with the signal's spectrum (by the contract of the transforms)"""
    n = I.int("channels", 1)
    kind = I["channels"]
    ts = I.terms("a", 1 if kind[0] == "1" else n, transform=False)
    a = S.Filter(transfer_functions=ts, labels=("filter",))
    x = I.signal("x", channels=1 if kind[2] == "1" else n, min_length=2)
    r = x * a if I["side"] == "left" else a * x
    spectrum = x.fourier_transform()
    e = K.elem(spectrum.channels())
    m = 2 * (spectrum.length() - 1)
    resolution = spectrum.resolution()
    K.eq("offset", r.offset(), 0)
    K.eq("sampling_rate", r.sampling_rate(), resolution * m)

    def element(c, t):
        p, q = (0 if kind[0] == "1" else c), (0 if kind[2] == "1" else c)
        return K.irdft(m, t, lambda k: K.op("multiply", S.Filter((K.item(ts, p),))(k * resolution)[0], e(q, k)))
    K.array("samples", r.channels(), (n, m), element)
