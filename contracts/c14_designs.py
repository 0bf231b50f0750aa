"""C14: the filter classes have got the transfer functions of the designs, after which they are named"""
import cmath
import math
from pyvc.api import contract

TOLERANCE = 1e-9    # relative: covers the rounding of the constants in the code, such as math.pi


def multiply(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def setup(I):
    """an arbitrary cutoff frequency and an arbitrary frequency, that is x times the cutoff frequency"""
    if I.symbolic:
        cutoff, x = I.real("cutoff", positive=True), I.real("x", positive=True)
    else:
        cutoff, x = 10.0 ** I.real("log(cutoff)", 0.0, 4.5), 10.0 ** I.real("log(x)", -0.7, 0.7)
    return cutoff, x


def polynomial(roots):
    """the coefficients (lowest order first) of the polynomial with the given roots, that is one at zero"""
    c = [1.0 + 0.0j]
    for r in roots:
        c = [(c[i] if i < len(c) else 0.0) - (c[i - 1] / r if i else 0.0) for i in range(len(c) + 1)]
    return [q.real for q in c]


def at(coefficients, x, highpass):
    """real and imaginary part of a polynomial of j*x or for highpass filters of 1/(j*x)"""
    parts = [0.0, 0.0]
    for i, c in enumerate(coefficients):
        v = c * (1.0 if i % 4 in (0, 1) else -1.0) * (-1.0 if highpass and i % 2 else 1.0)
        for _ in range(i):
            v = v / x if highpass else v * x
        parts[i % 2] = parts[i % 2] + v
    return parts


def attributes(K, filter_, label, cutoff, order, highpass):
    K.eq("channels", K.len(filter_), 1)
    K.eq("labels", tuple(filter_.labels()), (label,))
    K.eq("cutoff_frequency()", filter_.cutoff_frequency(), cutoff)
    K.eq("order()", filter_.order(), order)
    K.eq("is_highpass()", filter_.is_highpass(), highpass)


def magnitude(K, h, x, order, numerator, squared, highpass):
    """|H|**2 * (1 + squared(x)) == numerator"""
    d = 1.0 + squared(1.0 / x if highpass else x)
    K.near("magnitude", h.real * h.real + h.imag * h.imag, numerator / d, numerator / d, TOLERANCE)


def chebyshev(n, x):
    a, b = 1.0, x
    for _ in range(n):
        a, b = b, 2.0 * x * b - a
    return a


def power(x, n):
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


def run(I, K, S, make, label, numerator, denominator):
    order, highpass = I["order"], I["type"] == "highpass"
    I.univariate()
    cutoff, x = setup(I)
    filter_ = make(cutoff, order, highpass)
    attributes(K, filter_, label, cutoff, order, highpass)
    f = x * cutoff
    h = filter_(f)[0]
    response(K, h, x, numerator, denominator, highpass)
    return h, x, order, highpass


def response(K, h, x, numerator, denominator, highpass):
    """H * denominator == numerator"""
    nr, ni = at(numerator, x, highpass)
    dr, di = at(denominator, x, highpass)
    size = dr * dr + di * di
    scale = 1.0 + (nr * nr + ni * ni) / size
    K.near("real part", h.real, (nr * dr + ni * di) / size, scale, TOLERANCE)
    K.near("imaginary part", h.imag, (ni * dr - nr * di) / size, scale, TOLERANCE)


ORDERS = {"order": [1, 2, 3, 4, 5, 6, 7, 8], "type": ["lowpass", "highpass"]}


@contract("C14", functions=["sumpf.ButterworthFilter"], choices=ORDERS, mode="R")
def butterworth(I, K, S):
    """a Butterworth filter with any cutoff frequency at any frequency"""
    n = I["order"]
    poles = [cmath.exp(1j * math.pi * (2 * k + n - 1) / (2 * n)) for k in range(1, n + 1)]
    h, x, n, highpass = run(I, K, S, lambda c, o, t: S.ButterworthFilter(cutoff_frequency=c, order=o, highpass=t), "Butterworth", [1.0], polynomial(poles))
    magnitude(K, h, x, n, 1.0, lambda y: power(y, 2 * n), highpass)


@contract("C14", functions=["sumpf.BesselFilter"], choices=ORDERS, mode="R")
def bessel(I, K, S):
    """a Bessel filter with any cutoff frequency at any frequency: a reverse Bessel polynomial, that is normalized to one at zero"""
    a, b = [1], [1, 1]
    for m in range(2, I["order"] + 1):
        c = [(2 * m - 1) * q for q in b] + [0]
        for i, q in enumerate(a):
            c[i + 2] += q
        a, b = b, c
    run(I, K, S, lambda c, o, t: S.BesselFilter(cutoff_frequency=c, order=o, highpass=t), "Bessel", [1.0], [q / b[0] for q in b])


RIPPLES = [0.01, 0.5, 3.0, 6.0, -1.0, 60.0]


def ripple(I, K):
    """some ripples, or for the run-time checks an arbitrary one"""
    if I["ripple"] == "any":
        r = 10.0 ** I.real("log(ripple)", -1.5, 1.8 if I["kind"] == 2 else 1.2)
        return -r if I.bool("negative ripple") else r
    return I["ripple"]


def first_kind(I, K, S):
    n, r = I["order"], ripple(I, K)
    e = math.sqrt(10.0 ** (abs(r) / 10.0) - 1.0)
    g = math.asinh(1.0 / e) / n
    angles = [math.pi * (2 * k - 1) / (2 * n) for k in range(1, n + 1)]
    poles = [complex(-math.sinh(g) * math.sin(t), math.cosh(g) * math.cos(t)) for t in angles]
    h, x, n, highpass = run(I, K, S, lambda c, o, t: made(K, S.Chebyshev1Filter(cutoff_frequency=c, ripple=r, order=o, highpass=t), r), "Chebyshev 1", [1.0], polynomial(poles))
    top = 1.0 + e * e if n % 2 == 0 else 1.0
    magnitude(K, h, x, n, top, lambda y: e * e * chebyshev(n, y) * chebyshev(n, y), highpass)


def made(K, filter_, r):
    K.eq("ripple()", filter_.ripple(), r)
    return filter_


@contract("C14", functions=["sumpf.Chebyshev1Filter"], choices={"ripple": RIPPLES[:-1], **ORDERS}, mode="R")
def chebyshev1(I, K, S):
    """a Chebyshev filter of the first kind with any cutoff frequency at any frequency: the ripple of the pass band for some ripples"""
    first_kind(I, K, S)


@contract("C14", functions=["sumpf.Chebyshev1Filter"], choices={"kind": [1], "ripple": ["any"], **ORDERS}, mode="R", random_only=True)
def chebyshev1_ripples(I, K, S):
    """a Chebyshev filter of the first kind with any ripple"""
    first_kind(I, K, S)


@contract("C14", functions=["sumpf.Chebyshev1Filter"], choices=ORDERS, mode="R")
def chebyshev1_without_ripple(I, K, S):
    """a Chebyshev filter of the first kind without a ripple is a Butterworth filter"""
    n = I["order"]
    poles = [cmath.exp(1j * math.pi * (2 * k + n - 1) / (2 * n)) for k in range(1, n + 1)]
    run(I, K, S, lambda c, o, t: made(K, S.Chebyshev1Filter(cutoff_frequency=c, ripple=0.0, order=o, highpass=t), 0.0), "Chebyshev 1", [1.0], polynomial(poles))


def second_kind(I, K, S):
    n, r = I["order"], ripple(I, K)
    attenuation = 10.0 ** (abs(r) / 10.0) - 1.0         # one divided by the square of epsilon
    g = math.asinh(math.sqrt(attenuation)) / n
    angles = [math.pi * (2 * k - 1) / (2 * n) for k in range(1, n + 1)]
    poles = [1.0 / complex(-math.sinh(g) * math.sin(t), math.cosh(g) * math.cos(t)) for t in angles]
    zeros = [1j / math.cos(t) for k, t in enumerate(angles) if 2 * k + 1 != n]
    h, x, n, highpass = run(I, K, S, lambda c, o, t: made(K, S.Chebyshev2Filter(cutoff_frequency=c, ripple=r, order=o, highpass=t), r), "Chebyshev 2", polynomial(zeros), polynomial(poles))
    # |H|**2 == T(1/y)**2 / (T(1/y)**2 + 1/epsilon**2), where T(1/y) * y**n is a polynomial
    y = 1.0 / x if highpass else x
    a, b = 1.0, 1.0
    for _ in range(n - 1):
        a, b = b, 2.0 * b - a * y * y
    K.near("magnitude", h.real * h.real + h.imag * h.imag, b * b / (b * b + attenuation * power(y, 2 * n)), 1.0, TOLERANCE)


@contract("C14", functions=["sumpf.Chebyshev2Filter"], choices={"ripple": [6.0, 20.0, 60.0, -40.0], **ORDERS}, mode="R")
def chebyshev2(I, K, S):
    """a Chebyshev filter of the second kind with any cutoff frequency at any frequency: the ripple of the stop band for some ripples"""
    second_kind(I, K, S)


@contract("C14", functions=["sumpf.Chebyshev2Filter"], choices={"kind": [2], "ripple": ["any"], **ORDERS}, mode="R", random_only=True)
def chebyshev2_ripples(I, K, S):
    """a Chebyshev filter of the second kind with any ripple"""
    second_kind(I, K, S)


# the poles and zeros in Hz (published values of IEC 61672-1 and IEC 61012) and the order of the zero at 0Hz
F1, F2, F3, F4, F5 = 20.598997, 107.65265, 737.86223, 12194.217, 158.5
WEIGHTINGS = {
    "A": ([F1, F1, F2, F3, F4, F4], [], 4),
    "B": ([F1, F1, F5, F4, F4], [], 3),
    "C": ([F1, F1, F4, F4], [], 2),
    "D": ([79919.29 ** 0.5, 1345600.0 ** 0.5, (11723776.0, 9837328.0)], [(1080768.16, 1037918.48)], 1),
    "U": ([12200.0, 12200.0, 7850.0 - 8800.0j, 7850.0 + 8800.0j, 2900.0 - 12150.0j, 2900.0 + 12150.0j], [], 0),
}


def factor(p, f):
    """j*f + p, or for a tuple (b, c) the term (j*f)**2 + sqrt(b) * j*f + c"""
    if isinstance(p, tuple):
        return (p[1] - f * f, math.sqrt(p[0]) * f)
    if isinstance(p, complex):
        return (p.real, f + p.imag)
    return (p, f)


def weighting_response(poles, zeros, n, f):
    """the numerator and the denominator of an unscaled weighting filter"""
    a = (1.0, 0.0)
    for _ in range(n):
        a = multiply(a, (0.0, f))
    for z in zeros:
        a = multiply(a, factor(z, f))
    b = (1.0, 0.0)
    for p in poles:
        b = multiply(b, factor(p, f))
    return a, b


@contract("C14", functions=["sumpf.AWeighting", "sumpf.BWeighting", "sumpf.CWeighting", "sumpf.DWeighting", "sumpf.UWeighting"],
          choices={"weighting": list(WEIGHTINGS)}, mode="R")
def weightings(I, K, S):
    """a weighting filter at any frequency, whose gain is one at 1kHz"""
    which = I["weighting"]
    I.univariate()
    filter_ = {"A": S.AWeighting, "B": S.BWeighting, "C": S.CWeighting, "D": S.DWeighting, "U": S.UWeighting}[which]()
    K.eq("channels", K.len(filter_), 1)
    K.eq("labels", tuple(filter_.labels()), (f"{which}-weighting",))
    reference = filter_(1000.0)[0]
    K.near("gain at the reference frequency", reference.real * reference.real + reference.imag * reference.imag, 1.0, 1.0, TOLERANCE)
    x = I.real("x", positive=True) if I.symbolic else 10.0 ** I.real("log(x)", -3.0, 2.0)   # relative to the reference frequency
    h = filter_(x * 1000.0)[0]
    parameters = WEIGHTINGS[which]
    (ar, ai), (br, bi) = weighting_response(*parameters, 1000.0)
    scale = complex(br, bi) / complex(ar, ai)
    scale = multiply((scale.real, scale.imag), (reference.real, reference.imag))
    a, b = weighting_response(*parameters, x * 1000.0)
    a = multiply(a, scale)
    size = b[0] * b[0] + b[1] * b[1]
    square = (a[0] * a[0] + a[1] * a[1]) / size
    K.near("magnitude", h.real * h.real + h.imag * h.imag, square, square, 1e-6)
    K.near("real part", h.real, (a[0] * b[0] + a[1] * b[1]) / size, 1.0 + square, 1e-6)
    K.near("imaginary part", h.imag, (a[1] * b[0] - a[0] * b[1]) / size, 1.0 + square, 1e-6)


@contract("C14", functions=["sumpf.DelayFilter", "sumpf.DerivativeFilter"], choices={"filter": ["delay", "derivative"]}, mode="R")
def delay_and_derivative(I, K, S):
    """a filter with any delay and the filter, that is proportional to the frequency variable"""
    f = I.real("f", -1.0, 1.0) if not I.symbolic else I.real("f")
    if I["filter"] == "delay":
        delay = I.real("delay")
        filter_ = S.DelayFilter(delay)
        expected = K.op("exp", K.cplx(0.0, -2.0 * math.pi * f * delay))
        label = "Delay"
    else:
        filter_ = S.DerivativeFilter()
        expected = K.cplx(0.0, 2.0 * math.pi * f)
        label = "Derivative"
    K.eq("channels", K.len(filter_), 1)
    K.eq("labels", tuple(filter_.labels()), (label,))
    K.eq("value", filter_(f)[0], expected)


@contract("C14", functions=["sumpf.ButterworthFilter", "sumpf.BesselFilter", "sumpf.Chebyshev1Filter", "sumpf.Chebyshev2Filter"],
          choices={"design": ["Butterworth", "Bessel", "Chebyshev 1", "Chebyshev 2"], "type": ["lowpass", "highpass"]}, mode="R", random_only=True,
          notes="bounded: run-time checks for the orders, that are beyond the reach of the proofs")
def high_orders(I, K, S):
    """filters of an order between 1 and 60 (30 for Bessel filters) with any cutoff frequency at any frequency: the product of the terms for the poles and zeros"""
    design, highpass = I["design"], I["type"] == "highpass"
    n = I.int("order", 1, 30 if design == "Bessel" else 60)
    cutoff, x = setup(I)
    s = 1.0 / (1j * x) if highpass else 1j * x
    angles = [math.pi * (2 * k - 1) / (2 * n) for k in range(1, n + 1)]
    h = 1.0 + 0.0j
    if design == "Bessel":
        filter_ = S.BesselFilter(cutoff_frequency=cutoff, order=n, highpass=highpass)
        a, b = 1.0, 1.0 + s         # reverse Bessel polynomials divided by their value at zero
        for m in range(2, n + 1):
            a, b = b, b + a * s * s / ((2 * m - 1) * (2 * m - 3))
        h = 1.0 / b
    elif design == "Butterworth":
        filter_ = S.ButterworthFilter(cutoff_frequency=cutoff, order=n, highpass=highpass)
        for t in angles:
            h = h / (1.0 - s / complex(-math.sin(t), math.cos(t)))
    else:
        r = 10.0 ** I.real("log(ripple)", -1.5, 1.8 if design == "Chebyshev 2" else 1.2)
        e2 = 10.0 ** (r / 10.0) - 1.0
        if design == "Chebyshev 1":
            filter_ = S.Chebyshev1Filter(cutoff_frequency=cutoff, ripple=-r if I.bool("negative ripple") else r, order=n, highpass=highpass)
            g = math.asinh(1.0 / math.sqrt(e2)) / n
            for t in angles:
                h = h / (1.0 - s / complex(-math.sinh(g) * math.sin(t), math.cosh(g) * math.cos(t)))
        else:
            filter_ = S.Chebyshev2Filter(cutoff_frequency=cutoff, ripple=-r if I.bool("negative ripple") else r, order=n, highpass=highpass)
            g = math.asinh(math.sqrt(e2)) / n
            for k, t in enumerate(angles):
                h = h / (1.0 - s * complex(-math.sinh(g) * math.sin(t), math.cosh(g) * math.cos(t)))
                if 2 * k + 1 != n:
                    h = h * (1.0 - s * math.cos(t) / 1j)
    attributes(K, filter_, design, cutoff, n, highpass)
    v = complex(filter_(x * cutoff)[0])
    scale = abs(h) + (1e-3 if design == "Chebyshev 2" else 0.0)
    K.near("real part", v.real, h.real, scale, 1e-7)
    K.near("imaginary part", v.imag, h.imag, scale, 1e-7)
