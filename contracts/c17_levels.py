"""C17: levels, statistics and decay curves are computed from exactly the samples of each channel"""
import math
from pyvc.api import contract


def square(x):
    return x.real * x.real + x.imag * x.imag


def root(K, x):
    return K.op("sqrt", x)


def operand(I, S, name="a", lengths=(1, 60)):
    if I.symbolic:
        return I.signal(name, min_channels=1, min_length=1)
    return I.signal(name, channels=I.int("channels", 1, 4), length=I.int("length", *lengths))


def channels_and_total(K, name, get, c, n, channel, everything):
    """the results for each channel and for all samples"""
    K.array(name, get(False), (c,), channel)
    K.eq(name + " (single value)", get(True), everything())


STATISTICS = ["level", "mean", "variance", "standard_deviation"]


@contract("C17", functions=["sumpf.Signal.level", "sumpf.Signal.mean", "sumpf.Signal.variance", "sumpf.Signal.standard_deviation"],
          choices={"function": STATISTICS, "call": ["default", "channels", "single"]}, mode="R")
def statistics(I, K, S):
    """the level, mean, variance and standard deviation of each channel, respectively of all samples"""
    a = operand(I, S)
    c, n = a.shape()
    e = K.elem(a.channels())
    f = I["function"]

    def value(total, count):
        """the result for the samples, over which total computes a sum"""
        if f == "level":
            return root(K, total(lambda x: x * x) / count)
        m = total(lambda x: x) / count
        if f == "mean":
            return m
        v = total(lambda x: (x - m) * (x - m)) / count
        return v if f == "variance" else root(K, v)
    if I["call"] == "single":
        r = getattr(a, f)(single_value=True)
        K.eq("single value", r, value(lambda g: K.sum(c, lambda i: K.sum(n, lambda t: g(e(i, t)))), c * n))
    else:
        r = getattr(a, f)() if I["call"] == "default" else getattr(a, f)(single_value=False)
        K.array("channels", r, (c,), lambda i: value(lambda g: K.sum(n, lambda t: g(e(i, t))), n))


@contract("C17", functions=["sumpf.Spectrum.level"], choices={"call": ["default", "channels", "single"]}, mode="R")
def spectrum_level(I, K, S):
    """the level of the signal, whose transform is the spectrum: all bins but the first and the last one stand for two frequencies"""
    a = I.spectrum("a", min_channels=1, min_length=1) if I.symbolic else I.spectrum("a", channels=I.int("channels", 1, 4), length=I.int("length", 1, 30))
    c, n = a.shape()
    e = K.elem(a.channels())
    length = K.max(1, 2 * (n - 1))

    def power(i):
        inner = K.sum(K.max(n - 2, 0), lambda k: square(e(i, k + 1)))
        return square(e(i, 0)) + K.ite(n == 1, 0.0, lambda: square(e(i, n - 1)) + 2.0 * inner)
    if I["call"] == "single":
        K.eq("single value", a.level(single_value=True), root(K, K.sum(c, power) / c) / length)
    else:
        r = a.level() if I["call"] == "default" else a.level(single_value=False)
        K.array("channels", r, (c,), lambda i: root(K, power(i)) / length)


@contract("C17", functions=["sumpf.EnergyDecayCurve"], mode="R")
def energy_decay(I, K, S):
    """the energy decay curve: the sums of the squared samples from each sample on to the end"""
    a = operand(I, S)
    c, n = a.shape()
    e = K.elem(a.channels())
    la = a.labels()
    r = S.EnergyDecayCurve(a)
    K.array("channels", r.channels(), (c, n), lambda i, t: K.sum(n - t, lambda k: e(i, t + k) * e(i, t + k)))
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.eq("offset", r.offset(), a.offset())
    K.labels("labels", r.labels(), c, lambda i: K.item(la, i))


@contract("C17", functions=["sumpf.Signal.skewness", "sumpf.Signal.kurtosis"], choices={"function": ["skewness", "kurtosis"], "call": ["default", "channels", "single"]}, random_only=True, mode="R",
          notes="bounded: run-time checks")
def higher_moments(I, K, S):
    """the third and the fourth standardized moment (the kurtosis of a normal distribution is zero)"""
    a = operand(I, S, lengths=(3, 60))
    c, n = a.shape()
    e = a.channels()

    def value(xs):
        m = math.fsum(xs) / len(xs)
        v = math.fsum((x - m) ** 2 for x in xs) / len(xs)
        I.assume(v > 1e-3 * max(abs(x) for x in xs) ** 2)       # rounding errors are not under consideration
        if I["function"] == "skewness":
            return math.fsum((x - m) ** 3 for x in xs) / len(xs) / v ** 1.5
        return math.fsum((x - m) ** 4 for x in xs) / len(xs) / v ** 2 - 3.0
    f = getattr(a, I["function"])
    if I["call"] == "single":
        K.near("single value", float(f(single_value=True)), value([float(x) for row in e for x in row]), 1.0, 1e-6)
    else:
        expected = [value([float(x) for x in row]) for row in e]
        r = f() if I["call"] == "default" else f(single_value=False)
        K.eq("shape", tuple(K.shape(r)), (c,))
        for x, y in zip(r, expected):
            K.near("channels", float(x), y, 1.0 + abs(y), 1e-6)


@contract("C17", functions=["sumpf.Signal.level_vs_time"], choices={"pad": [False, True], "time": ["samples", "any", "short", "around the length"]}, random_only=True, mode="R", notes="bounded: run-time checks")
def level_versus_time(I, K, S):
    """at each sample the level of the samples in the integration interval, in which the outermost samples may be covered partially"""
    a = operand(I, S, lengths=(1, 24))
    c, n = a.shape()
    rate = float(a.sampling_rate())
    samples = {"samples": lambda: float(I.int("samples", 1, 60)), "any": lambda: I.real("samples", 1.0, 60.0), "short": lambda: I.real("samples", 0.0, 1.0),
               "around the length": lambda: n * I.int("intervals", 1, 2) + I.int("quarters", -12, 12) / 4.0}[I["time"]]()
    I.assume(samples >= 0.0)
    time = samples / rate
    samples = time * rate
    pad = I["pad"]
    e = a.channels()
    r = a.level_vs_time(time, True) if pad else a.level_vs_time(time)
    half = (samples - 1.0) / 2.0

    def level(i, t):
        if samples <= 1.0:
            return abs(e[i, t])
        weights = [min(1.0, max(0.0, half + 1.0 - abs(k - t))) for k in range(n)]
        count = samples if pad else math.fsum(weights)
        return math.sqrt(math.fsum(w * e[i, k] ** 2 for k, w in enumerate(weights)) / count)
    K.eq("shape", tuple(r.shape()), (c, n))
    scale = float(abs(e).max()) if e.size else 1.0
    for i in range(c):
        for t in range(n):
            K.near("level", float(r.channels()[i, t]), level(i, t), scale, 1e-6)
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.eq("offset", r.offset(), a.offset())
    la = a.labels()
    K.labels("labels", r.labels(), c, lambda i: la[i])


@contract("C17", functions=["sumpf.Spectrum.level"], random_only=True, mode="R", notes="bounded: run-time checks")
def level_in_both_domains(I, K, S):
    """the level of a spectrum is the level of its inverse transform"""
    n = I.int("length", 1, 30)
    a = I.signal("a", channels=I.int("channels", 1, 4), length=max(1, 2 * (n - 1)), offset=0)
    s = a.fourier_transform()
    r, b = s.level(), s.inverse_fourier_transform().level()
    for x, y, z in zip(r, b, a.level()):
        K.near("level", float(x), float(y), 1.0 + abs(float(y)), 1e-6)
        K.near("level of the signal", float(x), float(z), 1.0 + abs(float(z)), 1e-6)
    K.near("single value", float(s.level(single_value=True)), float(a.level(single_value=True)), 1.0 + float(a.level(single_value=True)), 1e-6)


@contract("C17", functions=["sumpf.EnergyDecayCurve.reverberation_time", "sumpf.EnergyDecayCurve.decay_model"], choices={"indices": ["integers", "negative", "fractions"]}, random_only=True, mode="R",
          notes="bounded: run-time checks")
def reverberation(I, K, S):
    """the decay, that minimizes the squared error of the levels in decibels in the given segment"""
    a = operand(I, S, lengths=(8, 60))
    c, n = a.shape()
    e = a.channels()
    I.assume(all(abs(x) > 1e-2 for x in e[:, -1]))     # the levels are finite
    d = S.EnergyDecayCurve(a)
    start = I.int("start", 0, n - 4)
    stop = I.int("stop", start + 3, n - 1)
    if I["indices"] == "negative":
        start_, stop_ = start - n, stop - n
    elif I["indices"] == "fractions":
        start_, stop_ = (start + 0.001) / n, (stop + 0.001) / n
    else:
        start_, stop_ = start, stop
    times, model = d.reverberation_time(start_, stop_), d.decay_model(start_, stop_)
    K.eq("number of times", K.len(times), c)
    K.eq("shape", tuple(model.shape()), (c, n))
    ts = list(range(start, stop))
    mean = sum(ts) / len(ts)
    for i in range(c):
        ys = [10.0 * math.log10(math.fsum(float(x) ** 2 for x in e[i, t:])) for t in ts]
        my = math.fsum(ys) / len(ys)
        slope = math.fsum((t - mean) * (y - my) for t, y in zip(ts, ys)) / math.fsum((t - mean) ** 2 for t in ts)
        I.assume(abs(slope) > 1e-4)
        K.near("reverberation time", float(times[i]), -60.0 / slope / float(a.sampling_rate()), 60.0 / abs(slope) / float(a.sampling_rate()), 1e-5)
        for t in range(n):
            y = my + (t - mean) * slope
            K.near("model", 10.0 * math.log10(float(model.channels()[i, t])), y, 1.0 + abs(y), 1e-5)
    K.eq("sampling rate", model.sampling_rate(), a.sampling_rate())
    K.eq("offset", model.offset(), a.offset())
    la = a.labels()
    K.labels("labels", model.labels(), c, lambda i: la[i])
