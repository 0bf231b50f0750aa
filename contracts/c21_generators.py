"""C21: generated signals and spectrums follow their definition at every sample"""
import math
from pyvc.api import contract

PI = math.pi


def bounded(I, K, *values, limit=1e4):
    """numerical evaluations need arguments of a moderate size; proofs do not"""
    if not K.symbolic:
        I.assume(all(abs(v) < limit for v in values))


def header(K, s, labels, **parameters):
    for p, v in parameters.items():
        K.eq(p, getattr(s, p)(), v)
    K.eq("labels", s.labels(), labels)


# ------------------------------------------------------------------ constants

@contract("C21", functions=["sumpf.ConstantSignal.__init__", "sumpf.ConstantSpectrum.__init__", "sumpf.ConstantSpectrogram.__init__"], choices={"kind": ["signal", "spectrum", "spectrogram"]}, mode="R")
def constants(I, K, S):
    """every sample of a constant data set is the given value"""
    kind = I["kind"]
    n = I.int("length", 0)
    rate, resolution = I.real("sampling_rate", positive=True), I.real("resolution", positive=True)
    if kind == "signal":
        v = I.real("value")
        s = S.ConstantSignal(value=v, sampling_rate=rate, length=n)
        K.array("samples", s.channels(), (1, n), lambda c, i: v, dtype="float64")
        header(K, s, ("Constant",), sampling_rate=rate, offset=0, length=n)
    elif kind == "spectrum":
        v = I.cplx("value")
        s = S.ConstantSpectrum(value=v, resolution=resolution, length=n)
        K.array("samples", s.channels(), (1, n), lambda c, i: v, dtype="complex128")
        header(K, s, ("Constant",), resolution=resolution, length=n)
    else:
        v, m = I.cplx("value"), I.int("number_of_frequencies", 0)
        s = S.ConstantSpectrogram(value=v, resolution=resolution, sampling_rate=rate, number_of_frequencies=m, length=n)
        K.array("samples", s.channels(), (1, m, n), lambda c, f, i: v, dtype="complex128")
        header(K, s, ("Constant",), resolution=resolution, sampling_rate=rate, offset=0, length=n, number_of_frequencies=m)


# ------------------------------------------------------------------ waves

@contract("C21", functions=["sumpf._data._signals._waves.Wave.__init__", "sumpf._data._signals._waves.Wave.periods", "sumpf.SineWave.__init__", "sumpf.SquareWave.__init__"], choices={"wave": ["SineWave", "SquareWave"]}, mode="R")
def waves(I, K, S):
    """sample i of a wave is the sine of phase + 2 pi f t at the time t = i / sampling rate, respectively its sign"""
    n = I.int("length", 1)
    rate, f, phase = I.real("sampling_rate", positive=True), I.real("frequency"), I.real("phase")
    bounded(I, K, f * n / rate * 6.3, phase)
    s = getattr(S, I["wave"])(frequency=f, phase=phase, sampling_rate=rate, length=n)
    a = s.channels()
    got = K.elem(a)

    def sample(c, i):
        y = K.fn("sin", phase + 2.0 * PI * f * i / rate)
        if I["wave"] == "SineWave":
            return y
        if not K.symbolic and abs(y) < 1e-8:     # the sign of a value next to zero depends on rounding errors
            return got(c, i)
        return K.ite(y > 0, 1.0, K.ite(y < 0, -1.0, 0.0))
    K.array("samples", a, (1, n), sample, dtype="float64")
    header(K, s, ("Sine" if I["wave"] == "SineWave" else "Square wave",), sampling_rate=rate, offset=0, length=n)
    K.eq("periods", s.periods(), f * n / rate)


# ------------------------------------------------------------------ sweeps

def position(I, K, name, form, n):
    """an index of a sample and the position, that it stands for"""
    if form == "fractions":
        v = I.real(name, -1.0, 1.0)
        p = K.round(v * n)
        return v, K.ite(p < 0, lambda: p + n, p)
    if form == "negative":
        v = I.int(name, 0 - n, -1)
        return v, v + n
    v = I.int(name, 0)
    return v, v


SWEEP = ["sumpf._data._signals._sweep.Sweep.__init__", "sumpf._data._signals._sweep.general_sweep_parameters", "sumpf._data._signals._sweep.Sweep.minimum_frequency",
         "sumpf._data._signals._sweep.Sweep.maximum_frequency", "sumpf._data._signals._sweep.Sweep.instantaneous_frequency"]


@contract("C21", functions=SWEEP + ["sumpf.LinearSweep.__init__", "sumpf.InverseLinearSweep.__init__", "sumpf.ExponentialSweep.__init__", "sumpf.InverseExponentialSweep.__init__",
                                    "sumpf._data._signals._sweep.linear_sweep_parameters", "sumpf._data._signals._sweep.exponential_sweep_parameters"],
          choices={"sweep": ["LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep"], "interval": ["default", "integers", "negative", "fractions"], "long": [False, True]}, mode="R")
def sweeps(I, K, S):
    """a sweep excites its start and stop frequencies at the ends of the interval, its phase is the integral of its instantaneous frequency"""
    name, form = I["sweep"], I["interval"]
    n = I.int("length", 8193, 8200 if not K.symbolic else None) if I["long"] else I.int("length", 1, 8192 if K.symbolic else None)
    rate, phase = I.real("sampling_rate", positive=True), I.real("phase")
    f0, f1 = I.real("start_frequency", positive=True), I.real("stop_frequency", positive=True)
    kw = {}
    if form == "default":
        p0, p1 = 0, n
    else:
        (v0, p0), (v1, p1) = position(I, K, "start", form, n), position(I, K, "stop", form, n)
        kw["interval"] = (v0, v1)
        I.assume(K.not_(p0 == p1))
    T = (p1 - p0) / rate
    if "Exponential" in name:
        I.assume(K.not_(f0 == f1))
        l = T / K.fn("log", f1 / f0)
        f = lambda t: f0 * K.fn("exp", t / l)     # noqa: E731
        angle = lambda t: 2.0 * PI * f0 * l * K.fn("expm1", t / l) + phase        # noqa: E731
        bounded(I, K, f0 / f1, f1 / f0, limit=50)
        if not K.symbolic:
            ends = [(0 - p0) / rate, (n - p0) / rate, T + p0 / rate, T - (n - p0) / rate, n / rate]
            bounded(I, K, *[t / l for t in ends], limit=9)
            bounded(I, K, f0 * l * 6.3, f1 * l * 6.3, *[6.3 * f(t) * l for t in ends], phase)
    else:
        k = (f1 - f0) / T
        f = lambda t: f0 + k * t      # noqa: E731
        angle = lambda t: 2.0 * PI * (f0 * t + k * t * t / 2) + phase     # noqa: E731
        bounded(I, K, 6.3 * f0 * n / rate, 6.3 * (abs(f0) + abs(k) * (n + abs(p0)) / rate) * (n + abs(p0)) / rate, phase)
    inverse = name.startswith("Inverse")
    s = getattr(S, name)(start_frequency=f0, stop_frequency=f1, phase=phase, sampling_rate=rate, length=n, **kw)

    def sample(c, i):
        t = (i - p0) / rate
        if not inverse:
            return K.fn("sin", angle(t))
        if name == "InverseLinearSweep":
            return 2.0 / (p1 - p0) * K.fn("sin", angle(T - t))
        return 2.0 * f0 / l / (f1 - f0) / rate * K.fn("exp", (T - t) / l) * K.fn("sin", angle(T - t))
    K.array("samples", s.channels(), (1, n), sample, dtype="float64")

    def frequency(t):
        if not inverse:
            return f(t - p0 / rate)
        if name == "InverseLinearSweep":
            return f(T - (t - p0 / rate))
        return f1 * K.fn("exp", (p0 / rate - t) / l)
    t = I.real("t")
    K.eq("instantaneous frequency", s.instantaneous_frequency(t), frequency(t))
    first, last = frequency(0.0), frequency(n / rate)
    low, high = s.minimum_frequency(), s.maximum_frequency()
    K.check("order", low <= high)
    if s.labels()[0] == "Sweep":
        K.eq("minimum", low, first)
        K.eq("maximum", high, last)
    else:
        K.eq("minimum", low, last)
        K.eq("maximum", high, first)
    header(K, s, ("Sweep",) if s.labels()[0] == "Sweep" else ("Inverse sweep",), sampling_rate=rate, offset=0 - p1 - p0 if inverse else 0, length=n)


# ------------------------------------------------------------------ pseudo noise

@contract("C21", functions=["sumpf.RudinShapiroNoiseSpectrum.__init__", "sumpf.RudinShapiroNoiseSpectrum.sequence_length"], choices={"stop": [False, True]}, mode="R")
def rudin_shapiro(I, K, S):
    """the bins between the start and the stop frequency are the Rudin-Shapiro sequence, the others are zero"""
    n = I.int("length", 0)
    resolution = I.real("resolution", positive=True)
    low = I.between("start_frequency", 0.0) if K.symbolic else I.int("start", 0) * resolution
    offset = K.min(K.round(low / resolution), n)
    kw, last = {}, n
    if I["stop"]:
        high = I.between("stop_frequency", 0.0) if K.symbolic else I.int("stop", 0) * resolution
        last = K.min(K.round(high / resolution), n)
        kw["stop_frequency"] = high
        I.assume(offset <= last)
    count = last - offset
    I.invariant(lambda k: 2 * K.pow2(k))
    I.content(lambda k, idx, before: K.ite(K.and_(idx[-1] >= offset, idx[-1] - offset < K.min(2 * K.pow2(k), count)), lambda: K.cplx(K.rudin_shapiro(idx[-1] - offset, k - 1 if not isinstance(k, int) else max(k - 1, 0)), 0.0), before))
    s = S.RudinShapiroNoiseSpectrum(start_frequency=low, resolution=resolution, length=n, **kw)
    K.array("bins", s.channels(), (1, n), lambda c, i: K.ite(K.and_(i >= offset, i < last), lambda: K.cplx(K.rudin_shapiro(i - offset), 0.0), K.cplx(0.0, 0.0)), dtype="complex128")
    K.eq("sequence length", s.sequence_length(), count)
    header(K, s, ("Noise",), resolution=resolution, length=n)


MLS = ["sumpf.MaximumLengthSequence.__init__", "sumpf.MaximumLengthSequence.bits", "sumpf.MaximumLengthSequence.period_length", "sumpf.MaximumLengthSequence.periods"]


@contract("C21", functions=MLS, choices={"bits": list(range(2, 33)), "given": ["both", "bits", "length", "nothing"]}, where=lambda c: c["given"] != "nothing" or c["bits"] == 16, mode="R")
def maximum_length_sequence(I, K, S):
    """the samples are -1 and 1 according to a maximum length sequence of the shortest sufficient register, which is repeated"""
    bits, given = I["bits"], I["given"]
    period = 2 ** bits - 1
    rate, seed = I.real("sampling_rate", positive=True), I.int("seed", 0)
    kw = {}
    if given in ("both", "bits"):
        kw["bits"] = bits
    n = period
    if given == "both":
        n = kw["length"] = I.int("length", 0)
    elif given == "length":
        n = kw["length"] = I.int("length", 2 ** (bits - 1), period)
        I.log2_fact(n + 1, bits)
    if not K.symbolic:
        I.assume(n < 5000)
    s = S.MaximumLengthSequence(seed=seed, sampling_rate=rate, **kw)
    a = s.channels()
    x = K.elem(a)
    K.eq("shape", K.shape(a), (1, n))
    K.forall("samples are -1 or 1", [n], lambda i: K.or_(K.same(x(0, i), 1.0), K.same(x(0, i), -1.0)))
    K.forall("periodic", [n], lambda i: K.implies(i + period < n, K.same(x(0, K.ite(i + period < n, i + period, i)), x(0, i))))
    if K.symbolic:
        from pyvc import rng
        K.array("samples", a, (1, n), lambda c, i: 2.0 * rng.mls(bits, i) - 1.0, dtype="float64")
    else:
        K.eq("balanced", sum(x(0, i) for i in range(period)) if n >= period else 1.0, 1.0)
    header(K, s, ("MLS",), sampling_rate=rate, offset=0, length=n, bits=bits, period_length=period, periods=n / period)


def noise_parameters(I, name):
    """the parameters of a noise class, the method of the random number generator and its parameters in the order of NumPy's documentation"""
    r, pos, frac = I.real, lambda n: I.between(n, 0.0), lambda n: I.between(n, 0.0, 1.0)       # noqa: E731
    if name == "TriangularNoise":
        low = r("low")
        mode = I.between("mode", low)
        high = I.between("high", mode)
        return {"lower_boundary": low, "upper_boundary": high, "mode": mode}, "triangular", (low, mode, high)
    if name == "TriangularNoise without mode":
        low = r("low")
        high = I.between("high", low)
        return {"lower_boundary": low, "upper_boundary": high}, "triangular", (low, (low + high) / 2, high)
    if name == "UniformNoise":
        low = r("low")
        high = I.between("high", low)
        return {"lower_boundary": low, "upper_boundary": high}, "uniform", (low, high)
    if name == "HypergeometricNoise":
        a, b = I.int("acceptable", 1), I.int("non_acceptable", 1)
        d = I.int("draws", 1, a + b)
        return {"acceptable": a, "non_acceptable": b, "draws": d}, "hypergeometric", (a, b, d)
    if name == "BinomialNoise":
        p, d = frac("p"), I.int("draws", 1)
        return {"p": p, "draws": d}, "binomial", (d, p)
    names, method, kinds = {
        "GaussianNoise": (("mean", "standard_deviation"), "normal", (r, pos)), "PoissonNoise": (("lambda_",), "poisson", (pos,)),
        "LaplaceNoise": (("mean", "decay"), "laplace", (r, pos)), "VonMisesNoise": (("mode", "dispersion"), "vonmises", (r, pos)),
        "GeometricNoise": (("p",), "geometric", (frac,)), "BetaNoise": (("alpha", "beta"), "beta", (pos, pos)),
        "GammaNoise": (("shape", "scale"), "gamma", (pos, pos)), "LogarithmicNoise": (("p",), "logseries", (frac,)),
        "LogisticNoise": (("mean", "scale"), "logistic", (r, pos)), "LomaxNoise": (("shape",), "pareto", (pos,)),
        "WaldNoise": (("mean", "scale"), "wald", (pos, pos)), "ChiSquareNoise": (("degrees_of_freedom",), "chisquare", (pos,))}[name]
    values = tuple(k(n) for k, n in zip(kinds, names))
    return dict(zip(names, values)), method, values


NOISE = {"UniformNoise": "Uniform noise", "GaussianNoise": "Gaussian noise", "PoissonNoise": "Poisson noise", "LaplaceNoise": "Laplace noise", "VonMisesNoise": "von Mises noise",
         "TriangularNoise": "Triangular noise", "TriangularNoise without mode": "Triangular noise", "GeometricNoise": "Geometric noise", "HypergeometricNoise": "Hypergeometric noise",
         "BinomialNoise": "Binomial noise", "BetaNoise": "Beta noise", "GammaNoise": "Gamma noise", "LogarithmicNoise": "Logarithmic noise", "LogisticNoise": "Logistic noise",
         "LomaxNoise": "Lomax noise", "WaldNoise": "Wald noise", "ChiSquareNoise": "Chi-square noise"}


@contract("C21", functions=["sumpf._data._signals._noise.Noise.__init__", "sumpf._data._signals._noise.Noise.seed"] + [f"sumpf.{n}.{m}" for n in NOISE if " " not in n for m in ("__init__", "_function")],
          choices={"noise": list(NOISE)}, mode="R")
def noise(I, K, S):
    """the samples are the numbers, that NumPy's generator with the given seed draws from the distribution with the given parameters"""
    name = I["noise"]
    n, seed, rate = I.int("length", 0), I.int("seed", 0), I.real("sampling_rate", positive=True)
    kw, method, params = noise_parameters(I, name)
    s = getattr(S, name.split()[0])(seed=seed, sampling_rate=rate, length=n, **kw)
    expected = K.draws(method, seed, *params)
    K.array("samples", s.channels(), (1, n), lambda c, i: expected(n, i), dtype="float64")
    header(K, s, (NOISE[name],), sampling_rate=rate, offset=0, length=n, seed=seed)


# ------------------------------------------------------------------ harmonics

HARMONIC = ["sumpf._data._signals._sweep.BaseExponentialSweep.harmonic_impulse_response", "sumpf._data._signals._sweep.apply_delay"]


@contract("C21", functions=HARMONIC, choices={"harmonic": [1, 2, 3, 5], "length": [False, True], "inverse": [False, True]}, where=lambda c: not c["inverse"] or c["harmonic"] < 3, mode="R")
def harmonics(I, K, S):
    """the harmonic impulse response starts log(harmonic) times the sweep rate before the linear one and ends, where the one of the next lower order starts"""
    h = I["harmonic"]
    m, rate = I.int("sweep.length", 1, 8192), I.real("sampling_rate", positive=True)
    f0 = I.real("start_frequency", positive=True)
    f1 = f0 * (1.0 + I.real("ratio", positive=True))
    sweep = (S.InverseExponentialSweep if I["inverse"] else S.ExponentialSweep)(start_frequency=f0, stop_frequency=f1, sampling_rate=rate, length=m)
    l = m / rate / K.fn("log", f1 / f0)
    x = I.signal("response", min_channels=1)
    a, o, c, fs = K.elem(x.channels()), x.offset(), K.len(x), x.sampling_rate()
    I.assume(o <= 0)
    delay = math.log(h) * l if h > 1 else 0.0
    shift = K.ceil(delay * fs) if h > 1 else 0
    start = 0 - shift - o
    stop = x.length() if h == 1 else 0 - o if h == 2 else 0 - K.floor(math.log(h - 1) * l * fs) - o
    I.assume(K.and_(start >= 0, start <= x.length(), stop <= x.length()))
    if h > 1:
        I.assume(stop > 0)
    if not K.symbolic:
        I.assume(x.length() < 60)
        I.assume(all(abs(math.log(k) * l * fs - round(math.log(k) * l * fs)) > 1e-6 for k in range(2, h + 1)))      # the cuts do not depend on rounding errors
    cut = x.channels()[:, start:stop]
    n = cut.shape[1]
    K.eq("length of the cut", n, stop - start)
    rest = shift / fs - delay
    length = I.int("length", 0) if I["length"] else n
    r = sweep.harmonic_impulse_response(x, h, length) if I["length"] else sweep.harmonic_impulse_response(x, h)
    for name, value, expected in (("sampling rate", r.sampling_rate(), fs), ("offset", r.offset(), 0), ("length", r.length(), length)):
        K.eq(name, value, expected)
    K.labels("labels", r.labels(), c, lambda i: f"{K.item(x.labels(), i)} ({ {1: '1st', 2: '2nd', 3: '3rd', 5: '5th'}[h] } harmonic)")
    width = length if I["length"] and n < length else n

    def sample(ch, i):
        def padded(t):
            return K.ite(t < n, lambda: a(ch, start + t), lambda: 0.0) if I["length"] else a(ch, start + t)
        if h == 1:
            return padded(i)
        return K.irdft(width, i, lambda k: K.op("multiply", K.dft(width, k, padded), K.fn("exp", K.cplx(0.0, 2.0 * PI * (k / (width * (1.0 / fs))) * rest))))
    K.array("samples", r.channels(), (c, length), sample)
