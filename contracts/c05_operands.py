"""C05: operations do not modify their operands (that the operands' arrays are not written to is proved at the end of every contract)"""
from pyvc.api import contract
from contracts.algebra import OPS
from contracts.c10_merge import position
from contracts.c12_terms import frequency
from contracts.c13_filters import make as make_filter, make_term, CLASSES, OPERATORS

FIELDS = ("sampling_rate", "offset", "resolution", "length", "number_of_frequencies")


class State:
    """everything, that can be observed of a data set, but the elements of its array"""

    def __init__(self, K, a):
        self.a, self.channels, self.labels = a, a.channels(), a.labels()
        self.fields = {f: getattr(a, f)() for f in FIELDS if hasattr(a, f)}
        self.shape = a.shape()

    def unchanged(self, K, name):
        a = self.a
        K.check(f"{name}: data", a.channels() is self.channels)
        for f, v in self.fields.items():
            K.eq(f"{name}: {f}", getattr(a, f)(), v)
        K.eq(f"{name}: shape", a.shape(), self.shape)
        K.check(f"{name}: labels", a.labels() is self.labels)


def container(I, kind, name="a", **kw):
    return {"signal": I.signal, "spectrum": I.spectrum, "spectrogram": I.spectrogram}[kind](name, **kw)


COMMON = {
    "negative": lambda I, K, S, a: -a,
    "absolute": lambda I, K, S, a: abs(a),
    "pad": lambda I, K, S, a: a.pad(I.int("target", 0)),
    "pad with value": lambda I, K, S, a: a.pad(I.int("target", 0), I.num("value")),
    "channel": lambda I, K, S, a: a[I.int("index", 0, K.len(a) - 1)],
    "slice of channels": lambda I, K, S, a: a[I.int("start"):I.int("stop")],
    "slice of samples": lambda I, K, S, a: a[:, I.int("start"):I.int("stop")] if a.channels().ndim == 2 else a[:, :, I.int("start"):I.int("stop")],
    "merge": lambda I, K, S, a: S.Merge([a]).output(),
    "concatenate": lambda I, K, S, a: S.Concatenate([a]).output(),
    "equality": lambda I, K, S, a: (a == a, a != a),
    "hash": lambda I, K, S, a: a.__hash__(),     # pylint: disable=unnecessary-dunder-call
    "length": lambda I, K, S, a: (a.length(), a.shape(), K.len(a)),
}
TIME = {"time samples": lambda I, K, S, a: a.time_samples(), "duration": lambda I, K, S, a: a.duration()}
TIME.update({f"shift {m}": lambda I, K, S, a, m=m: a.shift(I.int("shift"), getattr(type(a).shift_modes, m)) for m in ("OFFSET", "CROP", "PAD", "CYCLE")})
FREQUENCY = {n: lambda I, K, S, a, n=n: getattr(a, n.replace(" ", "_"))() for n in ("magnitude", "phase", "real", "imaginary", "conjugate", "frequency samples", "maximum frequency")}
NUMBERS = {f"{o} {side}": lambda I, K, S, a, o=o, side=side: OPS[o][0](a, I.num("number")) if side == "number" else OPS[o][0](I.num("number"), a)
           for o in OPS for side in ("number", "number first")}
ARRAYS = {f"{o} {side}": lambda I, K, S, a, o=o, side=side: OPS[o][0](a, I.array("array", a.shape())) for o in OPS for side in ("array",)}
UNARY = {
    "signal": {**COMMON, **TIME, **NUMBERS, **ARRAYS, "reversed": lambda I, K, S, a: reversed(a), "invert": lambda I, K, S, a: ~a,
               "fourier transform": lambda I, K, S, a: a.fourier_transform(),
               "modulo": lambda I, K, S, a: a % I.num("number"),
               "convolve number": lambda I, K, S, a: a.convolve(I.num("number")),
               "rmod": lambda I, K, S, a: I.num("number") % a},
    "spectrum": {**COMMON, **FREQUENCY, **NUMBERS, **ARRAYS, "invert": lambda I, K, S, a: ~a,
                 "inverse fourier transform": lambda I, K, S, a: a.inverse_fourier_transform()},
    "spectrogram": {**COMMON, **TIME, **FREQUENCY, **NUMBERS, **ARRAYS},
}


@contract("C05", functions=[f"sumpf.{k}.{m}" for k, ms in (("Signal", ("__neg__", "__abs__", "__getitem__", "__reversed__", "__invert__", "__mod__", "pad", "shift", "fourier_transform", "time_samples", "convolve", "_algebra_function", "_algebra_function_right", "__hash__", "__eq__")),
                                                         ("Spectrum", ("__neg__", "__abs__", "__getitem__", "__invert__", "pad", "inverse_fourier_transform", "frequency_samples", "magnitude", "phase", "real", "imaginary", "conjugate", "_algebra_function", "_algebra_function_right", "__hash__", "__eq__")),
                                                         ("Spectrogram", ("__neg__", "__abs__", "__getitem__", "pad", "shift", "time_samples", "frequency_samples", "magnitude", "phase", "real", "imaginary", "conjugate", "_algebra_function", "_algebra_function_right", "__hash__", "__eq__"))) for m in ms],
          choices={"kind": ["signal", "spectrum", "spectrogram"], "operation": sorted({o for k in UNARY for o in UNARY[k]})}, where=lambda c: c["operation"] in UNARY[c["kind"]])
def unary(I, K, S):
    """operations on a single data set"""
    extra = {"min_channels": 1} if I["operation"] == "channel" else {"min_length": 1} if (I["kind"], I["operation"]) == ("signal", "invert") else {}
    a = container(I, I["kind"], **extra)
    s = State(K, a)
    UNARY[I["kind"]][I["operation"]](I, K, S, a)
    s.unchanged(K, "operand")


def merged(mode):
    return lambda I, K, S, a, b: S.Merge([a, b], getattr(S.Merge.modes, mode)).output()


BINARY = {o: lambda I, K, S, a, b, o=o: OPS[o][0](a, b) for o in OPS}
BINARY["equality"] = lambda I, K, S, a, b: a == b
SAME = {"merge": merged("FIRST_DATASET_FIRST"), "merge channels": merged("FIRST_CHANNELS_FIRST"), "concatenate": lambda I, K, S, a, b: S.Concatenate([a, b]).output()}
CONVOLUTION = {f"{f} {m}": lambda I, K, S, a, b, f=f, m=m: getattr(a, f)(b, getattr(S.Signal.convolution_modes, m))
               for f in ("convolve", "correlate") for m in ("FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED")}
PAIRS = {"signal:signal": {**BINARY, **SAME, **CONVOLUTION}, "spectrum:spectrum": {**BINARY, **SAME}, "spectrogram:spectrogram": {**BINARY, **SAME},
         "signal:spectrogram": BINARY, "spectrogram:signal": BINARY, "spectrum:spectrogram": BINARY, "spectrogram:spectrum": BINARY, "signal:spectrum": {"equality": BINARY["equality"]}}


@contract("C05", functions=["sumpf.Signal._algebra_function", "sumpf.Spectrum._algebra_function", "sumpf.Spectrogram._algebra_function", "sumpf.Spectrogram._algebra_function_right", "sumpf.Signal.convolve", "sumpf.Signal.correlate",
                            "sumpf.Merge.output", "sumpf.Concatenate.output", "sumpf._internal._convolution.convolve", "sumpf._internal._convolution.correlate"],
          choices={"kinds": sorted(PAIRS), "operation": sorted({o for k in PAIRS for o in PAIRS[k]})}, where=lambda c: c["operation"] in PAIRS[c["kinds"]], weight=2)
def binary(I, K, S):
    """operations on two data sets"""
    first, second = I["kinds"].split(":")
    one = {"min_length": 1} if I["operation"] in CONVOLUTION else {}
    a, b = container(I, first, "a", **one), container(I, second, "b", **one)
    if first == second == "spectrum" and I["operation"] in OPS:
        I.assume(a.length() == b.length())
    if first in ("spectrum", "spectrogram") and second in ("spectrum", "spectrogram") and first != second:
        I.assume((a.number_of_frequencies() if first == "spectrogram" else a.length()) == (b.number_of_frequencies() if second == "spectrogram" else b.length()))
    if I["operation"] == "merge channels":
        for j in (0, 1):
            I.invariant(lambda k, j=j: position(K, [K.len(a), K.len(b)], "FIRST_CHANNELS_FIRST", j, k))
    s, t = State(K, a), State(K, b)
    K.catch(lambda: BINARY[I["operation"]](I, K, S, a, b) if I["operation"] in BINARY else PAIRS[I["kinds"]][I["operation"]](I, K, S, a, b))
    s.unchanged(K, "first operand")
    t.unchanged(K, "second operand")


@contract("C05", functions=["sumpf.Signal._algebra_function", "sumpf.Spectrum._algebra_function", "sumpf.Spectrogram._algebra_function"], choices={"kind": ["signal", "spectrum", "spectrogram"], "operator": list(OPS)})
def same_operand(I, K, S):
    """both operands are the same object"""
    a = container(I, I["kind"])
    s = State(K, a)
    OPS[I["operator"]][0](a, a)
    s.unchanged(K, "operand")


SHARING = {"slice of samples": UNARY["signal"]["slice of samples"], "slice of channels": COMMON["slice of channels"], "shift OFFSET": TIME["shift OFFSET"], "pad to the same length": lambda I, K, S, a: a.pad(a.length()),
           "merge": COMMON["merge"], "concatenate": COMMON["concatenate"]}


@contract("C05", functions=["sumpf.Signal.__getitem__", "sumpf.Signal.shift"], choices={"first": sorted(SHARING), "second": ["add signal", "mul number", "absolute", "negative", "reversed", "fourier transform", "pad", "merge", "concatenate", "invert"]}, tier="thorough")
def history(I, K, S):
    """the result of an operation, which may share memory with the operand, is used for another operation"""
    a = I.signal("a")
    r = SHARING[I["first"]](I, K, S, a)
    s, t = State(K, a), State(K, r)
    second = I["second"]
    if second == "add signal":
        b = I.signal("b")
        K.catch(lambda: r + b)
    elif second == "merge":
        b = I.signal("b")
        K.catch(lambda: S.Merge([r, b]).output())
    elif second == "concatenate":
        b = I.signal("b")
        K.catch(lambda: S.Concatenate([r, b]).output())
    elif second == "pad":
        r.pad(I.int("second target", 0))
    elif second == "mul number":
        r * I.num("factor")
    else:
        K.catch(lambda: UNARY["signal"][second](I, K, S, r))
    s.unchanged(K, "first operand")
    t.unchanged(K, "second operand")


FILTER = {"negative": lambda a, x: -a, "absolute": lambda a, x: abs(a), "invert": lambda a, x: ~a, "channel": lambda a, x: a[0], "add number": lambda a, x: a + x, "number divided": lambda a, x: x / a,
          "evaluate": lambda a, x: a(x)}


@contract("C05", functions=["sumpf.Filter.__neg__", "sumpf.Filter.__abs__", "sumpf.Filter.__invert__", "sumpf.Filter.__call__"] + [f"sumpf.Filter.{t}" for t in ("Constant", "Polynomial", "Exp", "Absolute", "Negative", "Sum", "Difference", "Product", "Quotient")],
          choices={"term": [c for c in CLASSES if c not in ("any", "quotient")], "operation": sorted(FILTER)}, mode="R")
def filters(I, K, S):
    """a filter (with each class of terms) evaluates to the same values after an operation"""
    term = make_term(I, K, S, I["term"], "a")
    a = S.Filter((term,), labels=("label",))
    f, x = frequency(I), I.real("x")
    I.assume(K.not_(K.same(x, 0.0)))
    before, ts, labels = a(f)[0], a.transfer_functions(), a.labels()
    if I["operation"] in ("invert", "number divided"):
        I.assume(K.not_(K.same(before, 0.0)))
    FILTER[I["operation"]](a, x)
    K.eq("value", a(f)[0], before)
    K.check("transfer functions", a.transfer_functions()[0] is term and a.transfer_functions() is ts)
    K.check("labels", a.labels() is labels)


@contract("C05", functions=["sumpf.Filter.__add__", "sumpf.Filter.__sub__", "sumpf.Filter.__mul__", "sumpf.Filter.__truediv__", "sumpf.Filter.__eq__"], choices={"first": [c for c in CLASSES if c != "quotient"], "second": ["any", "constant", "product2"], "operator": list(OPERATORS) + ["equality"]}, mode="R")
def filter_pairs(I, K, S):
    """two filters evaluate to the same values after an operation"""
    pair_of_filters(I, K, S)


@contract("C05", functions=["sumpf.Filter.__add__", "sumpf.Filter.__sub__", "sumpf.Filter.__mul__", "sumpf.Filter.__truediv__", "sumpf.Filter.__eq__"], choices={"first": [c for c in CLASSES if c != "quotient"], "second": ["polynomial2", "sum2"], "operator": list(OPERATORS) + ["equality"]}, mode="R", tier="thorough")
def more_filter_pairs(I, K, S):
    """two filters with the remaining classes of terms evaluate to the same values after an operation"""
    pair_of_filters(I, K, S)


def pair_of_filters(I, K, S):
    a, b = (S.Filter((make_term(I, K, S, I[n], n),), labels=(n,)) for n in ("first", "second"))
    f = frequency(I)
    before = [x(f)[0] for x in (a, b)]
    if I["operator"] == "div":
        I.assume(K.not_(K.same(before[1], 0.0)))
    if I["operator"] == "equality":
        a == b          # pylint: disable=pointless-statement
    else:
        OPERATORS[I["operator"]][0](a, b)
    K.eq("first value", a(f)[0], before[0])
    K.eq("second value", b(f)[0], before[1])
    K.eq("labels", (a.labels(), b.labels()), (("first",), ("second",)))


@contract("C05", functions=["sumpf.Filter.__call__"], choices={"term": [c for c in CLASSES if c != "quotient"]}, mode="R")
def evaluation(I, K, S):
    """evaluating a filter does not modify the array of frequencies"""
    a = S.Filter((make_term(I, K, S, I["term"], "a"),) * 2, labels=("x", "y"))
    fs = I.array("frequencies", (I.int("length", 1),))
    a(fs)
    a(fs)


@contract("C05", functions=["sumpf.Filter.__mul__", "sumpf.Filter.__rmul__"], choices={"kind": ["signal", "spectrum", "spectrogram"], "side": ["left", "right"]}, mode="R")
def applying(I, K, S):
    """applying a filter to a data set"""
    a = make_filter(I, S, "f", I.int("channels", 1, 1))
    x = container(I, I["kind"])
    s = State(K, x)
    ts = a.transfer_functions()
    K.catch(lambda: a * x if I["side"] == "left" else x * a)
    s.unchanged(K, "data set")
    K.check("filter", a.transfer_functions() is ts)


def evaluate_bands(I, S, n):
    xs, ys = I.points("xs", n, positive=True), I.array("ys", (n,), positive=True)
    flags = S.Bands.interpolations
    a = S.Filter((S.Filter.Bands(xs, ys, getattr(flags, I["interpolation"]), getattr(flags, I["extrapolation"])),))
    fs = I.array("frequencies", (I.int("length", 1),), positive=True)
    a(fs)
    a(fs)


@contract("C05", functions=["sumpf.Filter.Bands", "sumpf._internal._interpolation"], choices={"interpolation": ["LINEAR", "LOGARITHMIC", "ZERO"], "extrapolation": ["ONE"]}, mode="R")
def bands(I, K, S):
    """evaluating a bands term modifies neither its supporting points nor the frequencies (two supporting points; C15 proves this for any number)"""
    evaluate_bands(I, S, 2)


@contract("C05", functions=["sumpf.Filter.Bands", "sumpf._internal._interpolation"], choices={"interpolation": ["LINEAR", "LOGARITHMIC", "ZERO"], "extrapolation": ["LINEAR"]}, mode="R", tier="thorough")
def bands_with_extrapolation(I, K, S):
    """the same with an extrapolation, that depends on the supporting points"""
    evaluate_bands(I, S, 2)


ALL = ["ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG"]


@contract("C05", functions=["sumpf.Filter.Bands", "sumpf._internal._interpolation"], choices={"interpolation": ALL, "extrapolation": ALL}, mode="R", random_only=True, notes="bounded: run-time checks")
def bands_any_mode(I, K, S):
    """the other modes and numbers of supporting points"""
    evaluate_bands(I, S, I.int("points", 1, 9))


@contract("C05", functions=["sumpf._data._signals._sweep.BaseExponentialSweep.harmonic_impulse_response", "sumpf._data._signals._sweep.apply_delay"],
          choices={"harmonic": [1, 2, 3], "length": [False, True], "inverse": [False, True]}, where=lambda c: not c["inverse"] or c["harmonic"] == 2, mode="R")
def harmonics(I, K, S):
    """cutting out the impulse response of a harmonic"""
    rate = I.real("sampling_rate", positive=True)
    f0 = I.real("start_frequency", positive=True)
    f1 = f0 * (1.0 + I.real("ratio", positive=True))
    sweep = (S.InverseExponentialSweep if I["inverse"] else S.ExponentialSweep)(start_frequency=f0, stop_frequency=f1, sampling_rate=rate, length=I.int("sweep.length", 1, 8192))
    x = I.signal("response", min_channels=1)
    s, t = State(K, x), State(K, sweep)
    sweep.harmonic_impulse_response(x, I["harmonic"], I.int("length", 0) if I["length"] else None)
    s.unchanged(K, "impulse response")
    t.unchanged(K, "sweep")


@contract("C05", functions=["sumpf.Signal.level", "sumpf.Signal.mean", "sumpf.Signal.level_vs_time", "sumpf.Signal.short_time_fourier_transform", "sumpf.Spectrogram.inverse_short_time_fourier_transform"],
          choices={"operation": ["level", "mean", "standard_deviation", "variance", "skewness", "kurtosis", "level_vs_time", "block_wise", "short_time", "short_time_window", "inverse_short_time", "spectrum_level", "decay"]}, random_only=True,
          notes="bounded: run-time checks")
def statistics(I, K, S):
    op = I["operation"]
    if op == "inverse_short_time":
        a = I.spectrogram("a", channels=I.int("channels", 1, 3), frequencies=I.int("frequencies", 2, 9), length=I.int("length", 1, 9))
        s = State(K, a)
        a.inverse_short_time_fourier_transform(window=2 * (a.number_of_frequencies() - 1))
        s.unchanged(K, "operand")
        return
    if op == "spectrum_level":
        a = I.spectrum("a", channels=I.int("channels", 1, 3), length=I.int("length", 1, 50))
        s = State(K, a)
        a.level()
        a.level(single_value=True)
        s.unchanged(K, "operand")
        return
    a = I.signal("a", channels=I.int("channels", 1, 3), length=I.int("length", 4, 60))
    s = State(K, a)
    if op == "level_vs_time":
        a.level_vs_time(I.int("samples", 1, 20) / a.sampling_rate())
    elif op == "block_wise":
        a.fourier_transform(window=I.int("window", 2, 16), overlap=0.5)
    elif op == "short_time":
        a.short_time_fourier_transform(window=I.int("window", 2, a.length()), overlap=0.5)
    elif op == "short_time_window":
        w = S.HannWindow(plateau=0, sampling_rate=a.sampling_rate(), length=I.int("window", 2, a.length()))
        t = State(K, w)
        a.short_time_fourier_transform(window=w, overlap=0.5)
        t.unchanged(K, "window")
    elif op == "decay":
        d = S.EnergyDecayCurve(a)
        t = State(K, d)
        d.reverberation_time(0, 3)
        d.decay_model(0, 3)
        t.unchanged(K, "decay")
    else:
        getattr(a, op)()
        getattr(a, op)(single_value=True)
    s.unchanged(K, "operand")
