"""C18: saving and loading"""
from pyvc.api import contract
from contracts.c12_terms import value, frequency, transformed, nonzero

EXTENSION = {"TEXT_JSON": ".json", "NUMPY_NPZ": ".npz", "NUMPY_NPY": ".npy", "PYTHON_PICKLE": ".pickle", "TEXT_CSV": ".csv", "TEXT_REPR": ".txt",
             "TEXT_TAB_I": ".txt", "TEXT_TAB_J": ".dat", "TEXT_PIPE_I": ".asc", "TEXT_PIPE_J": ".dat", "TEXT_GNUPLOT": ".tab"}
DATA = {"signal": ["TEXT_JSON", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE", "TEXT_CSV"], "spectrum": ["TEXT_JSON", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE", "TEXT_CSV"],
        "spectrogram": ["TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE"]}
PARAMETERS = {"signal": ("sampling_rate", "offset"), "spectrum": ("resolution",), "spectrogram": ("resolution", "sampling_rate", "offset")}
TABLES = ("TEXT_CSV", "NUMPY_NPY")      # the sampling rate and the offset are stored as the points in time (the frequencies)
FN = ["sumpf.Signal.save", "sumpf.Signal.load", "sumpf.Spectrum.save", "sumpf.Spectrum.load", "sumpf.Spectrogram.save", "sumpf.Spectrogram.load"] + \
     [f"sumpf._internal._persistence.{m}" for m in ("read_file", "get_writer", "AutoWriter", "_signal_writers", "_signal_readers", "_spectrum_writers", "_spectrum_readers", "_spectrogram_writers", "_spectrogram_readers")]
FILTERS = ["sumpf.Filter.save", "sumpf.Filter.load", "sumpf.Bands.save"] + [f"sumpf._internal._persistence.{m}" for m in ("read_file", "get_writer", "AutoWriter", "_filter_writers", "_filter_readers")]


def container(I, kind, name="a", **kw):
    return {"signal": I.signal, "spectrum": I.spectrum, "spectrogram": I.spectrogram}[kind](name, **kw)


def save_and_load(I, K, S, x, form, cls=None):
    """saves a data set and loads it again; the name of the file either tells the format or not"""
    formats = type(x).file_formats
    how = I["name"]
    path = I.path("" if how == "none" else EXTENSION[form])
    r = x.save(path, formats.AUTO if how == "automatic" else getattr(formats, form))
    K.check("saving returns the data set", r is x)
    return (cls or type(x)).load(path)


NAMES = ["automatic", "extension", "none"]


def restored(K, kind, form, x, y):
    """the loaded data set y is the same as the saved data set x"""
    K.check("type", type(y) is type(x))
    K.eq("shape", tuple(y.shape()), tuple(x.shape()))
    if x.shape()[-1] > 1 or form not in TABLES:
        for p in PARAMETERS[kind]:
            K.eq(p, getattr(y, p)(), getattr(x, p)(), **({"tol": 1e-7} if form in TABLES else {}))
    K.array("data", y.channels(), tuple(x.shape()), K.elem(x.channels()))
    if form == "NUMPY_NPY":
        return
    K.labels("labels", y.labels(), x.shape()[0], lambda i: K.item(x.labels(), i))
    if form not in TABLES:
        K.check("equal", bool(y == x))
        K.same_hash("hash", y, x)       # the restored parameters can be used like the original ones


@contract("C18", functions=FN, choices={"kind": list(DATA), "format": list(EXTENSION), "name": NAMES}, where=lambda c: c["format"] in DATA[c["kind"]] and c["format"] != "TEXT_CSV", mode="R")
def data_sets(I, K, S):
    """a data set, that is saved in a file, is restored by loading this file"""
    kind, form = I["kind"], I["format"]
    kw = {"min_channels": 1} if form in TABLES or form == "TEXT_JSON" else {}
    if form in TABLES:
        kw["min_length"] = 1
    if kind == "spectrogram" and form == "TEXT_JSON":
        kw["min_frequencies"] = 1
    x = container(I, kind, **kw)
    restored(K, kind, form, x, save_and_load(I, K, S, x, form))


@contract("C18", functions=FN, choices={"kind": ["signal", "spectrum"], "format": ["TEXT_CSV"], "name": NAMES}, random_only=True, notes="bounded: run-time checks")
def csv(I, K, S):
    """CSV files"""
    x = container(I, I["kind"], min_channels=1, min_length=1)
    restored(K, I["kind"], "TEXT_CSV", x, save_and_load(I, K, S, x, "TEXT_CSV"))


@contract("C18", functions=FN, choices={"kind": list(DATA), "format": list(EXTENSION), "dtype": ["float32", "int64", "int32", "complex64"], "name": ["automatic"]},
          where=lambda c: c["format"] in DATA[c["kind"]] and (c["kind"] == "signal") == (c["dtype"] != "complex64") and (c["format"] != "TEXT_CSV" or c["dtype"][0] == "i"), random_only=True, notes="bounded: run-time checks")
def other_types(I, K, S):
    """data sets, whose samples are not stored with double precision, can be saved and loaded"""
    kind, form = I["kind"], I["format"]
    x = container(I, kind, dtype=I["dtype"], min_channels=1, min_length=1, **({"min_frequencies": 1} if kind == "spectrogram" else {}))
    restored(K, kind, form, x, save_and_load(I, K, S, x, form))


# ------------------------------------------------------------------------------ filters

LEAVES = ["constant", "complex", "polynomial", "exp"]
COMPOSITES = ["negative", "absolute", "sum2", "sum3", "difference", "product2", "product3", "quotient"]


def leaf(I, K, S, kind, name, inner=False):
    """a term without sub-terms (as a sub-term of others: with parameters, that are not 0)"""
    F = S.Filter

    def number(name, complex_):
        x = I.cplx(name) if complex_ else I.real(name)
        if inner:
            nonzero(I, K, x)
        return x
    if kind == "constant":
        return F.Constant(number(name + ".value", False))
    if kind == "complex":
        return F.Constant(number(name + ".value", True))
    if kind == "exp":
        return F.Exp(number(name + ".coefficient", not inner and I.bool(name + ".complex")), I.bool(name + ".t"))
    c = tuple(number(f"{name}.c{i}", i == 0 and (inner or I.bool(name + ".complex"))) for i in range(2))
    return F.Polynomial(c, I.bool(name + ".t"))


def composite(I, K, S, kind, subs, f):
    F = S.Filter
    t = I.bool("t")
    if kind == "negative":
        return F.Negative(subs[0], t)
    if kind == "absolute":
        return F.Absolute(subs[0], t)
    if kind[:-1] in ("sum", "product"):
        return {"sum": F.Sum, "product": F.Product}[kind[:-1]](subs[0:int(kind[-1])], t)
    if kind == "difference":
        return F.Difference(subs[0], subs[1], t)
    for g in (f, transformed(f)):
        nonzero(I, K, value(S, subs[1], g))
    return F.Quotient(subs[0], subs[1], t)


def same_filter(I, K, S, x, y, frequencies, labels=True):
    K.check("type", isinstance(y, S.Filter))
    K.eq("number of channels", len(y.transfer_functions()), len(x.transfer_functions()))
    for i, (a, b) in enumerate(zip(x.transfer_functions(), y.transfer_functions())):
        for f in frequencies:
            K.eq(f"transfer function {i}", value(S, b, f), value(S, a, f))
    if labels:
        K.labels("labels", y.labels(), len(x.labels()), lambda i: K.item(x.labels(), i))


@contract("C18", functions=FILTERS, choices={"term": LEAVES + COMPOSITES, "first": LEAVES, "second": LEAVES, "format": ["TEXT_JSON", "PYTHON_PICKLE"], "name": NAMES},
          where=lambda c: (c["term"] in COMPOSITES or c["first"] == c["second"] == c["term"]) and (c["term"] not in ("negative", "absolute") or c["first"] == c["second"])
          and (c["name"] == "automatic" or c["first"] == "exp"), mode="R")
def filters(I, K, S):
    """a filter with transfer functions of every class of terms"""
    _filters(I, K, S, I["format"])


@contract("C18", functions=FILTERS, choices={"term": LEAVES + COMPOSITES, "first": LEAVES, "second": ["exp"], "name": NAMES},
          where=lambda c: (c["term"] in COMPOSITES or c["first"] == c["term"]) and (c["name"] == "automatic" or c["first"] == "exp"), random_only=True, notes="bounded: run-time checks")
def representations(I, K, S):
    """a filter, whose representation is stored in a text file"""
    _filters(I, K, S, "TEXT_REPR")


def _filters(I, K, S, form):
    f = frequency(I)
    if I["term"] in LEAVES:
        t = leaf(I, K, S, I["term"], "a")
    else:
        t = composite(I, K, S, I["term"], [leaf(I, K, S, I["first"], "a", True), leaf(I, K, S, I["second"], "b", True), S.Filter.Exp(I.real("third"))], f)
    x = S.Filter((t, S.Filter.Exp(I.real("other"))), (I.label("label"), I.label("other label")))
    same_filter(I, K, S, x, save_and_load(I, K, S, x, form), (f,))


@contract("C18", functions=FILTERS, choices={"format": ["TEXT_JSON", "TEXT_REPR", "PYTHON_PICKLE"], "name": NAMES}, random_only=True, weight=4, notes="bounded: run-time checks")
def nested_filters(I, K, S):
    """filters with any number of arbitrarily nested terms"""
    n = I.int("channels", 1)
    x = S.Filter(I.terms("terms", n), I.label_seq("labels", n))
    y = save_and_load(I, K, S, x, I["format"])
    same_filter(I, K, S, x, y, [frequency(I), 0.3, -1.7])


BANDS = {"TEXT_TAB_I": False, "TEXT_TAB_J": False, "TEXT_PIPE_I": False, "TEXT_PIPE_J": False, "TEXT_GNUPLOT": False, "TEXT_CSV": False, "NUMPY_NPY": False,
         "TEXT_JSON": True, "TEXT_REPR": True, "NUMPY_NPZ": True, "PYTHON_PICKLE": True}      # format -> are the interpolation and the extrapolation stored?


@contract("C18", functions=FILTERS, choices={"format": list(BANDS), "name": NAMES, "values": ["real", "complex", "integer"], "frequencies": ["different", "same", "integer"], "points": ["some", "many"]}, random_only=True, weight=2,
          where=lambda c: (c["points"] == "some" or c["values"] == "complex" and c["frequencies"] == "same") and (c["format"], c["name"]) != ("TEXT_REPR", "automatic"), notes="bounded: run-time checks")
def bands(I, K, S):
    """a bands filter"""
    import random
    n = I.int("channels", 1, 4)
    r = random.Random(f"{I.seed}:{I.variant}:{n}")
    form = I["format"]
    numbers = {"real": lambda: r.choice([0.0, 1.0, -2.5, r.uniform(-3, 3), 10.0 ** r.uniform(-12, 12)]), "integer": lambda: r.randint(-3, 100),
               "complex": lambda: r.choice([0.0, 1.0, r.uniform(-3, 3), 10.0 ** r.uniform(-12, 12)]) + 1j * r.choice([0.0, 2.0, -1.0, r.uniform(-3, 3), -10.0 ** r.uniform(-12, 12)])}[I["values"]]
    points = {"different": lambda: r.choice([0.0, 1.0, 2.0, 1000.0, r.uniform(0, 20000.0), 10.0 ** r.uniform(-7, 20)]), "integer": lambda: r.randint(0, 200)}
    points["same"] = points["different"]
    number = r.randint(1, 6) if I["points"] == "some" else r.randint(1001, 1500)
    shared = [points[I["frequencies"]]() for _ in range(number)]
    channels = []
    for _ in range(n):
        fs = shared if I["frequencies"] == "same" else [r.choice([points[I["frequencies"]](), r.choice(shared)]) for _ in range(r.randint(1, 6))]
        channels.append({f: numbers() for f in fs})
    flags = list(S.Bands.interpolations)
    labels = tuple(I.label_seq("labels", n))
    x = S.Bands(channels, [r.choice(flags) for _ in range(n)], [r.choice(flags) for _ in range(n)], labels)
    y = save_and_load(I, K, S, x, form)
    K.check("type", isinstance(y, S.Filter))
    K.eq("number of channels", len(y.transfer_functions()), n)
    for i, (a, b) in enumerate(zip(x.transfer_functions(), y.transfer_functions())):
        K.check(f"supporting points {i}", len(a.xs) == len(b.xs) and bool((a.xs == b.xs).all()))
        K.check(f"values {i}", len(a.ys) == len(b.ys) and bool((a.ys == b.ys).all()))
        if BANDS[form]:
            K.check(f"interpolation {i}", a.interpolation is b.interpolation)
            K.check(f"extrapolation {i}", a.extrapolation is b.extrapolation)
    if BANDS[form] or form == "TEXT_CSV":
        K.check("labels", tuple(y.labels()) == labels)


# ------------------------------------------------------------------------------ audio files

AUDIO = {}      # format -> extension, precision (absolute, relative)
for _kind, _extension in (("WAV", ".wav"), ("AIFF", ".aiff"), ("FLAC", ".flac")):
    for _b in (8, 16, 24, 32):
        for _sign in ("INT", "UINT"):
            AUDIO[f"{_kind}_{_sign}{_b}"] = (_extension, 2.0 / 2 ** _b, 0.0)
    AUDIO[_kind + "_FLOAT32"] = (_extension, 0.0, 1e-7)
    AUDIO[_kind + "_FLOAT64"] = (_extension, 0.0, 0.0)
    AUDIO[_kind + "_ULAW"] = AUDIO[_kind + "_ALAW"] = (_extension, 2.0 / 2 ** 8, 10.0 / 2 ** 8)
_names = ["WAV_UINT8", "WAV_INT16", "WAV_INT24", "WAV_INT32", "WAV_FLOAT32", "WAV_FLOAT64", "WAV_ULAW", "WAV_ALAW", "AIFF_UINT8", "AIFF_INT8", "AIFF_INT16", "AIFF_INT24", "AIFF_INT32",
          "AIFF_FLOAT32", "AIFF_FLOAT64", "AIFF_ULAW", "AIFF_ALAW", "FLAC_INT8", "FLAC_INT16", "FLAC_INT24"]
AUDIO = {k: AUDIO[k] for k in _names}
SINGLE = ("AIFF_UINT8", "AIFF_INT8", "AIFF_ULAW", "AIFF_ALAW")      # with an odd number of bytes, a padding byte is read as a sample
AUTOMATIC = {".wav": "WAV_FLOAT32", ".aiff": "AIFF_FLOAT32", ".flac": "FLAC_INT24"}


@contract("C18", functions=FN[0:2] + ["sumpf._internal._persistence._signal_writers", "sumpf._internal._persistence._signal_readers"],
          choices={"format": list(AUDIO), "name": ["extension", "none", "automatic"], "length": ["short", "long", "chunks"], "reader": ["any", "standard library"]}, random_only=True, weight=2,
          where=lambda c: (c["name"] != "automatic" or c["format"] in AUTOMATIC.values()) and (c["reader"] == "any" or c["format"] in ("WAV_UINT8", "WAV_INT16", "WAV_INT32", "AIFF_INT8", "AIFF_INT16", "AIFF_INT32")),
          notes="bounded: run-time checks")
def audio(I, K, S):
    """a signal with samples between -1 and 1 is restored from an audio file up to the resolution of its samples"""
    import numpy
    form = I["format"]
    extension, absolute, relative = AUDIO[form]
    channels = I.int("channels", 1, 5 if I["length"] == "short" else 3)
    length = {"short": lambda: I.int("length", 3, 40), "long": lambda: 2048 + I.int("length", -3, 700), "chunks": lambda: 2048 * I.int("length", 1, 3)}[I["length"]]()
    data = I.array("data", (channels, length)).clip(-0.99, 0.99)
    rate = I.int("rate", 1000, 50000)
    x = S.Signal(channels=data.copy(), sampling_rate=float(rate), offset=I.int("offset"), labels=tuple(I.label_seq("labels", channels)))
    path = I.path("" if I["name"] == "none" else extension)
    formats = S.Signal.file_formats
    x.save(path, formats.AUTO if I["name"] == "automatic" else getattr(formats, form))
    if I["reader"] == "any":
        y = S.Signal.load(path)
    else:
        readers = S._internal.signal_readers
        y = (readers.WaveReader if form.startswith("WAV") else readers.AifcReader)()(path)
    if channels == 1 and length % 2 and form in SINGLE and y.length() == length + 1:
        y = y[:, 0:-1]
    K.check("type", type(y) is S.Signal)
    K.eq("shape", tuple(y.shape()), (channels, length))
    K.eq("sampling rate", y.sampling_rate(), float(rate))
    K.check("data", bool((numpy.abs(y.channels() - data) <= absolute + relative * numpy.abs(data)).all()))
    K.check("labels", len(y.labels()) == channels)
    K.check("saving does not modify the signal", bool((x.channels() == data).all()))
