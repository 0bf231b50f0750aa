"""C01: data containers are well-formed and describe themselves"""
from pyvc.api import contract

FN = ["sumpf._data._sampled_data.SampledData.__init__", "sumpf._data._sampled_data.SampledData.length", "sumpf._data._sampled_data.SampledData.shape",
      "sumpf._data._sampled_data.SampledData.__len__", "sumpf._internal.sanitize_labels"]
LABELS = ["none", "default", "tuple", "list", "one"]


def labels_of(I, kind, c):
    """labels as an argument, and the expected labels as (number, function)"""
    if kind in ("none", "default"):
        return None, 0, None
    if kind == "one":
        return ("the label",), 1, lambda K, i: "the label"
    n = I.int("number of labels", 0)
    seq = I.label_seq("label", n)
    if kind == "list" and not I.symbolic:
        seq = list(seq)
    if kind == "list" and I.symbolic:
        seq.kind = "list"
    return seq, n, lambda K, i: K.item(seq, i)


def check_labels(K, labels, c, n, get):
    K.labels("labels", labels, c, lambda i: K.ite(i < n, lambda: get(K, K.ite(i < n, i, 0)), "") if get else "")


def axis(K, name, arr, n, f):
    K.array(name, arr, (n,), f)


@contract("C01", functions=FN + ["sumpf.Signal.__init__", "sumpf.Signal.duration", "sumpf.Signal.time_samples", "sumpf.Signal.sampling_rate", "sumpf.Signal.offset"],
          choices={"labels": LABELS, "rate": ["real", "int"], "dtype": ["float64", "complex128", "int64"]},
          where=lambda c: c["dtype"] == "float64" or c["labels"] == "none")
def signal(I, K, S):
    c, n = I.int("channels", 0), I.int("length", 0)
    data = I.array("data", (c, n), I["dtype"])
    ed = K.elem(data)
    sr = I.real("sampling_rate", positive=True) if I["rate"] == "real" else I.int("sampling_rate", 1)
    o = I.int("offset")
    labels, m, get = labels_of(I, I["labels"], c)
    x = S.Signal(channels=data, sampling_rate=sr, offset=o, **({} if I["labels"] == "default" else {"labels": labels}))
    K.check("the data is shared", x.channels() is data)
    K.array("channels", x.channels(), (c, n), ed)
    check_labels(K, x.labels(), c, m, get)
    K.eq("number of channels", K.len(x), c)
    K.eq("length", x.length(), n)
    K.eq("shape", tuple(x.shape()), (c, n))
    K.eq("sampling rate", x.sampling_rate(), sr)
    K.eq("offset", x.offset(), o)
    K.eq("duration", x.duration(), n / sr)
    axis(K, "time samples", x.time_samples(), n, lambda t: (o + t) / sr)


@contract("C01", functions=FN + ["sumpf.Spectrum.__init__", "sumpf.Spectrum.maximum_frequency", "sumpf.Spectrum.frequency_samples", "sumpf.Spectrum.resolution"],
          choices={"labels": LABELS, "rate": ["real", "int"]})
def spectrum(I, K, S):
    c, n = I.int("channels", 0), I.int("length", 0)
    data = I.array("data", (c, n), "complex128")
    ed = K.elem(data)
    res = I.real("resolution", positive=True) if I["rate"] == "real" else I.int("resolution", 1)
    labels, m, get = labels_of(I, I["labels"], c)
    x = S.Spectrum(channels=data, resolution=res, **({} if I["labels"] == "default" else {"labels": labels}))
    K.check("the data is shared", x.channels() is data)
    K.array("channels", x.channels(), (c, n), ed)
    check_labels(K, x.labels(), c, m, get)
    K.eq("number of channels", K.len(x), c)
    K.eq("length", x.length(), n)
    K.eq("shape", tuple(x.shape()), (c, n))
    K.eq("resolution", x.resolution(), res)
    K.eq("maximum frequency", x.maximum_frequency(), (n - 1) * res)
    axis(K, "frequency samples", x.frequency_samples(), n, lambda k: k * res)


@contract("C01", functions=FN + ["sumpf.Spectrogram.__init__", "sumpf.Spectrogram.maximum_frequency", "sumpf.Spectrogram.frequency_samples", "sumpf.Spectrogram.number_of_frequencies",
                                 "sumpf.Spectrogram.duration", "sumpf.Spectrogram.time_samples", "sumpf.Spectrogram.sampling_rate", "sumpf.Spectrogram.resolution", "sumpf.Spectrogram.offset"],
          choices={"labels": LABELS, "rate": ["real", "int"]})
def spectrogram(I, K, S):
    c, f, n = I.int("channels", 0), I.int("frequencies", 0), I.int("length", 0)
    data = I.array("data", (c, f, n), "complex128")
    ed = K.elem(data)
    res = I.real("resolution", positive=True) if I["rate"] == "real" else I.int("resolution", 1)
    sr = I.real("sampling_rate", positive=True) if I["rate"] == "real" else I.int("sampling_rate", 1)
    o = I.int("offset")
    labels, m, get = labels_of(I, I["labels"], c)
    x = S.Spectrogram(channels=data, resolution=res, sampling_rate=sr, offset=o, **({} if I["labels"] == "default" else {"labels": labels}))
    K.check("the data is shared", x.channels() is data)
    K.array("channels", x.channels(), (c, f, n), ed)
    check_labels(K, x.labels(), c, m, get)
    K.eq("number of channels", K.len(x), c)
    K.eq("length", x.length(), n)
    K.eq("number of frequencies", x.number_of_frequencies(), f)
    K.eq("shape", tuple(x.shape()), (c, f, n))
    K.eq("resolution", x.resolution(), res)
    K.eq("sampling rate", x.sampling_rate(), sr)
    K.eq("offset", x.offset(), o)
    K.eq("maximum frequency", x.maximum_frequency(), (f - 1) * res)
    K.eq("duration", x.duration(), n / sr)
    axis(K, "frequency samples", x.frequency_samples(), f, lambda k: k * res)
    axis(K, "time samples", x.time_samples(), n, lambda t: (o + t) / sr)


@contract("C01", functions=["sumpf.Filter.__init__", "sumpf.Filter.__len__", "sumpf.Filter.transfer_functions", "sumpf.Filter.labels", "sumpf._internal.sanitize_labels"],
          choices={"labels": ["none", "tuple", "list", "one"], "channels": [0, 1, 2, 5]}, notes="bounded in the number of transfer functions, unbounded in the number of labels")
def filters(I, K, S):
    c = I["channels"]
    tfs = tuple(S.Filter.Constant(float(i)) for i in range(c))
    labels, m, get = labels_of(I, I["labels"], c)
    x = S.Filter(transfer_functions=tfs, labels=labels)
    check_labels(K, x.labels(), c, m, get)
    K.eq("number of channels", K.len(x), c)
    K.check("transfer functions", len(x.transfer_functions()) == c and all(p is q for p, q in zip(x.transfer_functions(), tfs)))


@contract("C01", functions=FN + ["sumpf.Signal.__init__", "sumpf.Spectrum.__init__", "sumpf.Spectrogram.__init__", "sumpf.Filter.__init__"])
def defaults(I, K, S):
    """containers without any parameters"""
    x = S.Signal()
    K.eq("signal shape", tuple(x.shape()), (1, 0))
    K.eq("signal", (x.sampling_rate(), x.offset(), x.length(), K.len(x), x.duration()), (48000.0, 0, 0, 1, 0.0))
    K.labels("signal labels", x.labels(), 1, lambda i: "")
    x = S.Spectrum()
    K.eq("spectrum shape", tuple(x.shape()), (1, 0))
    K.eq("spectrum", (x.resolution(), x.length(), K.len(x)), (1.0, 0, 1))
    K.labels("spectrum labels", x.labels(), 1, lambda i: "")
    x = S.Filter()
    K.eq("filter", K.len(x), 1)
    K.labels("filter labels", x.labels(), 1, lambda i: "")
