"""C09: Fourier transforms"""
from pyvc.api import contract

PI = 3.141592653589793
FWD = ["sumpf.Signal.fourier_transform", "sumpf.Signal.__full_fourier_transform"]
INV = ["sumpf.Spectrum.inverse_fourier_transform"]


@contract("C09", functions=FWD, choices={"offset": ["zero", "any"]}, mode="V")
def fourier_transform(I, K, S):
    """half the length plus one bins, each is the discrete Fourier transform, delayed by the offset"""
    x = I.signal("x", offset=0) if I["offset"] == "zero" else I.signal("x")
    c, n, o = x.shape()[0], x.length(), x.offset()
    e, la = K.elem(x.channels()), x.labels()
    r = x.fourier_transform()
    K.check("type", type(r) is S.Spectrum)
    K.eq("resolution", r.resolution(), x.sampling_rate() / K.max(n, 1))
    K.labels("labels", r.labels(), c, lambda i: K.item(la, i))

    def value(ch, k):
        def transformed():
            d = K.dft(n, k, lambda t: e(ch, t))
            return K.ite(o == 0, lambda: d, lambda: K.op("multiply", d, K.fn("exp", K.cplx(0.0, -2.0 * PI * k * o / K.max(n, 1)))))
        return K.ite(n == 0, lambda: 0.0, transformed)
    K.array("bins", r.channels(), (c, n // 2 + 1), value)


@contract("C09", functions=INV, mode="V")
def inverse_fourier_transform(I, K, S):
    """twice the length minus two samples, without offset"""
    x = I.spectrum("x")
    c, n = x.shape()[0], x.length()
    e, la = K.elem(x.channels()), x.labels()
    r = x.inverse_fourier_transform()
    length = K.ite(n == 0, 0, K.max(1, 2 * n - 2))
    K.check("type", type(r) is S.Signal)
    K.eq("offset", r.offset(), 0)
    K.eq("length", r.length(), length)
    K.eq("sampling rate", r.sampling_rate(), x.resolution() * length)
    K.labels("labels", r.labels(), c, lambda i: K.item(la, i))
    K.array("samples", r.channels(), (c, length), lambda ch, t: K.irdft(length, t, lambda k: e(ch, k)))


@contract("C09", functions=FWD + INV, mode="V")
def round_trip(I, K, S):
    """transforming a signal of an even length forth and back restores it"""
    h = I.int("half of the length", 1)
    x = I.signal("x", length=2 * h, offset=0)
    e, la = K.elem(x.channels()), x.labels()
    r = x.fourier_transform().inverse_fourier_transform()
    K.eq("sampling rate", r.sampling_rate(), x.sampling_rate())
    K.eq("offset", r.offset(), 0)
    K.labels("labels", r.labels(), x.shape()[0], lambda i: K.item(la, i))
    K.array("samples", r.channels(), x.shape(), e)


@contract("C09", functions=["sumpf.Signal.__block_wise_fourier_transform", "sumpf._internal.get_window", "sumpf._internal.scaling_factor"], choices={"pad": [True, False], "offset": [False, True], "rectangular": [True, False]}, random_only=True)
def block_wise(I, K, S):
    """the sum of the transforms of all (delayed) blocks (bounded: run-time checks)"""
    n, w = I.int("length", 0, 40), I.int("window length", 1, 16)
    overlap = 0 if I["rectangular"] else I.int("overlap", 0, w - 1)
    x = I.signal("x", channels=I.int("channels", 1, 2), length=n, offset=I.int("offset") if I["offset"] else 0)
    e = K.elem(x.channels())
    win = I.array("window", (1, w))
    win[:] = abs(win) + 0.1
    if I["rectangular"]:
        win[:] = 1.0
    I.frozen.pop()
    r = x.fourier_transform(window=S.Signal(win, sampling_rate=x.sampling_rate()), overlap=overlap, pad=I["pad"])
    step = w - overlap
    starts = [i for i in range(-step * w, n, step) if (i > -w and i < n if I["pad"] else i >= 0 and i + w <= n)]
    factor = 1.0
    if not I["rectangular"]:
        # the factor, that makes the overlapping windows in the interval of one of them add up to one on average
        factor = w / sum(float(v) for i in range(-step * w, w, step) for t, v in enumerate(win[0], i) if 0 <= t < w)

    def value(c, k):
        def term(t):
            return e(c, t) * factor * sum(win[0, t - i] for i in starts if 0 <= t - i < w) * K.fn("exp", K.cplx(0.0, -2.0 * PI * k * (t + x.offset()) / w))
        return sum([term(t) for t in range(n)], 0.0)
    K.eq("resolution", r.resolution(), x.sampling_rate() / w)
    K.array("bins", r.channels(), (x.shape()[0], w // 2 + 1), value)


@contract("C09", functions=["sumpf.Signal.short_time_fourier_transform", "sumpf._internal.get_window"], choices={"pad": [True, False], "windows": ["one", "many"]}, random_only=True)
def short_time(I, K, S):
    """each frame is the normalised, delayed transform of a windowed block (bounded: run-time checks)"""
    w = I.int("window length", 1, 16)
    overlap = I.int("overlap", 0, w - 1)
    n = I.int("length", w, 60)
    step = w - overlap
    x = I.signal("x", channels=I.int("channels", 1, 3), length=n)
    c = x.shape()[0]
    e, o = K.elem(x.channels()), x.offset()
    win = abs(I.array("window", (c if I["windows"] == "many" else 1, w))) + 0.1
    r = x.short_time_fourier_transform(window=S.Signal(win, sampling_rate=x.sampling_rate()), overlap=overlap, pad=I["pad"])
    m = round(o / step)
    K.eq("offset", r.offset(), m)
    K.eq("resolution", r.resolution(), x.sampling_rate() / w)
    K.eq("sampling rate", r.sampling_rate(), x.sampling_rate() / step)
    K.eq("labels", r.labels(), x.labels())
    if I["pad"]:
        K.check("number of frames", (r.length() - 1) * step >= n - w % 2 and (r.length() - 2) * step < n)
    else:
        K.eq("number of frames", r.length(), (n - w) // step + 1)

    def value(ch, k, f):
        p = win[ch if I["windows"] == "many" else 0].tolist()
        t0 = f * step - (w // 2 if I["pad"] else 0)
        v = sum([p[i] * e(ch, t0 + i) * K.fn("exp", K.cplx(0.0, -2.0 * PI * k * i / w)) for i in range(w) if 0 <= t0 + i < n], 0.0)
        return v / sum(p) * K.fn("exp", K.cplx(0.0, -2.0 * PI * k * (o - m * step) / w))
    K.array("bins", r.channels(), (c, w // 2 + 1, r.length()), value)


@contract("C09", functions=["sumpf.Spectrogram.inverse_short_time_fourier_transform"], choices={"windows": ["one", "many"]}, random_only=True)
def short_time_round_trip(I, K, S):
    """the inverse transform restores the samples at their positions (bounded: run-time checks)"""
    w = 2 * I.int("half the window length", 1, 8)
    step = I.int("step", 1, max(1, w // 2))
    n = I.int("length", w, 60)
    o = I.int("offset")
    x = I.signal("x", channels=I.int("channels", 1, 3), length=n, offset=o * step)
    c = x.shape()[0]
    e = K.elem(x.channels())
    win = S.Signal(abs(I.array("window", (c if I["windows"] == "many" else 1, w))) + 0.1, sampling_rate=x.sampling_rate())
    r = x.short_time_fourier_transform(window=win, overlap=w - step).inverse_short_time_fourier_transform(window=win, overlap=w - step)
    K.eq("offset", r.offset(), o * step)
    K.eq("sampling rate", r.sampling_rate(), x.sampling_rate())
    K.eq("labels", r.labels(), x.labels())
    K.check("length", r.length() >= n)
    K.array("samples", r.channels(), (c, r.length()), lambda ch, t: e(ch, t) if t < n else 0.0)
