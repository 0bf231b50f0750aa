"""C06: padding, shifting and reversing"""
from pyvc.api import contract


def container(I, kind, **kw):
    return {"signal": I.signal, "spectrum": I.spectrum, "spectrogram": I.spectrogram}[kind]("a", **kw)


def same_parameters(K, r, a, offset=None):
    """everything but the data and the offset is kept"""
    K.check("type", type(r) is type(a))
    if hasattr(a, "sampling_rate"):
        K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
        K.eq("offset", r.offset(), a.offset() if offset is None else offset)
    if hasattr(a, "resolution"):
        K.eq("resolution", r.resolution(), a.resolution())
    K.labels("labels", r.labels(), K.len(a), lambda i: K.item(a.labels(), i))


DTYPE = {"signal": "float64", "spectrum": "complex128", "spectrogram": "complex128"}


@contract("C06", functions=["sumpf.Signal.pad", "sumpf.Spectrum.pad", "sumpf.Spectrogram.pad", "sumpf._internal.allocate_array"],
          choices={"kind": ["signal", "spectrum", "spectrogram"], "value": ["default", "number"]})
def pad(I, K, S):
    a = container(I, I["kind"])
    n = a.length()
    target = I.int("target", 0)
    ea = K.elem(a.channels())
    if I["value"] == "default":
        v = 0.0
        r = a.pad(target)
    else:
        v = I.num("value")
        r = a.pad(target, v)
    same_parameters(K, r, a)
    K.eq("length", r.length(), target)
    shape = tuple(a.shape()[:-1]) + (target,)
    K.array("samples", r.channels(), shape, lambda *i: K.ite(i[-1] < n, lambda: ea(*i), v), DTYPE[I["kind"]])


@contract("C06", functions=["sumpf.Signal.shift", "sumpf.Spectrogram.shift"],
          choices={"kind": ["signal", "spectrogram"], "mode": ["OFFSET", "CROP", "PAD", "CYCLE", "default"]}, weight=2)
def shift(I, K, S):
    a = container(I, I["kind"])
    n = a.length()
    s = I.int("shift")
    ea = K.elem(a.channels())
    mode = I["mode"]
    r = a.shift(s) if mode == "default" else a.shift(s, getattr(type(a).shift_modes, mode))
    offset_mode = mode in ("OFFSET", "default")
    same_parameters(K, r, a, a.offset() + s if offset_mode else None)
    if mode == "CYCLE":
        I.assume(K.abs(s) <= n)
    length = n + K.abs(s) if mode == "PAD" else n
    shape = tuple(a.shape()[:-1]) + (length,)
    K.eq("length", r.length(), length)

    def elem(*i):
        t = i[-1]
        if offset_mode:
            return ea(*i)
        if mode == "CROP":
            return K.ite(K.and_(t >= s, t - s < n), lambda: ea(*i[:-1], t - s), 0.0)
        if mode == "PAD":
            first = K.max(s, 0)
            return K.ite(K.and_(t >= first, t - first < n), lambda: ea(*i[:-1], t - first), 0.0)
        return ea(*i[:-1], (t - s) % n)
    K.array("samples", r.channels(), shape, elem, None if offset_mode else DTYPE[I["kind"]])


@contract("C06", functions=["sumpf.Signal.shift", "sumpf.Spectrogram.shift"], choices={"kind": ["signal", "spectrogram"]})
def cyclic_shift_beyond_the_length(I, K, S):
    """a cyclic shift by more than the length of the data set"""
    a = container(I, I["kind"])
    n = a.length()
    s = I.int("shift")
    I.assume(K.abs(s) > n)
    I.assume(n > 1)
    ea = K.elem(a.channels())
    r = a.shift(s, type(a).shift_modes.CYCLE)
    same_parameters(K, r, a)
    K.array("samples", r.channels(), a.shape(), lambda *i: ea(*i[:-1], (i[-1] - s) % n), DTYPE[I["kind"]])


@contract("C06", functions=["sumpf.Signal.shift", "sumpf.Spectrogram.shift"], choices={"kind": ["signal", "spectrogram"]})
def shift_to_zero(I, K, S):
    """None sets the offset to zero"""
    a = container(I, I["kind"])
    ea = K.elem(a.channels())
    r = a.shift(None)
    same_parameters(K, r, a, 0)
    K.array("samples", r.channels(), a.shape(), ea)


@contract("C06", functions=["sumpf.Signal.__reversed__"], choices={})
def reverse(I, K, S):
    a = I.signal("a")
    ea = K.elem(a.channels())
    n = a.length()
    r = reversed(a)
    same_parameters(K, r, a, n - 1 - a.offset())
    K.array("samples", r.channels(), a.shape(), lambda i, t: ea(i, n - 1 - t))
    rr = reversed(r)
    same_parameters(K, rr, a)
    K.array("twice", rr.channels(), a.shape(), ea)
