"""C04: algebra of spectrograms"""
import operator
from pyvc.api import contract
from .algebra import OPS, combined


def result_parameters(K, S, r, a, offset, c, label):
    K.check("type", isinstance(r, S.Spectrogram))
    K.eq("offset", r.offset(), offset)
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.eq("resolution", r.resolution(), a.resolution())
    K.labels("labels", r.labels(), c, label)


FN = ["sumpf.Spectrogram._algebra_function", "sumpf.Spectrogram.__algebra_function_spectrogram", "sumpf.Spectrogram.__algebra_function_overlaps",
      "sumpf.Spectrogram.__algebra_function_spectrogram_different_number_of_channels", "sumpf.Spectrogram.__algebra_function_spectrogram_different_shapes"]
CH = {"one": {"channels": 1}, "some": {"min_channels": 2}}


@contract("C04", functions=FN, choices={"op": list(OPS), "a": list(CH), "b": list(CH), "shapes": ["same", "different"]}, weight=2,
          where=lambda c: c["shapes"] == "same" or True)
def spectrogram_with_spectrogram(I, K, S):
    apply, name, pivot, label = OPS[I["op"]]
    a = I.spectrogram("a", **CH[I["a"]])
    if I["shapes"] == "same":
        b = I.spectrogram("b", frequencies=a.number_of_frequencies(), length=a.length(), offset=a.offset(), **CH[I["b"]])
    else:
        b = I.spectrogram("b", **CH[I["b"]])
        I.assume(K.not_(K.and_(a.number_of_frequencies() == b.number_of_frequencies(), a.length() == b.length(), a.offset() == b.offset())))
    ea, eb = K.elem(a.channels()), K.elem(b.channels())
    ca, cb, na, nb, oa, ob = K.len(a), K.len(b), a.length(), b.length(), a.offset(), b.offset()
    fa, fb = a.number_of_frequencies(), b.number_of_frequencies()
    r = apply(a, b)
    start, stop = K.min(oa, ob), K.max(oa + na, ob + nb)
    c = K.max(ca, cb)

    def elem(i, f, t):
        T = start + t
        return combined(K, name, pivot,
                        K.and_(K.or_(ca == 1, i < ca), f < fa, oa <= T, T < oa + na), lambda: ea(K.ite(ca == 1, 0, i), f, T - oa),
                        K.and_(K.or_(cb == 1, i < cb), f < fb, ob <= T, T < ob + nb), lambda: eb(K.ite(cb == 1, 0, i), f, T - ob))
    K.array("values", r.channels(), (c, K.max(fa, fb), stop - start), elem, "complex128")
    result_parameters(K, S, r, a, start, c, lambda i: label)


@contract("C04", functions=["sumpf.Spectrogram.__algebra_function_signal", "sumpf.Spectrogram.__algebra_function_signal_right",
                            "sumpf.Spectrogram.__algebra_function_signal_spectrum_overlaps", "sumpf.Spectrogram.__algebra_function_signal_spectrum_different_number_of_channels",
                            "sumpf.Spectrogram.__algebra_function_signal_spectrum_different_number_of_channels_right",
                            "sumpf.Spectrogram.__algebra_function_signal_different_shapes", "sumpf.Spectrogram.__algebra_function_signal_different_shapes_right"],
          choices={"op": list(OPS), "a": list(CH), "b": list(CH), "shapes": ["same", "different"], "side": ["left", "right"]})
def spectrogram_with_signal(I, K, S):
    """every sample of the signal is combined with all frequencies of the frame at the same point in time"""
    apply, name, pivot, label = OPS[I["op"]]
    a = I.spectrogram("a", **CH[I["a"]])
    if I["shapes"] == "same":
        b = I.signal("b", length=a.length(), offset=a.offset(), **CH[I["b"]])
    else:
        b = I.signal("b", **CH[I["b"]])
        I.assume(K.not_(K.and_(a.length() == b.length(), a.offset() == b.offset())))
    ea, eb = K.elem(a.channels()), K.elem(b.channels())
    ca, cb, na, nb, oa, ob = K.len(a), K.len(b), a.length(), b.length(), a.offset(), b.offset()
    fa = a.number_of_frequencies()
    left = I["side"] == "left"
    r = apply(a, b) if left else apply(b, a)
    start, stop = K.min(oa, ob), K.max(oa + na, ob + nb)
    c = K.max(ca, cb)

    def elem(i, f, t):
        T = start + t
        ha, va = K.and_(K.or_(ca == 1, i < ca), oa <= T, T < oa + na), lambda: ea(K.ite(ca == 1, 0, i), f, T - oa)
        hb, vb = K.and_(K.or_(cb == 1, i < cb), ob <= T, T < ob + nb), lambda: eb(K.ite(cb == 1, 0, i), T - ob)
        return combined(K, name, pivot, ha, va, hb, vb) if left else combined(K, name, pivot, hb, vb, ha, va)
    K.array("values", r.channels(), (c, fa, stop - start), elem, "complex128")
    result_parameters(K, S, r, a, start, c, lambda i: label)


@contract("C04", functions=["sumpf.Spectrogram.__algebra_function_spectrum", "sumpf.Spectrogram.__algebra_function_spectrum_right"],
          choices={"op": list(OPS), "a": list(CH), "b": list(CH), "side": ["left", "right"]})
def spectrogram_with_spectrum(I, K, S):
    """every bin of the spectrum is combined with all frames of the same frequency bin"""
    apply, name, pivot, label = OPS[I["op"]]
    a = I.spectrogram("a", **CH[I["a"]])
    b = I.spectrum("b", length=a.number_of_frequencies(), **CH[I["b"]])
    ea, eb = K.elem(a.channels()), K.elem(b.channels())
    ca, cb = K.len(a), K.len(b)
    left = I["side"] == "left"
    r = apply(a, b) if left else apply(b, a)
    c = K.max(ca, cb)

    def elem(i, f, t):
        ha, va = K.or_(ca == 1, i < ca), lambda: ea(K.ite(ca == 1, 0, i), f, t)
        hb, vb = K.or_(cb == 1, i < cb), lambda: eb(K.ite(cb == 1, 0, i), f)
        return combined(K, name, pivot, ha, va, hb, vb) if left else combined(K, name, pivot, hb, vb, ha, va)
    K.array("values", r.channels(), (c, a.number_of_frequencies(), a.length()), elem, "complex128")
    result_parameters(K, S, r, a, a.offset(), c, lambda i: label)


@contract("C04", functions=["sumpf.Spectrogram.__algebra_function_different_type", "sumpf.Spectrogram._algebra_function_right"],
          choices={"op": list(OPS), "other": ["number", "vector", "plane", "cube", "column"], "side": ["left", "right"]},
          where=lambda c: not (c["side"] == "right" and c["other"] != "number" and c["op"] not in ("sub", "pow")))
def spectrogram_with_array(I, K, S):
    apply, name, pivot, label = OPS[I["op"]]
    a = I.spectrogram("a", min_channels=1)
    c, m, n = a.shape()
    ea = K.elem(a.channels())
    kind = I["other"]
    if kind == "number":
        x = I.num("x")
        get = lambda i, f, t: x        # noqa: E731
    else:
        shape = {"vector": (n,), "plane": (m, n), "cube": (c, m, n), "column": (c, 1, 1)}[kind]
        x = I.array("x", shape, "complex128")
        ex = K.elem(x)
        get = {"vector": lambda i, f, t: ex(t), "plane": lambda i, f, t: ex(f, t), "cube": ex, "column": lambda i, f, t: ex(i, 0, 0)}[kind]
    if I["side"] == "left":
        r = apply(a, x)
        elem = lambda *i: K.op(name, ea(*i), get(*i))     # noqa: E731
    else:
        r = apply(x, a) if kind == "number" else {"sub": a.__rsub__, "pow": a.__rpow__}[I["op"]](x)
        elem = lambda *i: K.op(name, get(*i), ea(*i))     # noqa: E731
    K.array("values", r.channels(), (c, m, n), elem, "complex128")
    result_parameters(K, S, r, a, a.offset(), c, lambda i: K.item(a.labels(), i))


@contract("C04", functions=["sumpf.Spectrogram.__abs__", "sumpf.Spectrogram.__neg__", "sumpf.Spectrogram.conjugate"],
          choices={"op": ["abs", "neg", "conjugate"]})
def spectrogram_unary(I, K, S):
    a = I.spectrogram("a")
    ea = K.elem(a.channels())
    op = I["op"]
    r = {"abs": operator.abs, "neg": operator.neg, "conjugate": lambda x: x.conjugate()}[op](a)
    name = {"abs": "absolute", "neg": "negative", "conjugate": "conjugate"}[op]
    K.array("values", r.channels(), a.shape(), lambda *i: K.op(name, ea(*i)))
    result_parameters(K, S, r, a, a.offset(), K.len(a), lambda i: K.item(a.labels(), i))


@contract("C04", functions=["sumpf.Spectrogram.magnitude", "sumpf.Spectrogram.phase", "sumpf.Spectrogram.real", "sumpf.Spectrogram.imaginary"],
          choices={"method": ["magnitude", "phase", "real", "imaginary"]})
def spectrogram_parts(I, K, S):
    a = I.spectrogram("a")
    ea = K.elem(a.channels())
    r = getattr(a, I["method"])()
    name = {"magnitude": "absolute", "phase": "angle", "real": "real", "imaginary": "imag"}[I["method"]]
    K.array("values", r, a.shape(), lambda *i: K.op(name, ea(*i)))
