"""C03: bin-wise algebra of spectrums"""
import operator
from pyvc.api import contract
from .algebra import OPS, combined

FN = ["sumpf.Spectrum._algebra_function", "sumpf._data._sampled_data.SampledData.__add__ (and the other binary operators)", "sumpf._internal.allocate_array"]


@contract("C03", functions=FN, choices={"op": list(OPS), "b": ["one", "some"]}, weight=2)
def spectrum_with_spectrum(I, K, S):
    apply, name, pivot, label = OPS[I["op"]]
    a = I.spectrum("a", min_channels=1)
    b = I.spectrum("b", length=a.length(), **({"channels": 1} if I["b"] == "one" else {"min_channels": 1}))
    ea, eb = K.elem(a.channels()), K.elem(b.channels())
    ca, cb, n = K.len(a), K.len(b), a.length()
    r = apply(a, b)
    c = K.max(ca, cb)
    K.check("type", isinstance(r, S.Spectrum))
    K.eq("resolution", r.resolution(), a.resolution())

    def elem(i, k):
        return combined(K, name, pivot,
                        K.or_(ca == 1, i < ca), lambda: ea(K.ite(ca == 1, 0, i), k),
                        K.or_(cb == 1, i < cb), lambda: eb(K.ite(cb == 1, 0, i), k))
    K.array("bins", r.channels(), (c, n), elem, "complex128")
    K.labels("labels", r.labels(), c, lambda i: label)


@contract("C03", functions=["sumpf.Spectrum._algebra_function", "sumpf.Spectrum._algebra_function_right"],
          choices={"op": list(OPS), "other": ["number", "vector", "matrix", "row", "column"], "side": ["left", "right"]},
          where=lambda c: not (c["side"] == "right" and c["other"] != "number" and c["op"] not in ("sub", "pow")))
def spectrum_with_array(I, K, S):
    apply, name, pivot, label = OPS[I["op"]]
    a = I.spectrum("a", min_channels=1)
    ca, n = K.len(a), a.length()
    ea = K.elem(a.channels())
    kind = I["other"]
    if kind == "number":
        x = I.num("x")
        get = lambda i, t: x        # noqa: E731
    else:
        shape = {"vector": (n,), "matrix": (ca, n), "row": (1, n), "column": (ca, 1)}[kind]
        x = I.array("x", shape, "complex128")
        ex = K.elem(x)
        get = {"vector": lambda i, t: ex(t), "matrix": lambda i, t: ex(i, t), "row": lambda i, t: ex(0, t), "column": lambda i, t: ex(i, 0)}[kind]
    if I["side"] == "left":
        r = apply(a, x)
        elem = lambda i, t: K.op(name, ea(i, t), get(i, t))     # noqa: E731
    else:
        r = apply(x, a) if kind == "number" else {"sub": a.__rsub__, "pow": a.__rpow__}[I["op"]](x)
        elem = lambda i, t: K.op(name, get(i, t), ea(i, t))     # noqa: E731
    K.check("type", isinstance(r, S.Spectrum))
    K.eq("resolution", r.resolution(), a.resolution())
    K.array("bins", r.channels(), (ca, n), elem, "complex128")
    K.labels("labels", r.labels(), ca, lambda i: K.item(a.labels(), i))


@contract("C03", functions=["sumpf.Spectrum.__abs__", "sumpf.Spectrum.__neg__", "sumpf.Spectrum.__invert__", "sumpf.Spectrum.conjugate"],
          choices={"op": ["abs", "neg", "invert", "conjugate"]})
def spectrum_unary(I, K, S):
    a = I.spectrum("a")
    ea = K.elem(a.channels())
    op = I["op"]
    r = {"abs": operator.abs, "neg": operator.neg, "invert": operator.invert, "conjugate": lambda x: x.conjugate()}[op](a)
    f = {"abs": lambda x: K.op("absolute", x), "neg": lambda x: K.op("negative", x), "invert": lambda x: K.op("true_divide", 1.0, x), "conjugate": lambda x: K.op("conjugate", x)}[op]
    K.check("type", isinstance(r, S.Spectrum))
    K.eq("resolution", r.resolution(), a.resolution())
    K.array("bins", r.channels(), a.shape(), lambda i, k: f(ea(i, k)))
    K.labels("labels", r.labels(), K.len(a), lambda i: K.item(a.labels(), i))


@contract("C03", functions=["sumpf.Spectrum.magnitude", "sumpf.Spectrum.phase", "sumpf.Spectrum.real", "sumpf.Spectrum.imaginary"],
          choices={"method": ["magnitude", "phase", "real", "imaginary"]})
def spectrum_parts(I, K, S):
    a = I.spectrum("a")
    ea = K.elem(a.channels())
    r = getattr(a, I["method"])()
    name = {"magnitude": "absolute", "phase": "angle", "real": "real", "imaginary": "imag"}[I["method"]]
    K.array("values", r, a.shape(), lambda i, k: K.op(name, ea(i, k)))


@contract("C03", functions=["sumpf.Spectrum._algebra_function"], choices={"op": list(OPS)})
def spectrum_with_other_types(I, K, S):
    """other data sets are not treated like arrays"""
    a = I.spectrum("a", min_channels=1)
    K.check("filter", type(a)._algebra_function(a, S.Filter(), None, None, "") is NotImplemented)
    K.check("signal", type(a)._algebra_function(a, S.Signal(), None, None, "") is NotImplemented)
