"""C02: sample-wise algebra of signals"""
import operator
from pyvc.api import contract

OPS = {
    "add": (operator.add, "add", None, "Sum"),
    "sub": (operator.sub, "subtract", 0.0, "Difference"),
    "mul": (operator.mul, "multiply", None, "Product"),
    "div": (operator.truediv, "true_divide", 1.0, "Quotient"),
    "mod": (operator.mod, "mod", None, "Modulo"),
    "pow": (operator.pow, "power", None, "Power"),
}


def pivoted(K, name, pivot, x):
    return x if pivot is None else K.op(name, pivot, x)


@contract("C02", functions=["sumpf.Signal._algebra_function", "sumpf.Signal.__algebra_function_signals_overlap",
                            "sumpf.Signal.__algebra_function_self_has_one_channel", "sumpf.Signal.__algebra_function_other_has_one_channel",
                            "sumpf.Signal.__algebra_function_different_shapes", "sumpf._data._sampled_data.SampledData.__add__ (and the other binary operators)",
                            "sumpf.Signal.__mod__", "sumpf.Signal.__init__", "sumpf._internal.allocate_array", "sumpf._internal.sanitize_labels"],
          choices={"op": list(OPS)}, weight=2)
def signal_with_signal(I, K, S):
    apply, name, pivot, label = OPS[I["op"]]
    a = I.signal("a", min_channels=1)
    b = I.signal("b", min_channels=1)
    ea, eb = K.elem(a.channels()), K.elem(b.channels())
    ca, cb, na, nb, oa, ob = K.len(a), K.len(b), a.length(), b.length(), a.offset(), b.offset()
    sr = a.sampling_rate()
    r = apply(a, b)
    start, stop = K.min(oa, ob), K.max(oa + na, ob + nb)
    n, c = stop - start, K.max(ca, cb)
    K.check("type", isinstance(r, S.Signal))
    K.eq("offset", r.offset(), start)
    K.eq("sampling rate", r.sampling_rate(), sr)
    K.eq("length", r.length(), n)

    def elem(i, t):
        T = start + t
        has_a = K.and_(K.or_(i < ca, ca == 1), oa <= T, T < oa + na)
        has_b = K.and_(K.or_(i < cb, cb == 1), ob <= T, T < ob + nb)
        va = lambda: ea(K.ite(ca == 1, 0, i), T - oa)       # noqa: E731
        vb = lambda: eb(K.ite(cb == 1, 0, i), T - ob)       # noqa: E731
        return K.ite(has_a,
                     lambda: K.ite(has_b, lambda: K.op(name, va(), vb()), va),
                     lambda: K.ite(has_b, lambda: pivoted(K, name, pivot, vb()), 0.0))
    K.array("samples", r.channels(), (c, n), elem, "float64")
    K.labels("labels", r.labels(), c, lambda i: label)


@contract("C02", functions=["sumpf.Signal.__algebra_function_different_type", "sumpf.Signal._algebra_function_right"],
          choices={"op": list(OPS), "other": ["number", "vector", "matrix", "row", "column"], "side": ["left", "right"]},
          where=lambda c: not (c["side"] == "right" and c["other"] != "number" and c["op"] not in ("add", "pow")))
def signal_with_array(I, K, S):
    apply, name, pivot, label = OPS[I["op"]]
    a = I.signal("a", min_channels=1)
    ca, na = K.len(a), a.length()
    ea = K.elem(a.channels())
    kind = I["other"]
    if kind == "number":
        x = I.num("x")
        get = lambda i, t: x        # noqa: E731
    else:
        shape = {"vector": (na,), "matrix": (ca, na), "row": (1, na), "column": (ca, 1)}[kind]
        x = I.array("x", shape)
        ex = K.elem(x)
        get = {"vector": lambda i, t: ex(t), "matrix": lambda i, t: ex(i, t), "row": lambda i, t: ex(0, t), "column": lambda i, t: ex(i, 0)}[kind]
    if I["side"] == "left":
        r = apply(a, x)
        elem = lambda i, t: K.op(name, ea(i, t), get(i, t))     # noqa: E731
    elif kind == "number":
        r = apply(x, a)
        elem = lambda i, t: K.op(name, get(i, t), ea(i, t))     # noqa: E731
    else:
        # an array on the left side: the reflected method, as a list has no arithmetic operators of its own
        r = {"add": a.__radd__, "pow": a.__rpow__}[I["op"]](x)
        elem = lambda i, t: K.op(name, get(i, t), ea(i, t))     # noqa: E731
    K.check("type", isinstance(r, S.Signal))
    K.eq("offset", r.offset(), a.offset())
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.array("samples", r.channels(), (ca, na), elem, "float64")
    K.labels("labels", r.labels(), ca, lambda i: K.item(a.labels(), i))


@contract("C02", functions=["sumpf.Signal.__abs__", "sumpf.Signal.__neg__", "sumpf.Signal.__reversed__"], choices={"op": ["abs", "neg"]})
def signal_unary(I, K, S):
    a = I.signal("a")
    ea = K.elem(a.channels())
    r = {"abs": operator.abs, "neg": operator.neg}[I["op"]](a)
    K.eq("offset", r.offset(), a.offset())
    K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
    K.array("samples", r.channels(), a.shape(), lambda i, t: K.op({"abs": "absolute", "neg": "negative"}[I["op"]], ea(i, t)))
    K.labels("labels", r.labels(), K.len(a), lambda i: K.item(a.labels(), i))


@contract("C02", functions=["sumpf.Signal._algebra_function"], choices={"op": list(OPS), "other": ["spectrum", "spectrogram", "filter", "complex"]})
def signal_with_other_types(I, K, S):
    """combinations without a meaning raise a TypeError instead of computing something"""
    apply, name, pivot, label = OPS[I["op"]]
    a = I.signal("a", min_channels=1, min_length=1)
    other = {"spectrum": lambda: S.Filter(), "spectrogram": lambda: S.Filter(), "filter": lambda: S.Filter(), "complex": lambda: 1.0 + 2.0j}[I["other"]]()
    if I["other"] == "complex":
        K.raises("TypeError", TypeError, lambda: apply(a, other))
    else:
        K.check("not implemented", type(a)._algebra_function(a, other, None, None, "") is NotImplemented)
