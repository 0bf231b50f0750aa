"""C19: equality and hashing"""
from pyvc.api import contract

EQ = ["sumpf._data.SampledData.__eq__", "sumpf._data.SampledData.__ne__", "sumpf.Signal.__eq__", "sumpf.Spectrum.__eq__", "sumpf.Spectrogram.__eq__"]
KINDS = ["signal", "spectrum", "spectrogram"]
PARAMETERS = {"signal": ("sampling_rate", "offset"), "spectrum": ("resolution",), "spectrogram": ("resolution", "sampling_rate", "offset")}


def make(I, kind, name, **kw):
    return getattr(I, kind)(name, **kw)


def content(K, x):
    return K.elem(x.channels())


@contract("C19", functions=EQ, choices={"kind": KINDS})
def faithful(I, K, S):
    """data sets, that are equal, have the same shape, parameters, labels and data; unequal is the negation of equal; the order of the operands does not matter"""
    kind = I["kind"]
    x, y = make(I, kind, "x"), make(I, kind, "y")
    e, f = content(K, x), content(K, y)
    r = bool(x == y)
    K.check("unequal is the negation", bool(x != y) == (not r))
    K.check("symmetric", bool(y == x) == r)
    K.check("symmetric unequal", bool(y != x) == (not r))
    if r:
        for p in PARAMETERS[kind]:
            K.eq(p, getattr(x, p)(), getattr(y, p)())
        K.labels("labels", y.labels(), x.shape()[0], lambda i: K.item(x.labels(), i))
        K.array("data", y.channels(), x.shape(), e)
        K.array("data", x.channels(), y.shape(), f)


def twin(I, K, S, kind, x, **changes):
    """a data set, that has got the same data, labels and parameters, except for the given ones"""
    e = content(K, x)
    d = I.copy(x.channels()) if "channels" not in changes else changes["channels"]
    if "labels" in changes:
        labels = changes["labels"]
    else:
        labels = x.labels()
    kw = {p: changes.get(p, getattr(x, p)()) for p in PARAMETERS[kind]}
    return {"signal": S.Signal, "spectrum": S.Spectrum, "spectrogram": S.Spectrogram}[kind](channels=d, labels=labels, **kw)


@contract("C19", functions=EQ + ["sumpf._data.SampledData.__hash__", "sumpf.Signal.__hash__", "sumpf.Spectrum.__hash__", "sumpf.Spectrogram.__hash__"], choices={"kind": KINDS, "same": ["object", "content"]})
def complete(I, K, S):
    """data sets with the same shape, parameters, labels and data are equal and have the same hash"""
    kind = I["kind"]
    x = make(I, kind, "x")
    y = x if I["same"] == "object" else twin(I, K, S, kind, x)
    K.check("equal", bool(x == y))
    K.check("not unequal", not bool(x != y))
    K.check("equal, reversed", bool(y == x))
    K.same_hash("hash", x, y)


@contract("C19", functions=EQ + ["sumpf._data.SampledData.__hash__"], choices={"kind": KINDS, "how": ["complex", "zeros' sign"]}, where=lambda c: c["how"] != "complex" or c["kind"] == "spectrum", mode="R")
def equal_numbers(I, K, S):
    """data sets with equal numbers are equal and have the same hash, even if the numbers are represented differently"""
    kind = I["kind"]
    if I["how"] == "complex":
        n, m = I.int("channels", 0), I.int("length", 1)
        a = I.array("data", (n, m))
        labels = I.label_seq("labels", n)
        x = S.Spectrum(channels=a, resolution=2.0, labels=labels)
        y = twin(I, K, S, kind, x, channels=a.astype("complex128"))
    else:
        x = make(I, kind, "x")
        y = twin(I, K, S, kind, x, channels=-(0.0 - x.channels()))
    K.check("equal", bool(x == y))
    K.check("not unequal", not bool(x != y))
    K.check("equal, reversed", bool(y == x))
    K.same_hash("hash", x, y)


@contract("C19", functions=EQ, choices={"kind": KINDS, "change": ["element", "label", "sampling_rate", "offset", "resolution", "exchanged elements", "exchanged labels"]},
          where=lambda c: c["change"] in ("element", "label", "exchanged elements", "exchanged labels") + PARAMETERS[c["kind"]])
def one_difference(I, K, S):
    """a single different sample, label or parameter makes data sets unequal"""
    kind, change = I["kind"], I["change"]
    x = make(I, kind, "x", min_channels=1)
    c = I.int("channel", 0, x.shape()[0] - 1)
    if change == "element":
        index = (c,) + tuple(I.int(f"index{i}", 0, n - 1) for i, n in enumerate(x.shape()[1:]))
        d = I.copy(x.channels())
        v = I.num("other value")
        I.assume(K.not_(K.same(K.elem(d)(*index), v)))
        I.frozen.pop()
        d[index] = v
        y = twin(I, K, S, kind, x, channels=d)
    elif change == "label":
        labels = I.label_seq("other labels", x.shape()[0])
        I.assume(K.not_(K.same(K.item(labels, c), K.item(x.labels(), c))))
        y = twin(I, K, S, kind, x, labels=labels)
    elif change == "exchanged elements":
        i, j = (tuple(I.int(f"{name}{k}", 0, n - 1) for k, n in enumerate(x.shape()[1:])) for name in ("first", "second"))
        d = I.copy(x.channels())
        v, w = K.elem(d)(c, *i), K.elem(d)(c, *j)
        I.assume(K.not_(K.same(v, w)))
        I.frozen.pop()
        d[(c,) + i], d[(c,) + j] = w, v
        y = twin(I, K, S, kind, x, channels=d)
    elif change == "exchanged labels":
        n = x.shape()[0]
        k = I.int("other channel", 0, n - 1)
        label = I.label("another label")
        I.assume(K.not_(K.same(label, K.item(x.labels(), k))))
        # the labels of the channels c and k differ, and they are exchanged
        old = x.labels()
        first = I.labels_of(n, lambda i: K.ite(i == c, label, K.item(old, i)))
        x = twin(I, K, S, kind, x, labels=first)
        I.assume(K.not_(c == k))
        y = twin(I, K, S, kind, x, labels=I.labels_of(n, lambda i: K.ite(i == c, K.item(first, k), K.ite(i == k, K.item(first, c), K.item(first, i)))))
    else:
        old = getattr(x, change)()
        new = I.int("new") if change == "offset" else I.real("new", positive=True)
        I.assume(K.not_(K.same(new, old)))
        y = twin(I, K, S, kind, x, **{change: new})
    for a, b in ((x, y), (y, x)):
        K.check("not equal", not bool(a == b))
        K.check("unequal", bool(a != b))


@contract("C19", functions=EQ + ["sumpf.Filter.__eq__", "sumpf.Filter.__ne__"], choices={"kind": KINDS + ["filter"], "other": KINDS + ["filter", "number", "none", "text", "tuple"]},
          where=lambda c: c["kind"] != c["other"])
def different_kinds(I, K, S):
    """data sets differ from everything of another kind"""
    def obj(kind, name):
        if kind == "filter":
            n = I.int(name + ".channels", 0)
            return S.Filter(transfer_functions=I.terms(name, n), labels=I.label_seq(name + ".labels", n))
        return make(I, kind, name)
    x, o = obj(I["kind"], "x"), I["other"]
    y = {"number": 1.0, "none": None, "text": "x", "tuple": (1, 2)}[o] if o in ("number", "none", "text", "tuple") else obj(o, "y")
    for a, b in ((x, y), (y, x)):
        K.check("not equal", not bool(a == b))
        K.check("unequal", bool(a != b))


FILTER = ["sumpf.Filter.__eq__", "sumpf.Filter.__ne__"]


@contract("C19", functions=FILTER)
def filters(I, K, S):
    """filters are equal, if and only if their transfer functions and their labels are equal"""
    n, m = I.int("n", 0), I.int("m", 0)
    s = I.terms("s", n)
    t = I.terms("t", m, like=s)
    la, lb = I.label_seq("la", n), I.label_seq("lb", m)
    x, y = S.Filter(transfer_functions=s, labels=la), S.Filter(transfer_functions=t, labels=lb)
    r = bool(x == y)
    K.check("unequal is the negation", bool(x != y) == (not r))
    K.check("symmetric", bool(y == x) == r)
    K.check("symmetric unequal", bool(y != x) == (not r))
    if r:
        K.eq("number of channels", n, m)
        K.forall("transfer functions", [n], lambda i: K.item(s, i) == K.item(t, i))
        K.forall("labels", [n], lambda i: (K.item(la, i), K.item(lb, i)))


@contract("C19", functions=FILTER)
def equal_filters(I, K, S):
    """filters with the same transfer functions and labels are equal"""
    n = I.int("n", 0)
    s = I.terms("s", n)
    t = I.terms("t", n, like=s)
    la = I.label_seq("la", n)
    x, y = S.Filter(transfer_functions=s, labels=la), S.Filter(transfer_functions=s, labels=la)
    for a, b in ((x, y), (y, x), (x, x)):
        K.check("equal", bool(a == b))
        K.check("not unequal", not bool(a != b))


@contract("C19", functions=FILTER, choices={"change": ["term", "label"]})
def one_different_channel(I, K, S):
    """a single different transfer function or label makes filters unequal"""
    n = I.int("n", 1)
    c = I.int("channel", 0, n - 1)
    s = I.terms("s", n)
    t = I.terms("t", n, like=s) if I["change"] == "term" else s
    la = I.label_seq("la", n)
    lb = I.label_seq("lb", n) if I["change"] == "label" else la
    if I["change"] == "term":
        I.assume(K.not_(K.item(s, c) == K.item(t, c)))
    else:
        I.assume(K.not_(K.same(K.item(la, c), K.item(lb, c))))
    x, y = S.Filter(transfer_functions=s, labels=la), S.Filter(transfer_functions=t, labels=lb)
    for a, b in ((x, y), (y, x)):
        K.check("not equal", not bool(a == b))
        K.check("unequal", bool(a != b))


CLASSES = ["constant", "polynomial0", "polynomial1", "polynomial2", "polynomial", "bands", "exp", "absolute", "negative", "sum2", "sum3", "difference", "product2", "product3", "quotient"]
TERMS = ["Constant.__eq__", "Polynomial.__eq__", "Exp.__eq__", "Bands.__eq__", "Absolute.__eq__", "Negative.__eq__", "Sum.__eq__", "Difference.__eq__", "Product.__eq__", "Quotient.__eq__", "Term.__eq__"]


def classes(S):
    F = S.Filter
    i = S.Bands.interpolations
    a, b, c = F.Exp(1.0), F.Exp(2.0), F.Exp(3.0)
    return {"constant": type(F.Constant(1.0)), "polynomial": type(F.Polynomial((1.0, 1.0))), "exp": type(a), "bands": type(F.Bands(xs=(1.0, 2.0), ys=(1.0, 2.0), interpolation=i.LINEAR, extrapolation=i.LINEAR)),
            "absolute": type(F.Absolute(F.Sum((a, b, c)))), "negative": type(F.Negative(F.Sum((a, b, c)))), "sum": type(F.Sum((a, b, c))), "difference": type(F.Difference(a, b)),
            "product": type(F.Product((F.Sum((a, b, c)), F.Sum((a, b, c)), a))), "quotient": type(F.Quotient(F.Sum((a, b, c)), F.Sum((b, b, c))))}


def term(I, K, S, cls, name, like=None):
    """a term of the given class with arbitrary parameters, and these parameters"""
    cs = classes(S)
    sub = lambda i: I.term(f"{name}.{i}", like[1][i] if like else None)      # noqa: E731
    t = I.bool(name + ".transform") if cls != "constant" else False
    if cls == "constant":
        v = (I.cplx(name + ".value"),)
        return cs["constant"](*v), v, t
    if cls == "exp":
        v = (I.cplx(name + ".coefficient"),)
        return cs["exp"](*v, transform=t), v, t
    if cls == "polynomial":
        v = (I.array(name + ".coefficients", (I.int(name + ".n", 0),), dtype="complex128"),)
        return cs["polynomial"](v[0], transform=t), v, t
    if cls.startswith("polynomial"):
        v = tuple(I.cplx(f"{name}.c{i}") for i in range(int(cls[-1])))
        return cs["polynomial"](v, transform=t), v, t
    if cls == "bands":
        n = I.int(name + ".n", 1)
        i = list(S.Bands.interpolations)
        v = (I.points(name + ".xs", n), I.array(name + ".ys", (n,)), i[I["flags"][name][0]], i[I["flags"][name][1]])
        return cs["bands"](xs=v[0], ys=v[1], interpolation=v[2], extrapolation=v[3]), v, False
    if cls in ("absolute", "negative"):
        v = (sub(0),)
        return cs[cls](v[0], transform=t), v, t
    if cls[-1] in "23":
        v = tuple(sub(i) for i in range(int(cls[-1])))
        return cs[cls[:-1]](v, transform=t), v, t
    v = (sub(0), sub(1))
    return cs[cls](v[0], v[1], transform=t), v, t


@contract("C19", functions=TERMS, choices={"left": CLASSES, "right": CLASSES, "flags": [{"x": (2, 2), "y": (2, 2)}, {"x": (2, 3), "y": (2, 2)}, {"x": (2, 3), "y": (4, 3)}]},
          where=lambda c: "bands" in (c["left"], c["right"]) and c["left"] == c["right"] or c["flags"]["x"] == (2, 2), mode="R")
def terms(I, K, S):
    """terms are equal, if and only if they are of the same class and all of their parameters are equal"""
    x = term(I, K, S, I["left"], "x")
    y = term(I, K, S, I["right"], "y", x if I["left"] == I["right"] else None)
    r = bool(x[0] == y[0])
    K.check("unequal is the negation", bool(x[0] != y[0]) == (not r))
    K.check("symmetric", bool(y[0] == x[0]) == r)
    K.check("symmetric unequal", bool(y[0] != x[0]) == (not r))
    K.check("reflexive", bool(x[0] == x[0]))
    number = lambda c: "constant" if c == "constant" else c.rstrip("0123456789")     # noqa: E731
    if number(I["left"]) != number(I["right"]):
        K.check("different classes", not r)
        return
    if I["left"] != I["right"]:
        if I["left"] != "polynomial" != I["right"]:
            K.check("different number of parameters", not r)
        return
    if I["left"] in ("polynomial", "bands"):
        if r:
            K.eq("flags", x[1][2:], y[1][2:])
            for a, b in zip(x[1][:2], y[1][:2]):
                e = K.elem(a)
                K.array("parameters", b, K.shape(a), e)
            K.eq("transform", x[2], y[2])
        return
    same = K.and_(K.iff(x[2], y[2]), *[K.same(a, b) if I["left"] in ("constant", "exp") or I["left"].startswith("polynomial") else a == b for a, b in zip(x[1], y[1])])
    K.check("equal, if and only if the parameters are equal", K.iff(r, same))


@contract("C19", functions=TERMS, choices={"class": ["polynomial", "bands"], "flags": [{"x": (2, 2)}]}, mode="R")
def equal_arrays(I, K, S):
    """terms, whose parameters are stored in arrays with the same content, are equal"""
    x = term(I, K, S, I["class"], "x")
    cs = classes(S)
    copies = [I.copy(a) for a in x[1][:2]]
    y = cs["polynomial"](copies[0], transform=x[2]) if I["class"] == "polynomial" else cs["bands"](xs=copies[0], ys=copies[1], interpolation=x[1][2], extrapolation=x[1][3])
    for a, b in ((x[0], y), (y, x[0]), (x[0], x[0])):
        K.check("equal", bool(a == b))
        K.check("not unequal", not bool(a != b))


@contract("C19", functions=TERMS, choices={"class": [c for c in CLASSES if c != "bands"], "other": ["number", "none", "text", "filter"]}, mode="R")
def terms_and_others(I, K, S):
    """terms differ from everything, that is not a term"""
    x = term(I, K, S, I["class"], "x")[0]
    y = {"number": 0.0, "none": None, "text": "x", "filter": S.Filter()}[I["other"]]
    for a, b in ((x, y), (y, x)):
        K.check("not equal", not bool(a == b))
        K.check("unequal", bool(a != b))
