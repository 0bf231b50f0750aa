"""C12: terms of transfer functions evaluate like the function, that they denote"""
import math
from pyvc.api import contract

# the implementations of the operators distinguish these classes of their second operand
SECOND = ["any", "constant", "polynomial0", "polynomial1", "polynomial2", "polynomial3", "sum2", "sum3", "product2", "product3"]
CLASSES = ["any", "constant", "polynomial0", "polynomial1", "polynomial2", "polynomial3", "exp", "absolute", "negative",
           "sum2", "sum3", "difference", "product2", "product3", "quotient"]


def value(S, term, f):
    """the evaluated term at the frequency f"""
    return S.Filter((term,))(f)[0]


def frequency(I):
    """a frequency, at which low-pass to high-pass transforms are defined"""
    if I.symbolic:
        f = I.real("f")
        I.assume(f != 0)
    else:
        f = I.real("f", -1.0, 1.0)
        I.assume(abs(f) > 0.02)     # rounding errors are not under consideration
    return f


def transformed(f):
    """the frequency, for which s is 1/s at the frequency f"""
    w = 2.0 * math.pi
    return -1.0 / (f * w * w)


def coefficients(I, name, n, kind="tuple"):
    cs = [I.cplx(f"{name}.c{i}") for i in range(n)]
    return cs if kind == "list" else tuple(cs)


def nonzero(I, K, x):
    I.assume(K.not_(K.same(x, 0.0)))
    return x


def make(I, K, S, cls, name, f, like=None, compact=True):
    """a term of the given class with arbitrary parameters and arbitrary sub-terms, which has got a finite value at the frequency f"""
    F = S.Filter
    sub = lambda i: I.term(f"{name}.{i}", getattr(like, "vc_subs", {}).get(i), compact)      # noqa: E731
    if cls == "any":
        return I.term(name, like, compact)
    if cls == "constant":
        return F.Constant(I.cplx(name + ".value"))
    t = I.bool(name + ".t")
    if cls.startswith("polynomial"):
        return type(F.Polynomial((1.0, 1.0)))(coefficients=coefficients(I, name, int(cls[-1])), transform=t)
    if cls == "exp":
        return F.Exp(I.cplx(name + ".coefficient"), t)
    if cls == "absolute":
        return F.Absolute(sub(0))
    if cls == "negative":
        return F.Negative(sub(0))
    if cls == "sum2":
        return F.Sum((sub(0), sub(1)))
    if cls == "sum3":
        return F.Sum((sub(0), sub(1), sub(2)), t)
    if cls == "difference":
        return F.Difference(sub(0), sub(1), t)
    if cls == "product2":
        return F.Product((sub(0), sub(1)))
    if cls == "product3":
        return F.Product((sub(0), sub(1), sub(2)), t)
    denominator = sub(1)
    for g in (f, transformed(f)):       # the quotient is defined with and without the transform
        nonzero(I, K, value(S, denominator, g))
    return F.Quotient(sub(0), denominator, t)


OPERATORS = {
    "add": (lambda a, b: a + b, "add"),
    "sub": (lambda a, b: a - b, "subtract"),
    "mul": (lambda a, b: a * b, "multiply"),
    "div": (lambda a, b: a / b, "true_divide"),
}


FUNCTIONS = [f"sumpf.Filter.{c}" for c in ("Sum", "Difference", "Product", "Quotient", "Constant", "Polynomial", "Exp", "Absolute", "Negative")]


def binary(I, K, S):
    f = frequency(I)
    a, b = make(I, K, S, I["left"], "a", f), make(I, K, S, I["right"], "b", f)
    function, name = OPERATORS[I["operator"]]
    va, vb = value(S, a, f), value(S, b, f)
    if name == "true_divide":
        nonzero(I, K, vb)
    K.eq("value", value(S, function(a, b), f), K.op(name, va, vb))


@contract("C12", functions=FUNCTIONS, choices={"left": CLASSES, "right": SECOND, "operator": list(OPERATORS)}, mode="R")
def operators(I, K, S):
    """a binary operator between two terms, where the second one is of a class, that the operators treat specially, or of any other class"""
    binary(I, K, S)


@contract("C12", functions=FUNCTIONS, choices={"left": CLASSES, "right": [c for c in CLASSES if c not in SECOND], "operator": list(OPERATORS)}, mode="R", tier="thorough")
def operators_of_other_classes(I, K, S):
    """a binary operator between two terms of the remaining combinations of classes"""
    binary(I, K, S)


UNARY = {
    "neg": (lambda a: -a, lambda K, v: K.op("negative", v)),
    "abs": (lambda a: abs(a), lambda K, v: K.op("absolute", v)),        # pylint: disable=unnecessary-lambda
    "invert": (lambda a: ~a, lambda K, v: K.op("true_divide", 1.0, v)),
    "neg-neg": (lambda a: -(-a), lambda K, v: v),
    "invert-invert": (lambda a: ~~a, lambda K, v: v),
    "neg-abs": (lambda a: abs(-a), lambda K, v: K.op("absolute", v)),
}


@contract("C12", functions=FUNCTIONS, choices={"left": CLASSES, "operator": list(UNARY)}, mode="R")
def unary_operators(I, K, S):
    """the unary operators of terms"""
    f = frequency(I)
    a = make(I, K, S, I["left"], "a", f)
    va = value(S, a, f)
    if I["operator"].startswith("invert"):
        nonzero(I, K, va)
    function, expected = UNARY[I["operator"]]
    K.eq("value", value(S, function(a), f), expected(K, va))


@contract("C12", functions=FUNCTIONS, choices={"left": CLASSES, "factory": ["Negative", "Absolute", "Sum1", "Product1", "Difference0"], "twice": [False, True]}, mode="R")
def transform(I, K, S):
    """a factory with the low-pass to high-pass transform evaluates the terms, that are passed to it, at 1/s; transforming twice restores the term"""
    f = frequency(I)
    g = transformed(f)
    a = make(I, K, S, I["left"], "a", f)
    F = S.Filter
    factory = {"Negative": lambda x: F.Negative(x, True), "Absolute": lambda x: F.Absolute(x, True), "Sum1": lambda x: F.Sum((x,), True),
               "Product1": lambda x: F.Product([x], True), "Difference0": lambda x: F.Difference(F.Constant(0.0), x, True)}[I["factory"]]
    va = value(S, a, f if I["twice"] else g)
    result = value(S, factory(factory(a)) if I["twice"] else factory(a), f)
    if I["factory"] == "Absolute":
        K.eq("value", result, K.op("absolute", va))
    elif I["factory"] in ("Sum1", "Product1"):
        K.eq("value", result, va)
    else:
        K.eq("value", result, va if I["twice"] else K.op("negative", va))


def fold(K, name, values):
    r = values[0]
    for v in values[1:]:
        r = K.op(name, r, v)
    return r


@contract("C12", functions=FUNCTIONS, choices={"factory": ["sum0", "sum1", "sum2", "sum3", "sum4", "product1", "product2", "product3", "product4", "difference", "quotient",
                                                          "absolute", "negative"], "container": ["tuple", "list"]},
          where=lambda c: c["container"] == "tuple" or c["factory"][:-1] in ("sum", "product"), mode="R")
def composites(I, K, S):
    """terms, that are composed of any other terms, which might be equal to each other"""
    F = S.Filter
    f = frequency(I)
    kind, t = I["factory"], I.bool("transform")
    n = int(kind[-1]) if kind[-1].isdigit() else {"difference": 2, "quotient": 2}.get(kind, 1)
    subs = []
    for i in range(n):
        subs.append(I.term(f"x{i}", subs[0] if i == 1 else None))
    values = [K.ite(t, lambda x=x: value(S, x, transformed(f)), lambda x=x: value(S, x, f)) for x in subs]
    terms = tuple(subs) if I["container"] == "tuple" else list(subs)
    if kind == "quotient":
        nonzero(I, K, values[1])
        r, e = F.Quotient(subs[0], subs[1], t), K.op("true_divide", *values)
    elif kind == "difference":
        r, e = F.Difference(subs[0], subs[1], t), K.op("subtract", *values)
    elif kind == "absolute":
        r, e = F.Absolute(subs[0], t), K.op("absolute", values[0])
    elif kind == "negative":
        r, e = F.Negative(subs[0], t), K.op("negative", values[0])
    elif kind.startswith("sum"):
        r, e = F.Sum(terms, t), fold(K, "add", values) if n else 0.0
    else:
        r, e = F.Product(terms, t), fold(K, "multiply", values)
    K.eq("value", value(S, r, f), e)


@contract("C12", functions=["sumpf.Filter.Constant", "sumpf.Filter.Polynomial", "sumpf.Filter.Exp"],
          choices={"kind": ["constant", "polynomial0", "polynomial1", "polynomial2", "polynomial3", "polynomial4", "exp"], "container": ["tuple", "list", "array"]},
          where=lambda c: c["container"] == "tuple" or c["kind"] not in ("constant", "exp", "polynomial0"), mode="R")
def primitives(I, K, S):
    """constants, polynomials of s and exponential functions of s"""
    F = S.Filter
    f = frequency(I)
    kind, t = I["kind"], I.bool("transform")
    s = K.cplx(0.0, 2.0 * math.pi * K.ite(t, lambda: transformed(f), lambda: f))
    if kind == "constant":
        c = I.cplx("value")
        r, e = F.Constant(c, t), c
    elif kind == "exp":
        c = I.cplx("coefficient")
        r, e = F.Exp(c, t), K.op("exp", K.op("multiply", c, s))
    else:
        n = int(kind[-1])
        if I["container"] == "array":
            cs = I.array("coefficients", (n,), "complex128")
            elem = K.elem(cs)
        else:
            cs = coefficients(I, "coefficients", n, I["container"])
            elem = lambda i: cs[i]      # noqa: E731
        e = 0.0
        for i in range(n):
            e = K.op("add", K.op("multiply", e, s), elem(i))
        r = F.Polynomial(cs, t)
    K.eq("value", value(S, r, f), e)


@contract("C12", functions=["sumpf.Filter.__add__", "sumpf.Filter.__sub__", "sumpf.Filter.__mul__", "sumpf.Filter.__truediv__", "sumpf.Filter.__radd__", "sumpf.Filter.__rsub__",
                            "sumpf.Filter.__rmul__", "sumpf.Filter.__rtruediv__"],
          choices={"left": CLASSES, "operator": list(OPERATORS), "side": ["right", "left"], "number": ["float", "complex"]}, mode="R")
def filters_and_numbers(I, K, S):
    """an operator between a filter and a number"""
    f = frequency(I)
    a = make(I, K, S, I["left"], "a", f)
    number = I.real("number") if I["number"] == "float" else I.cplx("number")
    function, name = OPERATORS[I["operator"]]
    va = value(S, a, f)
    filter_ = S.Filter((a,))
    if I["side"] == "right":
        if name == "true_divide":
            nonzero(I, K, number)
        result, expected = function(filter_, number), K.op(name, va, number)
    else:
        if name == "true_divide":
            nonzero(I, K, va)
        result, expected = function(number, filter_), K.op(name, number, va)
    K.eq("channels", len(result), 1)
    K.eq("value", result(f)[0], expected)
