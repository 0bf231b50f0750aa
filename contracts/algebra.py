"""shared definitions for the algebra contracts"""
import operator

OPS = {
    "add": (operator.add, "add", None, "Sum"),
    "sub": (operator.sub, "subtract", 0.0, "Difference"),
    "mul": (operator.mul, "multiply", None, "Product"),
    "div": (operator.truediv, "true_divide", 1.0, "Quotient"),
    "pow": (operator.pow, "power", None, "Power"),
}


def pivoted(K, name, pivot, x):
    return x if pivot is None else K.op(name, pivot, x)


def combined(K, name, pivot, has_a, va, has_b, vb):
    """the value of a ∘ b, where each operand may be absent"""
    return K.ite(has_a,
                 lambda: K.ite(has_b, lambda: K.op(name, va(), vb()), va),
                 lambda: K.ite(has_b, lambda: pivoted(K, name, pivot, vb()), 0.0))
