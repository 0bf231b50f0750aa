"""Symbolic values and the path/obligation engine of the verification condition generator.

The real functions of /repo are executed natively by CPython on the proxy objects
defined here.  Every branch on a symbolic condition forks the execution (by
re-execution with a recorded decision trace), so that each path yields a path
condition; contracts are discharged by an SMT solver under that path condition.
"""
import math
import time
import fractions
import numbers
import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("memory_max_size", 3000)


class EngineSignal(BaseException):
    """Base class of the engine's control flow, invisible to ``except Exception`` in the code under proof."""


class Unsupported(EngineSignal):
    """The engine has no rule for a construct: the obligation stays undecided (never counted as proved)."""


class Infeasible(EngineSignal):
    """The current path condition is contradictory."""


class PathBudget(EngineSignal):
    """too many paths"""


IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
V = z3.DeclareSort("V")        # machine numbers (samples); operations on them are uninterpreted
L = z3.DeclareSort("L")        # labels
num = z3.Function("num", RealS, V)
cnum = z3.Function("cnum", RealS, RealS, V)
special = z3.Function("special", IntS, V)      # nan, inf, ...

E = None    # the current engine


def engine():
    return E


# ----------------------------------------------------------------- helpers

def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if hasattr(x, "__index__"):
        return z3.IntVal(x.__index__())
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    raise Unsupported(f"not an integer: {type(x).__name__}")


def zreal(x):
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite real")
        f = fractions.Fraction(x)
        return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    if isinstance(x, SReal):
        return x.z
    if isinstance(x, SInt):
        return z3.ToReal(x.z)
    if isinstance(x, SBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, fractions.Fraction):
        return z3.Q(x.numerator, x.denominator)
    if hasattr(x, "item"):
        return zreal(x.item())
    raise Unsupported(f"not a real: {type(x).__name__}")


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, (SInt, SReal)):
        return x.z != 0
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (int, float, complex)) or hasattr(x, "item"):
        return z3.BoolVal(bool(x))
    if isinstance(x, SCplx):
        return z3.Or(x.re != 0, x.im != 0)
    raise Unsupported(f"not a bool: {type(x).__name__}")


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


def mkreal(z):
    if E is not None and E.real_mode:
        z = monomial(z3.simplify(z))
    return SReal(z3.simplify(z))


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def is_sym(x):
    return isinstance(x, Sym)


def is_intlike(x):
    return isinstance(x, (int, SInt, SBool)) or (hasattr(x, "__index__") and not isinstance(x, Sym))


def is_reallike(x):
    return is_intlike(x) or isinstance(x, (float, SReal)) or (hasattr(x, "dtype") and not isinstance(x, Sym) and getattr(x, "ndim", 1) == 0 and x.dtype.kind == "f")


def is_cplxlike(x):
    return is_reallike(x) or isinstance(x, (complex, SCplx)) or (hasattr(x, "dtype") and not isinstance(x, Sym) and getattr(x, "ndim", 1) == 0 and x.dtype.kind == "c")


class Sym:
    """base class of all symbolic scalars"""
    __slots__ = ()
    __hash__ = None

    def __bool__(self):
        raise Unsupported(f"truth value of {type(self).__name__}")


# ----------------------------------------------------------------- scalars

def _arith(op, a, b):
    """mathematical arithmetic on int/real/complex scalars (machine arithmetic is treated as mathematical)"""
    if isinstance(a, SVal) or isinstance(b, SVal):
        return vop({"+": "add", "-": "subtract", "*": "multiply", "/": "true_divide", "**": "power"}[op], a, b)
    if is_intlike(a) and is_intlike(b) and op != "/":
        if op == "**":
            return _power(a, b)
        x, y = zint(a), zint(b)
        return mkint({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]())
    if is_reallike(a) and is_reallike(b):
        if op == "**":
            return _power(a, b)
        if (isinstance(a, float) and not math.isfinite(a)) or (isinstance(b, float) and not math.isfinite(b)):
            raise Unsupported("non-finite real")
        x, y = zreal(a), zreal(b)
        if op == "/":
            if not excluded([y]) and E.decide(y == 0):
                raise ZeroDivisionError("division by zero")
            return mkreal(_quot(x, y))
        if op == "*" and z3.is_app(x) and x.decl().eq(CABS) and x.eq(y):
            re, im = x.children()           # the square of the absolute value of a complex number
            return mkreal(re * re + im * im)
        return mkreal({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]())
    if is_cplxlike(a) and is_cplxlike(b):
        a, b = tocplx(a), tocplx(b)
        if op == "+":
            return mkcplx(a.re + b.re, a.im + b.im)
        if op == "-":
            return mkcplx(a.re - b.re, a.im - b.im)
        if op == "*":
            return mkcplx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if op == "/":
            d = b.re * b.re + b.im * b.im
            if not excluded([b.re, b.im]) and E.decide(z3.And(b.re == 0, b.im == 0)):
                raise ZeroDivisionError("complex division by zero")
            return mkcplx(_quot(a.re * b.re + a.im * b.im, d), _quot(a.im * b.re - a.re * b.im, d))
        if op == "**":
            return _power(a, b)
    return NotImplemented


def excluded(parts):
    """whether an exact computation with polynomials of one positive variable shows, that a divisor is not zero"""
    if E is None or not E.univariate:
        return False
    from . import univariate
    return univariate.never_zero(E, parts)


def _quot(x, y):
    """x / y, where y is not zero on the current path"""
    x = z3.simplify(x)
    if z3.is_rational_value(x) and x.as_fraction() == 0:
        return x
    return monomial(x / z3.simplify(y))


def _power(a, b):
    if isinstance(b, int) and 2 <= b <= 12 and b % 2 == 0 and isinstance(a, SReal) and z3.is_app(a.z) and a.z.decl().eq(CABS):
        re, im = a.z.children()             # the square of the absolute value of a complex number
        return _power(mkreal(re * re + im * im), b // 2)
    if isinstance(b, int) and 0 <= b <= 12:
        r = 1
        for _ in range(b):
            r = _arith("*", r, a)
        return r
    if isinstance(b, int) and -12 <= b < 0:
        return _arith("/", 1, _power(a, -b))
    if isinstance(b, float) and b == int(b) and abs(b) <= 12:
        return _arith("*", 1.0, _power(a, int(b)))
    if is_reallike(a) and is_reallike(b):
        return SReal(RPOW(zreal(a), zreal(b)))
    raise Unsupported("power")


RPOW = z3.Function("rpow", RealS, RealS, RealS)


def tocplx(x):
    if isinstance(x, SCplx):
        return x
    if isinstance(x, complex):
        return SCplx(zreal(x.real), zreal(x.imag))
    if hasattr(x, "dtype") and not isinstance(x, Sym):
        return tocplx(complex(x))
    return SCplx(zreal(x), z3.RealVal(0))


def mkcplx(re, im):
    return SCplx(monomial(z3.simplify(re)), monomial(z3.simplify(im)))


def _factors(z, sign, table, budget):
    """collects the factors of a product of powers; returns its rational coefficient or None, if it is something else"""
    if z3.is_rational_value(z):
        f = z.as_fraction()
        if f == 0 and sign < 0:
            return None
        return f if sign > 0 else 1 / f
    k = z.decl().kind() if z3.is_app(z) else None
    if k == z3.Z3_OP_MUL:
        c = fractions.Fraction(1)
        for q in z.children():
            r = _factors(q, sign, table, budget)
            if r is None:
                return None
            c *= r
        return c
    if k == z3.Z3_OP_DIV:
        a, b = _factors(z.arg(0), sign, table, budget), _factors(z.arg(1), -sign, table, budget)
        return None if a is None or b is None else a * b
    if k == z3.Z3_OP_UMINUS:
        r = _factors(z.arg(0), sign, table, budget)
        return None if r is None else -r
    q = table.setdefault(z.get_id(), [z, 0])
    q[1] += sign
    return fractions.Fraction(1)


def has_div(z):
    if not z3.is_app(z):
        return False
    k = z.decl().kind()
    if k == z3.Z3_OP_DIV:
        return True
    return k in (z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and any(has_div(q) for q in z.children())


def monomial(z):
    """a normal form for products and quotients (divisors are not zero on the current path: this has been decided, before they have been divided by)"""
    if E is None or not E.real_mode or not has_div(z):
        return z
    table = {}
    c = _factors(z, 1, table, 0)
    if c is None:
        return z
    num, den = z3.RealVal(c), None
    if c == 0:
        return num
    fs = sorted(table.values(), key=lambda q: q[0].get_id())
    up = [q[0] for q in fs for _ in range(max(q[1], 0))]
    down = [q[0] for q in fs for _ in range(max(-q[1], 0))]
    if up:
        num = z3.simplify(z3.Product(*up) * num) if len(up) > 1 else z3.simplify(up[0] * num)
    if down:
        den = z3.simplify(z3.Product(*down)) if len(down) > 1 else down[0]
        return num / den
    return num


def _cmp(op, a, b):
    if isinstance(a, (SVal, SLabel)) or isinstance(b, (SVal, SLabel)):
        return NotImplemented
    if isinstance(a, SCplx) or isinstance(b, SCplx) or isinstance(a, complex) or isinstance(b, complex):
        if not (is_cplxlike(a) and is_cplxlike(b)):
            return NotImplemented
        a, b = tocplx(a), tocplx(b)
        e = z3.And(a.re == b.re, a.im == b.im)
        if op == "==":
            return mkbool(e)
        if op == "!=":
            return mkbool(z3.Not(e))
        raise TypeError("complex ordering")
    for p, q, flip in ((a, b, False), (b, a, True)):
        if isinstance(q, float) and math.isinf(q):
            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
            if o == "==":
                return False
            if o == "!=":
                return True
            return (o in ("<", "<=")) == (q > 0)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in ("==", "!="):
        e = zbool(a) == zbool(b)
        return mkbool(e if op == "==" else z3.Not(e))
    if is_intlike(a) and is_intlike(b):
        x, y = zint(a), zint(b)
    elif is_reallike(a) and is_reallike(b):
        x, y = zreal(a), zreal(b)
    else:
        return NotImplemented
    return mkbool({"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
                   "==": lambda: x == y, "!=": lambda: x != y}[op]())


class _Num(Sym):
    __slots__ = ()

    def __add__(self, o): return _arith("+", self, o)
    def __radd__(self, o): return _arith("+", o, self)
    def __sub__(self, o): return _arith("-", self, o)
    def __rsub__(self, o): return _arith("-", o, self)

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            return repeat(o, self)
        return _arith("*", self, o)

    def __rmul__(self, o):
        if isinstance(o, (tuple, list)):
            return repeat(o, self)
        return _arith("*", o, self)

    def __truediv__(self, o): return _arith("/", self, o)
    def __rtruediv__(self, o): return _arith("/", o, self)
    def __pow__(self, o): return _arith("**", self, o)
    def __rpow__(self, o): return _arith("**", o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return pymod(self, o)
    def __rmod__(self, o): return pymod(o, self)
    def __divmod__(self, o): return floordiv(self, o), pymod(self, o)
    def __neg__(self): return _arith("-", 0, self)
    def __pos__(self): return self
    def __lt__(self, o): return _cmp("<", self, o)
    def __le__(self, o): return _cmp("<=", self, o)
    def __gt__(self, o): return _cmp(">", self, o)
    def __ge__(self, o): return _cmp(">=", self, o)
    def __eq__(self, o): return _cmp("==", self, o)
    def __ne__(self, o): return _cmp("!=", self, o)

    def __abs__(self):
        if isinstance(self, SInt):
            return mkint(z3.If(self.z >= 0, self.z, -self.z))
        if isinstance(self, SReal):
            return mkreal(z3.If(self.z >= 0, self.z, -self.z))
        if isinstance(self, SCplx):
            r = scalar_op("absolute", self)
            if r is not None:
                return r
        raise Unsupported("abs")

    def __bool__(self):
        return E.decide(zbool(self))

    def __format__(self, spec):
        return E.fmt_token(self, spec)

    def __str__(self):
        return E.fmt_token(self, "")

    def __repr__(self):
        if E is None:
            return object.__repr__(self)
        return f"<{type(self).__name__} {getattr(self, 'z', '')}>"


def repeat(seq, n):
    from . import seqs
    return seqs.repeat(seq, n)


class SInt(_Num):
    __slots__ = ("z",)
    __hash__ = None

    def __init__(self, z):
        self.z = z

    def __int__(self):
        raise Unsupported("concrete value of a symbolic integer")

    __index__ = None

    def conjugate(self): return self
    def __invert__(self): return -self - 1

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def is_integer(self): return True


class SReal(_Num):
    __slots__ = ("z",)
    __hash__ = None

    def __init__(self, z):
        self.z = z

    def __float__(self):
        raise Unsupported("concrete value of a symbolic real")

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        return rnd(self)

    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0.0

    def is_integer(self):
        return mkbool(z3.IsInt(self.z))


class SCplx(_Num):
    __slots__ = ("re", "im")
    __hash__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self): return SReal(self.re)

    @property
    def imag(self): return SReal(self.im)

    def conjugate(self): return mkcplx(self.re, -self.im)

    def __repr__(self): return f"<SCplx {self.re} {self.im}>"


class SBool(_Num):
    __slots__ = ("z",)
    __hash__ = None

    def __init__(self, z):
        self.z = z

    def __and__(self, o): return mkbool(z3.And(self.z, zbool(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.z, zbool(o)))
    __ror__ = __or__
    def __invert__(self): return mkbool(z3.Not(self.z))
    def any(self): return self
    def all(self): return self


class SVal(Sym):
    """a machine number (a sample)"""
    __slots__ = ("z",)
    __hash__ = None

    def __init__(self, z):
        self.z = z

    def __eq__(self, o): return mkbool(VEQ(self.z, toval(o).z)) if is_valuelike(o) else NotImplemented
    def __ne__(self, o): return mkbool(z3.Not(VEQ(self.z, toval(o).z))) if is_valuelike(o) else NotImplemented
    def __lt__(self, o): return mkbool(VLT(self.z, toval(o).z))
    def __gt__(self, o): return mkbool(VLT(toval(o).z, self.z))
    def __le__(self, o): return mkbool(z3.Or(VLT(self.z, toval(o).z), VEQ(self.z, toval(o).z)))
    def __ge__(self, o): return mkbool(z3.Or(VLT(toval(o).z, self.z), VEQ(self.z, toval(o).z)))
    def __add__(self, o): return vop("add", self, o)
    def __radd__(self, o): return vop("add", o, self)
    def __sub__(self, o): return vop("subtract", self, o)
    def __rsub__(self, o): return vop("subtract", o, self)
    def __mul__(self, o): return vop("multiply", self, o)
    def __rmul__(self, o): return vop("multiply", o, self)
    def __truediv__(self, o): return vop("true_divide", self, o)
    def __rtruediv__(self, o): return vop("true_divide", o, self)
    def __pow__(self, o): return vop("power", self, o)
    def __rpow__(self, o): return vop("power", o, self)
    def __mod__(self, o): return vop("mod", self, o)
    def __rmod__(self, o): return vop("mod", o, self)
    def __neg__(self): return vop("negative", self)
    def __abs__(self): return vop("absolute", self)
    def conjugate(self): return vop("conjugate", self)

    @property
    def real(self): return vop("real", self)

    @property
    def imag(self): return vop("imag", self)

    def __bool__(self): return E.decide(z3.Not(VEQ(self.z, num(0))))
    def __repr__(self): return f"<SVal {self.z}>"


VLT = z3.Function("vlt", V, V, BoolS)
_VEQ = z3.Function("veq", V, V, BoolS)


def VEQ(a, b):
    """IEEE equality of samples, taken as identity (NaN excluded)"""
    return a == b


class SLabel(Sym):
    __slots__ = ("z",)
    __hash__ = None

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        return mkbool(self.z == tolabel(o)) if isinstance(o, (str, SLabel)) else False

    def __ne__(self, o):
        return mkbool(self.z != tolabel(o)) if isinstance(o, (str, SLabel)) else True

    def __format__(self, spec): return E.fmt_token(self, spec)
    def __str__(self): return E.fmt_token(self, "")
    def __repr__(self): return f"<SLabel {self.z}>"
    def __add__(self, o): return str(self) + str(o)
    def __radd__(self, o): return str(o) + str(self)


def tolabel(x):
    if isinstance(x, SLabel):
        return x.z
    if isinstance(x, str):
        return E.label_const(x)
    raise Unsupported(f"label {type(x).__name__}")


def is_valuelike(x):
    return isinstance(x, SVal) or is_cplxlike(x)


def toval(x):
    if isinstance(x, SVal):
        return x
    if isinstance(x, SBool):
        return SVal(z3.If(x.z, num(1), num(0)))
    if isinstance(x, SCplx):
        z = z3.simplify(x.im)
        if z3.is_rational_value(z) and z.as_fraction() == 0:
            return SVal(num(x.re))
        return SVal(cnum(x.re, x.im))
    if is_intlike(x) or isinstance(x, SReal):
        return SVal(num(z3.simplify(zreal(x))))
    if isinstance(x, complex):
        return toval(tocplx(x)) if x.imag else toval(x.real)
    if isinstance(x, float):
        if not math.isfinite(x):
            return SVal(special(z3.IntVal(0 if math.isnan(x) else (1 if x > 0 else 2))))
        return SVal(num(zreal(x)))
    if hasattr(x, "item"):
        return toval(x.item())
    raise Unsupported(f"not a sample: {type(x).__name__}")


_vfuncs = {}


def vfunc(name, arity):
    k = (name, arity)
    if k not in _vfuncs:
        _vfuncs[k] = z3.Function(name, *([V] * (arity + 1)))
    return _vfuncs[k]


def _isnum(z, value):
    if z3.is_app(z) and z.decl().name() == "num":
        a = z.arg(0)
        if z3.is_rational_value(a):
            return a.as_fraction() == value
    return False


ALIAS = {"divide": "true_divide", "remainder": "mod", "fabs": "absolute", "abs": "absolute", "conj": "conjugate"}
COMMUTATIVE = {"add", "multiply", "maximum", "minimum"}


def vop(name, *args):
    """an operation on samples: an uninterpreted function, apart from unit laws, that hold for IEEE numbers (up to the sign of zero)"""
    name = ALIAS.get(name, name)
    if not all(is_valuelike(a) for a in args):
        return NotImplemented
    if not any(isinstance(a, SVal) for a in args):
        r = scalar_op(name, *args)
        if r is not None:
            return r
    a = [toval(x).z for x in args]
    if name == "add":
        if _isnum(a[0], 0):
            return SVal(a[1])
        if _isnum(a[1], 0):
            return SVal(a[0])
    elif name == "subtract":
        if _isnum(a[1], 0):
            return SVal(a[0])
        if _isnum(a[0], 0):
            return vop("negative", SVal(a[1]))
    elif name == "multiply":
        if _isnum(a[0], 1):
            return SVal(a[1])
        if _isnum(a[1], 1):
            return SVal(a[0])
        if _isnum(a[0], -1):
            return vop("negative", SVal(a[1]))
        if _isnum(a[1], -1):
            return vop("negative", SVal(a[0]))
        if E is not None and E.zero_product and (_isnum(a[0], 0) or _isnum(a[1], 0)):
            return SVal(num(0))
    elif name == "true_divide":
        if _isnum(a[1], 1):
            return SVal(a[0])
    elif name == "negative":
        if z3.is_app(a[0]) and a[0].decl().name() == "negative":
            return SVal(a[0].arg(0))
        if z3.is_app(a[0]) and a[0].decl().name() == "num":
            return SVal(num(z3.simplify(-a[0].arg(0))))
    elif name == "square":
        name = "multiply"
        a = [a[0], a[0]]
    elif name == "reciprocal":
        name = "true_divide"
        a = [num(z3.RealVal(1)), a[0]]
    # push ite out of the arguments is left to the solver
    return SVal(vfunc(name, len(a))(*a))


def scalar_op(name, *args):
    """interpreted arithmetic for real/complex scalars; None if there is no interpretation"""
    if name in ("add", "subtract", "multiply", "true_divide", "power"):
        if name == "true_divide":
            b = args[1]
            if isinstance(b, (int, float)) and b == 0:
                return None
            if isinstance(b, (SInt, SReal)) and not E.entails(zreal(b) != 0):
                if E.decide(zreal(b) == 0):
                    return None
        try:
            return _arith({"add": "+", "subtract": "-", "multiply": "*", "true_divide": "/", "power": "**"}[name], *args)
        except ZeroDivisionError:
            return None
        except Unsupported:
            return None
    if name == "negative":
        return _arith("-", 0, args[0])
    if name == "absolute" and is_reallike(args[0]):
        return abs(args[0])
    if name == "absolute" and isinstance(args[0], (SCplx, complex)) and E is not None and E.real_mode:
        c = tocplx(args[0])
        im = z3.simplify(c.im)
        if z3.is_rational_value(im) and im.as_fraction() == 0:
            return abs(SReal(c.re))
        return SReal(CABS(z3.simplify(c.re), im))
    if name == "mod" and is_reallike(args[0]) and is_reallike(args[1]):
        try:
            return pymod(*args)
        except ZeroDivisionError:
            return None
    if name == "square":
        return _arith("*", args[0], args[0])
    if name == "conjugate":
        return args[0].conjugate()
    if name == "real":
        return args[0].real
    if name == "imag":
        return args[0].imag
    if name == "exp":
        a = args[0]
        if isinstance(a, (SCplx, complex)):
            a = tocplx(a)
            if z3.simplify(z3.And(a.re == 0, a.im == 0)).eq(z3.BoolVal(True)):
                return 1.0
            if E is not None and E.real_mode:
                m = REXP(a.re)
                return mkcplx(m * REALFUN["cos"](a.im), m * REALFUN["sin"](a.im))
            return SVal(CEXP(a.re, a.im))
        if isinstance(a, (int, float)) and a == 0:
            return 1.0
        return SReal(REXP(zreal(a)))
    if name in ("maximum", "minimum") and all(is_reallike(a) for a in args):
        return minmax(name == "maximum", *args)
    if name in INCREASING and E is not None and E.real_mode and is_reallike(args[0]):
        return increasing_function(name, zreal(args[0]))
    if name == "sign" and E is not None and E.real_mode and is_reallike(args[0]):
        x = zreal(args[0])
        return SReal(z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))))
    if name == "expm1" and is_reallike(args[0]):
        return _arith("-", scalar_op("exp", args[0]), 1.0)
    if name in REALFUN and is_reallike(args[0]):
        return elementary(name, args[0])
    return None


def elementary(name, x):
    """an elementary function of a real number"""
    x = zreal(x)
    if name == "sqrt" and E is not None and E.real_mode:
        x = z3.simplify(x)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and E.entails(x.arg(1) > 0):
            return elementary("sqrt", mkreal(x.arg(0))) / elementary("sqrt", mkreal(x.arg(1)))
        r = REALFUN[name](x)
        E.axiom(z3.Implies(x > 0, r > 0))
        E.axiom(z3.Implies(x == 0, r == 0))
        return SReal(r)
    r = REALFUN[name](x)
    if name == "log" and E is not None and E.real_mode:
        if not E.entails(x > 0):
            raise Unsupported("the logarithm of a number, that might not be positive")
        E.axiom(z3.And((x > 1) == (r > 0), (x == 1) == (r == 0)))
    return SReal(r)


CEXP = z3.Function("cexp", RealS, RealS, V)
CABS = z3.Function("cabs", RealS, RealS, RealS)
REXP = z3.Function("rexp", RealS, RealS)
REALFUN = {n: z3.Function("r" + n, RealS, RealS) for n in ("sin", "cos", "tan", "sqrt", "log", "log2", "log10", "sinh", "cosh", "arcsin", "arcsinh", "arccos", "floor", "ceil")}


INCREASING = {"log2": "exp2", "exp2": "log2", "log10": None}
REALFUN["exp2"] = z3.Function("rexp2", RealS, RealS)


def increasing_function(name, x):
    """a logarithm or an exponential function: strictly increasing, and the inverse of its counterpart"""
    x = z3.simplify(x)
    if name.startswith("log") and not E.entails(x > 0):
        raise Unsupported("the logarithm of a number, that might not be positive")
    inverse = INCREASING[name]
    if inverse and z3.is_app(x) and x.decl().eq(REALFUN[inverse]):
        return SReal(x.arg(0))
    return SReal(state_increasing(name, x))


def state_increasing(name, x):
    log = name.startswith("log")
    known = E.apps.setdefault(name, {})
    if not known:
        E.theory(REALFUN[name], lambda a: state_increasing(name, a))
    if x.get_id() in known:
        return known[x.get_id()][1]
    app = REALFUN[name](x)
    E.axiom(app == 0 if z3.is_rational_value(x) and x.as_fraction() == (1 if log else 0) and name != "exp2" else (z3.BoolVal(True) if log or nonlinear(x) else app > 0))
    known[x.get_id()] = (x, app)
    return app


def nonlinear(t):
    """True, if a term contains a product or a quotient of terms, that are not constant"""
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL and sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
        return True
    if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
        return True
    return any(nonlinear(c) for c in t.children())


COMPARISONS = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ)


def state_order(atom):
    """the increasing functions, that are compared with each other in an atomic condition, are ordered like their arguments"""
    apps, stack, seen = {}, [atom], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        name = t.decl().name()[1:]
        if t.num_args() == 1 and name in INCREASING and t.decl().eq(REALFUN[name]):
            apps.setdefault(name, []).append(t)
        stack.extend(t.children())
    for name, ts in apps.items():
        for i, a in enumerate(ts[:6]):
            for b in ts[:i]:
                if nonlinear(a) or nonlinear(b):
                    continue
                key = ("order", min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
                if key not in E.visited:
                    E.visited[key] = (a, b)
                    x, y = a.arg(0), b.arg(0)
                    f = z3.And((x < y) == (a < b), (x == y) == (a == b))
                    E.axiom(z3.Implies(z3.And(x > 0, y > 0), f) if name.startswith("log") else f)


def floordiv(a, b):
    if is_intlike(a) and is_intlike(b):
        x, y = zint(a), zint(b)
        if E.decide(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if E.entails(y > 0):
            return mkint(x / y)
        if E.entails(y < 0):
            return mkint((-x) / (-y))
        return mkint(z3.If(y > 0, x / y, (-x) / (-y)))
    if is_reallike(a) and is_reallike(b):
        q = _arith("/", _arith("*", 1.0, a), b)
        return mkreal(z3.ToReal(z3.ToInt(zreal(q))))
    return NotImplemented


def pymod(a, b):
    if isinstance(a, SVal) or isinstance(b, SVal):
        return vop("mod", a, b)
    if is_intlike(a) and is_intlike(b):
        x, y = zint(a), zint(b)
        if E.decide(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if E.entails(y > 0):
            return mkint(x % y)
        return mkint(z3.If(y > 0, x % y, -((-x) % (-y))))
    if is_reallike(a) and is_reallike(b):
        q = floordiv(a, b)
        return _arith("-", a, _arith("*", q, b))
    return NotImplemented


def trunc(x):
    if is_intlike(x):
        return mkint(zint(x))
    z = zreal(x)
    return mkint(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))


def floor(x):
    if is_intlike(x):
        return x
    return _enumerated(x, mkint(z3.ToInt(zreal(x))))


def ceil(x):
    if is_intlike(x):
        return x
    return _enumerated(x, mkint(-z3.ToInt(-zreal(x))))


def _enumerated(x, n):
    """the rounded value of a binary logarithm as a number, by distinguishing the (few) cases, because it is likely to be an exponent"""
    if not isinstance(n, SInt) or "rlog2" not in x.z.sexpr():
        return n
    low = E.decide(n.z < 0)
    if low or E.decide(n.z > 64):
        return n
    while E.check() == z3.sat:
        v = E.solver.model().eval(n.z, model_completion=True).as_long()
        if E.decide(n.z == v):
            return v
    return n


POW2 = z3.Function("pow2", IntS, IntS)
RUDIN_SHAPIRO = z3.Function("rudin_shapiro", IntS, IntS)


def pow2(k):
    """2 ** k for an integer k >= 0"""
    if isinstance(k, int):
        return 2 ** k
    z, c = z3.simplify(k.z), 0
    if z3.is_add(z):
        consts = [a for a in z.children() if z3.is_int_value(a)]
        if consts and consts[0].as_long() > 0:
            c = consts[0].as_long()
            z = z3.simplify(z - c)
    E.axiom(POW2(z) >= 1)
    return mkint(POW2(z) * 2 ** c)


def rudin_shapiro(n, k):
    """element n of the Rudin-Shapiro sequence: the sign of the number of adjacent ones in the binary representation of n;
    its definition is instantiated for the numbers with k + 2 binary digits"""
    z, p = zint(n), zint(pow2(k))
    r = RUDIN_SHAPIRO(z)
    E.axiom(z3.Or(r == 1, r == -1))
    E.axiom(z3.Implies(z3.And(z >= 0, z <= 1), r == 1))
    m = z - 2 * p
    E.axiom(z3.Implies(z3.And(m >= 0, m <= 1), RUDIN_SHAPIRO(m) == 1))
    E.axiom(z3.Implies(z3.And(z3.IntVal(0) <= m, m < 2 * p), r == z3.If(m < p, RUDIN_SHAPIRO(m), -RUDIN_SHAPIRO(m))))
    return mkint(r)


ROUND = z3.Function("rround", RealS, IntS)


def state_rounding(z):
    known = E.apps.setdefault("round", {})
    if not known:
        E.theory(ROUND, state_rounding)
    if z.get_id() not in known:
        r = ROUND(z)
        known[z.get_id()] = (z, r)
        d = z - z3.ToReal(r)
        E.axiom(z3.And(d >= z3.Q(-1, 2), d <= z3.Q(1, 2), z3.Implies(z3.Or(d == z3.Q(1, 2), d == z3.Q(-1, 2)), r % 2 == 0)))
    return known[z.get_id()][1]


def rnd(x):
    """round half to even"""
    if is_intlike(x):
        return x
    z = z3.simplify(zreal(x))
    if E is not None and E.real_mode and nonlinear(z):
        return mkint(state_rounding(z))
    h = z + z3.Q(1, 2)
    r = z3.ToInt(h)
    return mkint(z3.If(z3.And(z3.ToReal(r) == h, r % 2 == 1), r - 1, r))


def minmax(is_max, *args):
    r = args[0]
    for a in args[1:]:
        if isinstance(r, (int, float)) and isinstance(a, (int, float)):
            r = max(r, a) if is_max else min(r, a)
            continue
        if not (is_reallike(r) and is_reallike(a)):
            if (a > r) if is_max else (a < r):
                r = a
            continue
        if isinstance(r, float) and math.isinf(r) or isinstance(a, float) and math.isinf(a):
            raise Unsupported("infinite bound")
        ge = _cmp(">=", r, a)
        if not isinstance(ge, bool):
            if E.entails(ge.z):
                ge = True
            elif E.entails(z3.Not(ge.z)):
                ge = False
        if isinstance(ge, bool):
            r = r if ge == is_max else a
        elif is_intlike(r) and is_intlike(a):
            r = mkint(z3.If(ge.z, zint(r if is_max else a), zint(a if is_max else r)))
        else:
            r = mkreal(z3.If(ge.z, zreal(r if is_max else a), zreal(a if is_max else r)))
    return r


# ----------------------------------------------------------------- boolean and conditional terms

def band(*xs):
    zs = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        zs.append(zbool(x))
    if not zs:
        return True
    return mkbool(z3.And(*zs)) if len(zs) > 1 else mkbool(zs[0])


def bor(*xs):
    zs = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        zs.append(zbool(x))
    if not zs:
        return False
    return mkbool(z3.Or(*zs)) if len(zs) > 1 else mkbool(zs[0])


def bnot(x):
    return (not x) if isinstance(x, bool) else mkbool(z3.Not(zbool(x)))


def ite(cond, a, b):
    """``cond ? a : b`` where a and b are thunks or values"""
    if isinstance(cond, bool):
        r = a if cond else b
        return r() if callable(r) else r
    c = zbool(cond)
    a = a() if callable(a) else a
    b = b() if callable(b) else b
    return merge(c, a, b)


def merge(c, a, b):
    if a is b:
        return a
    if isinstance(a, (SLabel, str)) and isinstance(b, (SLabel, str)):
        x, y = tolabel(a), tolabel(b)
        return SLabel(x if x.eq(y) else z3.If(c, x, y))
    if isinstance(a, SVal) or isinstance(b, SVal):
        x, y = toval(a).z, toval(b).z
        return SVal(x if x.eq(y) else z3.If(c, x, y))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c, zbool(a), zbool(b)))
    if is_intlike(a) and is_intlike(b):
        return mkint(z3.If(c, zint(a), zint(b)))
    if is_reallike(a) and is_reallike(b) and not any(isinstance(q, float) and not math.isfinite(q) for q in (a, b)):
        return mkreal(z3.If(c, zreal(a), zreal(b)))
    if is_valuelike(a) and is_valuelike(b):
        if any(isinstance(q, float) and not math.isfinite(q) for q in (a, b)):
            return SVal(z3.If(c, toval(a).z, toval(b).z))
        a, b = tocplx(a), tocplx(b)
        return mkcplx(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if type(a) is type(b) and a == b:
        return a
    raise Unsupported(f"merging {type(a).__name__} and {type(b).__name__}")


def veq(a, b):
    """z3 equality of two scalar values of any kind"""
    if isinstance(a, (str, SLabel)) or isinstance(b, (str, SLabel)):
        if not isinstance(a, (str, SLabel)) or not isinstance(b, (str, SLabel)):
            return z3.BoolVal(False)
        return tolabel(a) == tolabel(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return zbool(a) == zbool(b)
    if isinstance(a, SVal) or isinstance(b, SVal):
        return toval(a).z == toval(b).z
    if is_intlike(a) and is_intlike(b):
        return zint(a) == zint(b)
    if is_reallike(a) and is_reallike(b):
        fa, fb = [isinstance(q, float) and not math.isfinite(q) for q in (a, b)]
        if fa or fb:
            return z3.BoolVal(fa and fb and (a == b or (a != a and b != b)))
        return zreal(a) == zreal(b)
    if is_cplxlike(a) and is_cplxlike(b):
        a, b = tocplx(a), tocplx(b)
        return z3.And(a.re == b.re, a.im == b.im)
    if a is None or b is None:
        return z3.BoolVal(a is b)
    raise Unsupported(f"comparing {type(a).__name__} and {type(b).__name__}")


def commutativity(fs):
    """instances of x+y = y+x and x*y = y*x for the operations on samples, that occur in the formulas"""
    seen, out, apps = set(), [], {}
    stack = list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.num_args() == 2 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in COMMUTATIVE:
                out.append(t == t.decl()(t.arg(1), t.arg(0)))
                if t.decl().name() == "multiply" and E is not None and E.zero_product:
                    out.append(z3.Implies(z3.Or(t.arg(0) == num(0), t.arg(1) == num(0)), t == num(0)))
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                nm = t.decl().name()
                if nm == "cexp":
                    out.append(z3.Implies(z3.And(t.arg(0) == 0, t.arg(1) == 0), t == num(1)))
                elif nm == "rexp":
                    out.append(z3.Implies(t.arg(0) == 0, t == 1))
                    out.append(t > 0)
                    apps.setdefault(nm, []).append(t)
                elif nm in ("rsin", "rcos"):
                    out.append(z3.Implies(t.arg(0) == 0, t == (0 if nm == "rsin" else 1)))
                    apps.setdefault(nm, []).append(t)
                elif nm == "cabs":
                    out.append(t >= 0)
                    out.append(t * t == t.arg(0) * t.arg(0) + t.arg(1) * t.arg(1))
            stack.extend(t.children())
    for nm, ts in apps.items():
        for i, t in enumerate(ts):
            if nm == "rsin":
                c = REALFUN["cos"](t.arg(0))
                out.append(t * t + c * c == 1)
            for u in ts[:i]:
                opp = t.arg(0) + u.arg(0) == 0
                out.append(z3.Implies(opp, {"rexp": lambda: t * u == 1, "rsin": lambda: t == -u, "rcos": lambda: t == u}[nm]()))
    return out


class TooLarge(Exception):
    pass


def _pmul(p, q):
    if len(p) * len(q) > 20000:
        raise TooLarge()
    out = {}
    for m, a in p.items():
        for n, b in q.items():
            k = tuple(sorted(m + n))
            c = out.get(k, 0) + a * b
            if c:
                out[k] = c
            else:
                out.pop(k, None)
    return out


def _padd(p, q, sign=1):
    out = dict(p)
    for m, a in q.items():
        c = out.get(m, 0) + sign * a
        if c:
            out[m] = c
        else:
            out.pop(m, None)
    return out


def _fraction(z, memo):
    """a real term as a fraction of two polynomials of its atoms"""
    hit = memo.get(z.get_id())
    if hit is not None:
        return hit[0]
    one = {(): fractions.Fraction(1)}
    k = z.decl().kind() if z3.is_app(z) else None
    if z3.is_rational_value(z) or z3.is_int_value(z):
        f = fractions.Fraction(z.as_long()) if z3.is_int_value(z) else z.as_fraction()
        r = ({(): f} if f else {}, one)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = _fraction(z.arg(0), memo)
        for q in z.children()[1:]:
            s = _fraction(q, memo)
            sign = 1 if k == z3.Z3_OP_ADD else -1
            if r[1] == s[1]:
                r = (_padd(r[0], s[0], sign), r[1])
            else:
                r = (_padd(_pmul(r[0], s[1]), _pmul(s[0], r[1]), sign), _pmul(r[1], s[1]))
    elif k == z3.Z3_OP_MUL:
        r = (one, one)
        for q in z.children():
            s = _fraction(q, memo)
            r = (_pmul(r[0], s[0]), _pmul(r[1], s[1]))
    elif k == z3.Z3_OP_UMINUS:
        s = _fraction(z.arg(0), memo)
        r = ({m: -c for m, c in s[0].items()}, s[1])
    elif k == z3.Z3_OP_DIV:
        a, b = _fraction(z.arg(0), memo), _fraction(z.arg(1), memo)
        if not b[0]:
            raise TooLarge()
        r = (_pmul(a[0], b[1]), _pmul(a[1], b[0]))
    elif k == z3.Z3_OP_TO_REAL:
        r = _fraction(z.arg(0), memo)
    elif k == z3.Z3_OP_POWER and z3.is_rational_value(z.arg(1)) and z.arg(1).as_fraction().denominator == 1 and 0 <= z.arg(1).as_fraction() <= 8:
        s, r = _fraction(z.arg(0), memo), (one, one)
        for _ in range(int(z.arg(1).as_fraction())):
            r = (_pmul(r[0], s[0]), _pmul(r[1], s[1]))
    elif z3.is_app(z) and z.num_args() == 1 and k == z3.Z3_OP_UNINTERPRETED and z.arg(0).sort() == RealS:
        # applications of the same function to equal arguments are the same atom
        a = _fraction(z.arg(0), memo)
        known = memo.setdefault(("apps", z.decl().get_id()), [])
        atom = next((i for i, b in known if not _padd(_pmul(a[0], b[1]), _pmul(b[0], a[1]), -1)), None)
        if atom is None:
            atom = z.get_id()
            known.append((atom, a))
        r = ({(atom,): fractions.Fraction(1)}, one)
    else:
        r = ({(z.get_id(),): fractions.Fraction(1)}, one)
    memo[z.get_id()] = (r, z)
    return r


def field_identity(goal):
    """whether a conjunction of equations holds in every field (divisors are not zero: the path decides this before each division)"""
    if z3.is_and(goal):
        return all(field_identity(g) for g in goal.children())
    if not z3.is_eq(goal) or goal.arg(0).sort() != RealS:
        return False
    try:
        memo = {}
        a, b = _fraction(goal.arg(0), memo), _fraction(goal.arg(1), memo)
        return not _padd(_pmul(a[0], b[1]), _pmul(b[0], a[1]), -1)
    except (TooLarge, RecursionError):
        return False


def equal_apps(goal):
    """applications of the same function to numbers, that are equal in every field, are equal"""
    table, seen, stack = {}, set(), [goal]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).sort() == RealS and t.sort() == RealS:
                table.setdefault(t.decl().name(), []).append(t)
            stack.extend(t.children())
    out = []
    for ts in table.values():
        ts = ts[:12]
        for i, t in enumerate(ts):
            for u in ts[:i]:
                if field_identity(t.arg(0) == u.arg(0)):
                    out.append((t, u))
                    break
    return out


def free_variable(t):
    """whether a term contains a bound variable of a quantifier"""
    seen, stack = set(), [t]
    while stack:
        q = stack.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if z3.is_var(q):
            return True
        stack.extend(q.children())
    return False


def inner_ite(goal):
    """a case distinction between numbers, whose condition does not contain another one"""
    seen, stack = set(), [goal]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                r = inner_ite(t.arg(0))
                return t if r is None else r
            stack.extend(t.children())
    return None


def index_pairs(goal):
    """pairs of different integer arguments of the same function"""
    table, seen, stack = {}, set(), [goal]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for k in range(t.num_args()):
                    if t.arg(k).sort() == IntS:
                        table.setdefault((t.decl().name(), k), {})[t.arg(k).get_id()] = t.arg(k)
            stack.extend(t.children())
    for d in table.values():
        v = sorted(d.values(), key=lambda x: (x.num_args(), str(x)))
        for i, a in enumerate(v):
            for b in v[i + 1:]:
                yield a, b


def congruence(goal):
    """f(x) = f(y) follows from x = y"""
    while z3.is_eq(goal) and goal.arg(0).sort() == RealS:
        a, b = goal.arg(0), goal.arg(1)
        if not (z3.is_app(a) and z3.is_app(b) and a.num_args() == 1 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().eq(b.decl()) and a.arg(0).sort() == RealS):
            break
        if not field_identity(a.arg(0) == b.arg(0)):
            break
        return z3.BoolVal(True)
    return goal


def transcendental(fs):
    """whether a formula contains elementary functions, of which only some facts are known"""
    seen, stack = set(), list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.decl().name() in ("rexp", "rpow", "cexp") or t.decl().name()[1:] in REALFUN):
                return True
            stack.extend(t.children())
    return False


# ----------------------------------------------------------------- the engine

class Obligation:
    __slots__ = ("name", "status", "time", "model", "backend", "path", "detail")

    def __init__(self, name, status, t, model=None, backend="z3", path=0, detail=""):
        self.name, self.status, self.time, self.model = name, status, t, model
        self.backend, self.path, self.detail = backend, path, detail


class Engine:
    def __init__(self, timeout_ms=8000, max_paths=4000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = []
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.zero_product = False
        self.real_mode = False
        self.univariate = False
        self.literals = None
        self.witnesses = []
        self.labels = {}
        self.reset([])

    # ------------------------------------------------------------ paths
    def reset(self, prefix):
        self.trace = list(prefix)
        self.pos = 0
        self.pending = []
        self.pc = []
        self.qfacts = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.counter = 0
        self.inputs = {}
        self.sums = {}
        self.buffers = []
        self.collectors = []
        self.moduli = []
        self.axioms = []
        self.covered = 0
        self.apps = {}
        self.windows = {}
        self.theories = {}
        self.visited = {}
        self.transforms = []
        self.candidates = []
        self.contents = []
        self.fmt = {}
        self.lookahead = 0
        self.shadow = []
        self.ecache = {}
        self.literals = None
        self.loop_depth = 0

    def explore(self, fn):
        """runs fn on every feasible path; returns the list of (outcome, value) of the paths"""
        global E
        old, E = E, self
        stack = [[]]
        results = []
        try:
            while stack:
                prefix = stack.pop()
                self.reset(prefix)
                self.paths += 1
                if self.paths > self.max_paths or (self.deadline and time.time() > self.deadline):
                    results.append(("budget", f"{self.paths} paths"))
                    break
                try:
                    results.append(("ok", fn()))
                except Infeasible:
                    results.append(("infeasible", None))
                except Unsupported as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb][-6:]
                    results.append(("unsupported", f"{e} [{' < '.join(reversed(where))}]"))
                stack.extend(self.pending)
        finally:
            E = old
        return results

    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const(f"{name}!{self.counter}", sort)

    def freshint(self, name="i"):
        return SInt(self.fresh(name, IntS))

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        c = cond if isinstance(cond, z3.BoolRef) else zbool(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)
        self.solver.add(c)
        self.ecache = {}

    def axiom(self, fact):
        """a fact, that holds on every path (an instance of a contract of a function or of a property of an input)"""
        fact = z3.simplify(fact)
        if not z3.is_true(fact):
            self.axioms.append(fact)
            self.solver.add(fact)

    def theory(self, decl, instance):
        """a function symbol with a contract: instance(*arguments) states it for the given arguments"""
        self.theories[decl.name()] = instance

    def cover(self, terms):
        """states the contracts of the function symbols for the applications, that occur in the given terms"""
        if not self.theories:
            return
        stack = list(terms)
        limit = len(self.axioms) + 400
        while stack or self.covered < min(limit, len(self.axioms)):
            if not stack:
                stack.append(self.axioms[self.covered])
                self.covered += 1
                continue
            t = stack.pop()
            if t.get_id() in self.visited:
                continue
            self.visited[t.get_id()] = t
            if z3.is_app(t):
                if t.decl().kind() in COMPARISONS and z3.is_real(t.arg(0)):
                    state_order(t)
                if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    f = self.theories.get(t.decl().name())
                    if f is not None and not any(free_variable(a) for a in t.children()):
                        f(*t.children())
                stack.extend(t.children())

    def assume_q(self, cond):
        """a quantified fact: used in obligations only, not for deciding branches"""
        self.qfacts.append(cond)

    def check(self, *extra):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported("time budget")
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def entails(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.cover([c])
        k = c.get_id()
        hit = self.ecache.get(k)
        if hit is not None:
            return hit[0]
        r = self.check(z3.Not(c)) == z3.unsat
        self.ecache[k] = (r, c)
        return r

    def by_literals(self, c):
        """the truth value of a condition, if it follows from the conditions of the path by substituting them literally"""
        r = self.substituted(c)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def substituted(self, c):
        """an equivalent of a condition on the current path"""
        if not self.real_mode or not self.pc:
            return c
        k = len(self.pc)
        if self.literals is None or self.literals[0] is not self.pc or self.literals[1] > k:
            self.literals = [self.pc, 0, []]
        for p in self.pc[self.literals[1]:]:
            if z3.is_not(p):
                self.literals[2].append((p.arg(0), z3.BoolVal(False)))
            else:
                self.literals[2].append((p, z3.BoolVal(True)))
                if z3.is_and(p):
                    self.literals[2].extend((q.arg(0), z3.BoolVal(False)) if z3.is_not(q) else (q, z3.BoolVal(True)) for q in p.children())
        self.literals[1] = k
        r = z3.simplify(z3.substitute(c, *self.literals[2])) if self.literals[2] else c
        values = []
        for p, v in self.literals[2]:
            if z3.is_true(v) and z3.is_eq(p):
                for x, y in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_rational_value(y) or z3.is_int_value(y)):
                        values.append((x, y))
                        break
        return z3.simplify(z3.substitute(r, *values)) if values else r

    def decide(self, cond):
        """the truth value of a symbolic condition: forks the path, when both are possible"""
        c = cond if isinstance(cond, z3.BoolRef) else zbool(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r = self.by_literals(c)
        if r is not None:
            return r
        self.cover([c])
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            t = self.check(c) != z3.unsat
            f = self.check(z3.Not(c)) != z3.unsat
            if t and f:
                self.pending.append(self.trace[:self.pos] + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise Infeasible()
            self.trace.append(d)
        self.pos += 1
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """a demonic choice between n alternatives (all are explored)"""
        for i in range(n - 1):
            if self.pos < len(self.trace):
                d = self.trace[self.pos]
            else:
                self.pending.append(self.trace[:self.pos] + [False])
                d = True
                self.trace.append(d)
            self.pos += 1
            if d:
                return i
        return n - 1

    # ------------------------------------------------------------ nested exploration (loop bodies)
    def subexplore(self, fn, limit=64):
        """explores fn from the current state without committing to its paths;
        returns a list of (guard conditions, qfacts, result or exception)"""
        outcomes = []
        saved = (self.trace, self.pos, self.pending, list(self.pc), list(self.qfacts))
        bufs = [(b, b.elem, b.version, b.writes) for b in self.buffers]
        nb = len(self.buffers)
        stack = [[]]
        try:
            while stack:
                prefix = stack.pop()
                self.trace, self.pos, self.pending = list(prefix), 0, []
                self.pc, self.qfacts = list(saved[3]), list(saved[4])
                self.solver.push()
                known = len(self.axioms)
                self.ecache = {}
                for b, e, v, w in bufs:
                    b.elem, b.version, b.writes = e, v, list(w)
                del self.buffers[nb:]
                try:
                    try:
                        r = ("ok", fn())
                    except Infeasible:
                        r = None
                    except (EngineSignal, GeneratorExit, KeyboardInterrupt):
                        raise
                    except Exception as e:      # the code under proof raises
                        r = ("raise", e)
                    if r is not None:
                        outcomes.append((self.pc[len(saved[3]):], self.qfacts[len(saved[4]):], r,
                                         {b: (b.elem, b.version, list(b.writes)) for b in self.buffers}))
                finally:
                    self.solver.pop()
                    self.solver.add(*self.axioms[known:])
                    self.ecache = {}
                stack.extend(self.pending)
                if len(outcomes) > limit:
                    raise Unsupported("too many paths in a loop body")
        finally:
            self.trace, self.pos, self.pending, self.pc, self.qfacts = saved[0], saved[1], saved[2], saved[3], saved[4]
            for b, e, v, w in bufs:
                b.elem, b.version, b.writes = e, v, w
            del self.buffers[nb:]
        return outcomes

    # ------------------------------------------------------------ obligations
    def prove(self, goal, name, facts=(), witness=None):
        """one proof obligation: path condition => goal"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        elif not isinstance(goal, z3.BoolRef):
            goal = zbool(goal)
        t0 = time.time()
        status, model, backend, detail = self._prove(goal, list(facts))
        ob = Obligation(name, status, time.time() - t0, model, backend, self.paths, detail)
        self.obligations.append(ob)
        return status == "proved"

    def prove_near(self, a, b, scale, tolerance, name):
        """one proof obligation: path condition => |a - b| <= tolerance * scale"""
        from . import univariate
        t0 = time.time()
        if univariate.near(self, a, b, scale, tolerance):
            self.obligations.append(Obligation(name, "proved", time.time() - t0, None, "real root isolation", self.paths, ""))
            return
        d, t = a - b, z3.RealVal(fractions.Fraction(tolerance)) * scale
        self.prove(z3.And(d <= t, -d <= t), name)

    def _solve(self, fs, timeout, cfg=None):
        s = z3.Solver()
        s.set("timeout", timeout)
        for k, v in (cfg or {}).items():
            s.set(k, v)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, s

    def _prove(self, goal, facts):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", None, "simplifier", ""
        if self.real_mode:
            goal = self.substituted(goal)
            if z3.is_true(goal):
                return "proved", None, "simplifier", "substitution"
            if field_identity(goal):
                return "proved", None, "polynomial normal form", ""
            same = equal_apps(goal)
            if same:
                goal = z3.simplify(z3.substitute(goal, *same))
                if z3.is_true(goal):
                    return "proved", None, "polynomial normal form", "congruence"
        if self.real_mode:
            self.cover([goal] + self.pc)
            facts = facts + self.instances(goal)
        if self.real_mode and (self.axioms or inner_ite(goal) is not None):
            goal = self.resolved(goal, facts)
            same = equal_apps(goal)
            if same:
                goal = z3.simplify(z3.substitute(goal, *same))
            if z3.is_true(goal) or field_identity(goal):
                return "proved", None, "polynomial normal form", "case distinctions of the path"
        fs = self.pc + facts + self.axioms + [z3.Not(goal)]
        fs += commutativity(fs)
        r, s = self._solve(fs, self.timeout_ms)
        if r == z3.unsat:
            return "proved", None, "z3", ""
        lemmas = []
        if self.sums:
            from . import sums
            lemmas = sums.lemmas(self, goal)
            lemmas += commutativity(lemmas)
            if lemmas:
                r, s = self._solve(fs + lemmas, self.timeout_ms)
                if r == z3.unsat:
                    return "proved", None, "z3", "sum congruence"
        if self.qfacts:
            r2, s2 = self._solve(fs + lemmas + self.qfacts, self.timeout_ms)
            if r2 == z3.unsat:
                return "proved", None, "z3", "quantified facts"
            if r2 == z3.sat:
                r, s = r2, s2
            elif r == z3.sat:
                # a counterexample, which has not been checked against the quantified facts
                return "unknown", s.model(), "z3", "candidate"
        if r == z3.sat:
            if self.sums and sums.apps(goal):
                # the sums are uninterpreted: the values in the model may be wrong
                return "unknown", s.model(), "z3", "candidate: sums"
            if self.real_mode and transcendental(self.pc + [goal]):
                return "unknown", s.model(), "z3", "candidate: elementary functions"
            return "refuted", s.model(), "z3", ""
        # unknown: try a second solver
        r3 = self._cvc5(fs + lemmas + self.qfacts)
        if r3 == "unsat":
            return "proved", None, "cvc5", ""
        return "unknown", None, "z3+cvc5", str(s.reason_unknown())

    def instances(self, goal):
        """instances of the quantified facts for the indices, that occur in the goal"""
        out = []
        qs = [q for q in self.qfacts if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == IntS]
        if qs:
            terms = {}
            stack, seen = [goal], set()
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t):
                    if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        for a in t.children():
                            if a.sort() == IntS:
                                terms[a.get_id()] = a
                    stack.extend(t.children())
            for q in qs[:6]:
                for a in list(terms.values())[:10]:
                    out.append(z3.simplify(z3.substitute_vars(q.body(), a)))
            self.cover(out)
        return out

    def resolved(self, goal, facts=()):
        """an equivalent of a goal on the current path: case distinctions, that are decided by the path, are eliminated
        and indices, that are equal on the path, are unified"""
        hyp = []
        if z3.is_or(goal) or z3.is_implies(goal):
            parts = [z3.Not(goal.arg(0)), goal.arg(1)] if z3.is_implies(goal) else list(goal.children())
            hyp = [z3.simplify(z3.Not(g)) for g in parts if not z3.is_eq(g) and not z3.is_and(g)]
            rest = [g for g in parts if z3.is_eq(g) or z3.is_and(g)]
            if len(rest) != 1:
                return goal
            goal = rest[0]
        known = len(self.axioms)
        self.solver.push()
        try:
            self.solver.add(*hyp)
            self.solver.add(*facts)
            old, self.ecache = self.ecache, {}
            for _ in range(60):
                q = inner_ite(goal)
                if q is None:
                    break
                c = q.arg(0)
                if self.entails(c):
                    goal = z3.substitute(goal, (q, q.arg(1)))
                elif self.entails(z3.Not(c)):
                    goal = z3.substitute(goal, (q, q.arg(2)))
                else:
                    break
            for _ in range(4):
                pairs = []
                for a, b in index_pairs(goal):
                    if self.entails(a == b):
                        pairs.append((b, a))
                        break
                if not pairs:
                    break
                goal = z3.simplify(z3.substitute(goal, *pairs))
            self.ecache = old
        finally:
            self.solver.pop()
            self.solver.add(*self.axioms[known:])
        goal = congruence(z3.simplify(goal))
        if hyp and not z3.is_true(goal) and not field_identity(goal):
            goal = z3.Or(*[z3.Not(h) for h in hyp], goal)
        return goal

    def _cvc5(self, fs):
        try:
            import cvc5
            s = z3.Solver()
            s.add(*fs)
            text = s.to_smt2()
            text = text.replace("(check-sat)", "")
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(self.timeout_ms))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                c.invoke(slv, sm)
            t = time.time()
            r = slv.checkSat()
            self.solver_time += time.time() - t
            return "unsat" if r.isUnsat() else ("sat" if r.isSat() else "unknown")
        except Exception:       # pylint: disable=broad-except
            return "unknown"

    def feasible_model(self, small=()):
        """a model of the current path condition, preferring small values"""
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*self.pc)
        s.add(*self.axioms)
        for bound in small:
            s.push()
            s.add(*bound)
            if s.check() == z3.sat:
                return s.model()
            s.pop()
        if s.check() == z3.sat:
            return s.model()
        return None

    # ------------------------------------------------------------ labels
    def label_const(self, text):
        """a constant of sort L for a string; texts, which contain formatted symbols become function applications"""
        if "\u27e6" in text:
            import re
            parts = re.split("(\u27e6[0-9]+\u27e7)", text)
            args = [self.fmt[p] for p in parts if p in self.fmt]
            pattern = "".join("{}" if p in self.fmt else p for p in parts)
            zs = []
            for a in args:
                if isinstance(a, SInt):
                    zs.append(a.z)
                elif isinstance(a, (SLabel, SReal, SCplx)):
                    zs.append(a.z)
                else:
                    raise Unsupported("label format")
            f = z3.Function("fmt:" + pattern, *[z.sort() for z in zs], L)
            return f(*zs)
        if text not in self.labels:
            c = z3.Const("label:" + text, L)
            self.labels[text] = c
        c = self.labels[text]
        # distinct constants
        others = [o for o in self.labels.values() if o is not c]
        key = ("lab", text, len(others))
        if others and key not in self.ecache:
            self.solver.add(z3.Distinct(*self.labels.values()))
            self.pc.append(z3.Distinct(*self.labels.values()))
            self.ecache[key] = (True, None)
        return c

    def fmt_token(self, x, spec):
        tok = f"\u27e6{len(self.fmt)}\u27e7"
        self.fmt[tok] = x
        if spec:
            return "{:" + spec + "}" + tok
        return tok
