"""Symbolic sequences (labels, transfer functions, index ranges) of unbounded length."""
import builtins
from . import core
from .core import SInt, Unsupported, zint, mkint, mkbool, ite, band
import z3


class Seq:
    """a sequence with a (possibly symbolic) length and an element function"""
    __hash__ = None
    parts = None        # for concatenations: the sequences, of which it consists

    def __init__(self, length, get, kind="tuple"):
        self.length = length
        self.get = get
        self.kind = kind

    # length, truth
    def vlen(self):
        return self.length

    def __bool__(self):
        return bool(self.length > 0) if not isinstance(self.length, int) else self.length > 0

    def __len__(self):
        if isinstance(self.length, int):
            return self.length
        raise Unsupported("len() of a symbolic sequence outside of the instrumented code")

    # access
    def at(self, i):
        """element i, which is known to be in range"""
        return self.get(i)

    def __getitem__(self, key):
        if isinstance(key, slice):
            start, step, n = slice_indices(key, self.length)
            get = self.get
            return Seq(n, lambda i: get(start + i * step), self.kind)
        i = normal_index(key, self.length)
        return self.get(i)

    def __iter__(self):
        if isinstance(self.length, int):
            return (self.get(i) for i in builtins.range(self.length))
        n = concrete_int(self.length)
        return (self.get(i) for i in builtins.range(n))

    def __add__(self, other):
        return concat(self, as_seq(other))

    def __radd__(self, other):
        return concat(as_seq(other), self)

    def __mul__(self, n):
        return repeat(self, n)

    __rmul__ = __mul__

    def __eq__(self, other):
        return seq_eq(self, other)

    def __ne__(self, other):
        return core.bnot(seq_eq(self, other))

    def append(self, x):
        raise Unsupported("append to a symbolic sequence")

    def index(self, x):
        raise Unsupported("index")

    def __contains__(self, x):
        raise Unsupported("in")


def concrete_int(x):
    """the value of a symbolic integer, if the path condition determines it"""
    if isinstance(x, int):
        return x
    E = core.E
    if E.check() == z3.sat:
        m = E.solver.model()
        v = m.eval(zint(x), model_completion=True)
        if z3.is_int_value(v) and E.entails(zint(x) == v):
            return v.as_long()
    raise Unsupported("symbolic integer where a concrete one is required")


def seq_eq(a, b):
    if not isinstance(b, (Seq, tuple, list)):
        return False
    b = as_seq(b)
    if isinstance(a.length, int) and isinstance(b.length, int):
        if a.length != b.length:
            return False
        return band(*(scalar_eq(a.get(i), b.get(i)) for i in builtins.range(a.length)))
    E = core.E
    n = a.length == b.length
    if n is False or (not isinstance(n, bool) and E.entails(z3.Not(n.z))):
        return False
    i = E.fresh("q", core.IntS)
    body = core.zbool(scalar_eq(a.get(SInt(i)), b.get(SInt(i))))
    rng = z3.And(0 <= i, i < zint(a.length))
    return mkbool(z3.And(core.zbool(n), z3.ForAll([i], z3.Implies(rng, body))))


def scalar_eq(x, y):
    if isinstance(x, core.Sym) or isinstance(y, core.Sym):
        return mkbool(core.veq(x, y))
    r = x == y
    return r if isinstance(r, (bool, core.SBool)) else bool(r)


def as_seq(x):
    if isinstance(x, Seq):
        return x
    if hasattr(x, "vc_seq"):
        return x.vc_seq()
    x = tuple(x)

    def get(i, x=x):
        if isinstance(i, int):
            return x[i]
        if not x:
            raise core.Infeasible()
        r = x[-1]
        for j in builtins.range(len(x) - 2, -1, -1):
            r = ite(mkbool(zint(i) == j), x[j], r)
        return r
    return Seq(len(x), get)


def is_symbolic(x):
    """a container, that cannot be iterated natively"""
    if isinstance(x, Seq):
        return not isinstance(x.length, int)
    if hasattr(x, "vc_symbolic"):
        return x.vc_symbolic()
    return False


def concat(a, b):
    if isinstance(a.length, int) and isinstance(b.length, int):
        return tuple(a) + tuple(b)
    n = a.length

    def get(i):
        return ite(i < n, lambda: a.get(i), lambda: b.get(i - n))
    r = Seq(a.length + b.length, get, a.kind)
    r.parts = (a.parts or [a]) + (b.parts or [b])
    return r


def chain(seqs_):
    """the concatenation of sequences"""
    ss = [as_seq(s) for s in seqs_]
    ss = [s for s in ss if not (isinstance(s.length, int) and s.length == 0)]
    if not ss:
        return ()
    r = ss[0]
    for s in ss[1:]:
        r = as_seq(concat(r, s))
    return r


def aligned_parts(ss):
    """the non-empty parts of sequences, if they consist of parts of equal lengths, else None"""
    if all(s.parts is None for s in ss):
        return None
    E = core.E
    parts = []
    for s in ss:
        ps = [p for p in (s.parts or [s]) if not (p.length == 0 if isinstance(p.length, int) else E.entails(zint(p.length) == 0))]
        parts.append(ps)
    if len({len(ps) for ps in parts}) != 1:
        return None
    for ps in builtins.zip(*parts):
        for p in ps[1:]:
            if isinstance(p.length, int) and isinstance(ps[0].length, int):
                if p.length != ps[0].length:
                    return None
            elif not E.entails(zint(p.length) == zint(ps[0].length)):
                return None
    return parts


class Collector:
    """the values, that are yielded by a generator function (which is run eagerly)"""

    def __init__(self):
        self.items = []         # values (in a list) or sequences
        if core.E is not None:
            cols = getattr(core.E, "collectors", None)
            if cols is None:
                cols = core.E.collectors = []
            cols.append(self)

    def emit(self, x):
        if not self.items or not isinstance(self.items[-1], builtins.list):
            self.items.append([])
        self.items[-1].append(x)

    def extend(self, it):
        if hasattr(it, "vc_seq"):
            it = it.vc_seq()
        if is_symbolic(it):
            self.items.append(as_seq(it))
        else:
            for x in it:
                self.emit(x)

    def result(self):
        if core.E is not None and self in core.E.collectors:
            core.E.collectors.remove(self)
        if any(isinstance(i, Seq) for i in self.items):
            return chain(self.items)
        return iter([x for i in self.items for x in i])


class MList:
    """a mutable list with a symbolic length; its elements are labels or None/strings, that are overwritten by labels"""
    __hash__ = None

    def __init__(self, length, buf):
        self.length, self.buf = length, buf

    @staticmethod
    def repeated(x, n):
        from .arrays import Buf, asdtype
        b = Buf((n,), lambda idx: x, asdtype("float64"), name="list")
        b.sort = "label"
        return MList(n, b)

    def vc_symbolic(self):
        return True

    def vlen(self):
        return self.length

    def vc_seq(self):
        e = self.buf.elem
        return Seq(self.length, lambda i: e((i,)), "list")

    def __getitem__(self, key):
        if isinstance(key, slice):
            return self.vc_seq()[key]
        return self.buf.elem((normal_index(key, self.length),))

    def __setitem__(self, key, value):
        from .arrays import Fixed
        if isinstance(key, slice):
            raise Unsupported("slice assignment to a list")
        i = normal_index(key, self.length)
        pre = self.buf.elem
        self.buf.elem = lambda idx: ite(mkbool(zint(idx[0]) == zint(i)), lambda: value, lambda: pre(idx))
        self.buf.version += 1
        self.buf.writes.append(((Fixed(i),), ()))

    def __len__(self):
        raise Unsupported("len() of a symbolic list outside of the instrumented code")

    def __iter__(self):
        return iter(self.vc_seq())

    def __add__(self, o):
        return self.vc_seq() + o


def repeat(seq, n):
    if isinstance(n, int):
        if isinstance(seq, Seq):
            if n == 1:
                return seq
            raise Unsupported("repetition of a symbolic sequence")
        return seq * n
    if isinstance(seq, (tuple, list)) and len(seq) == 1:
        x = seq[0]
        length = smart_ite(n > 0, n, 0)
        if isinstance(seq, builtins.list) and (x is None or isinstance(x, (str, core.SLabel))):
            return MList.repeated(x, length)
        return Seq(length, lambda i: x)
    if isinstance(seq, (tuple, list)) and len(seq) == 0:
        return seq
    s = as_seq(seq)
    return Seq(core.minmax(True, n, 0) * s.length, lambda i: s.get(i % s.length))


def smart_ite(cond, a, b):
    """an integer conditional, that is resolved, when the path condition decides it"""
    if isinstance(cond, bool):
        return a if cond else b
    E = core.E
    if E.entails(cond.z):
        return a
    if E.entails(z3.Not(cond.z)):
        return b
    return mkint(z3.If(cond.z, zint(a), zint(b)))


def slice_indices(s, n):
    """start, step and length of a slice of a sequence with length n (semantics of Python's slices)"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == 0:
        raise ValueError("slice step cannot be zero")
    for x in (s.start, s.stop):
        if x is not None and not core.is_intlike(x):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
    if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
        a, b, st = s.indices(n)
        return a, st, len(builtins.range(a, b, st))
    if step > 0:
        lo, hi = 0, n
        start = 0 if s.start is None else clip(s.start, n, lo, hi)
        stop = n if s.stop is None else clip(s.stop, n, lo, hi)
        d = stop - start
    else:
        lo, hi = -1, n - 1
        start = n - 1 if s.start is None else clip(s.start, n, lo, hi)
        stop = -1 if s.stop is None else clip(s.stop, n, lo, hi)
        d = start - stop
    a = abs(step)
    count = d if a == 1 else (d + a - 1) // a
    return start, step, smart_ite(d > 0, count, 0)


def clip(x, n, lo, hi):
    if not isinstance(x, (int, SInt)):
        x = mkint(zint(x))
    pos = lambda: smart_ite(x < hi, x, hi)                      # noqa: E731
    neg = lambda: smart_ite(x + n < lo, lo, x + n)              # noqa: E731
    c = x < 0
    if isinstance(c, bool):
        return neg() if c else pos()
    if core.E.entails(c.z):
        return neg()
    if core.E.entails(z3.Not(c.z)):
        return pos()
    return mkint(z3.If(c.z, zint(neg()), zint(pos())))


def normal_index(i, n):
    """a non-negative index; raises the IndexError of the real containers"""
    if not core.is_intlike(i):
        raise TypeError("indices must be integers or slices")
    if not isinstance(i, (int, SInt)):
        i = mkint(zint(i))
    E = core.E
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise IndexError("index out of range")
        return i + n if i < 0 else i
    if E.decide(zint(i) < 0):
        i = i + n
        if E.decide(zint(i) < 0):
            raise IndexError("index out of range")
    elif E.decide(zint(i) >= zint(n)):
        raise IndexError("index out of range")
    return i


class Range(Seq):
    def __init__(self, start, stop, step):
        if not isinstance(step, int):
            if core.E.entails(zint(step) > 0):
                sign = 1
            elif core.E.entails(zint(step) < 0):
                sign = -1
            else:
                if core.E.decide(zint(step) == 0):
                    raise ValueError("range() arg 3 must not be zero")
                sign = 1 if core.E.decide(zint(step) > 0) else -1
        else:
            if step == 0:
                raise ValueError("range() arg 3 must not be zero")
            sign = 1 if step > 0 else -1
        d = (stop - start) if sign > 0 else (start - stop)
        a = step * sign
        if isinstance(a, int) and a == 1:
            count = d
        else:
            count = (d + a - 1) // a
        n = smart_ite(d > 0, count, 0) if not isinstance(d, int) or not isinstance(count, int) else max(0, count)
        super().__init__(n, lambda i: start + i * step, "range")
        self.start, self.stop, self.step = start, stop, step


def vrange(*args):
    args = [a if isinstance(a, int) else (mkint(zint(a))) for a in args]
    if all(isinstance(a, int) for a in args):
        return builtins.range(*args)
    if len(args) == 1:
        args = [0, args[0]]
    if len(args) == 2:
        args.append(1)
    return Range(*args)


def vzip(*its, strict=False):
    its = [i.vc_seq() if hasattr(i, "vc_seq") else i for i in its]
    if any(is_symbolic(i) for i in its):
        ss = [as_seq(i) for i in its]
        parts = aligned_parts(ss)
        if parts is not None:
            return chain([_zip(ps) for ps in builtins.zip(*parts)])
        return _zip(ss)
    return builtins.zip(*its)


def _zip(ss):
    n = core.minmax(False, *(s.length for s in ss)) if len(ss) > 1 else ss[0].length
    return Seq(n, lambda i: tuple(s.get(i) for s in ss))


def venumerate(it, start=0):
    if hasattr(it, "vc_seq"):
        it = it.vc_seq()
    if is_symbolic(it):
        s = as_seq(it)
        return Seq(s.length, lambda i: (i + start, s.get(i)))
    return builtins.enumerate(it, start)


def vreversed(x):
    if hasattr(type(x), "__reversed__"):
        return type(x).__reversed__(x)
    if hasattr(x, "vc_seq"):
        x = x.vc_seq()
    if isinstance(x, Seq):
        n = x.length
        return Seq(n, lambda i: x.get(n - 1 - i))
    return builtins.reversed(x)


def comp(kind, f, it, cond=None):
    """comprehensions: [f(x) for x in it if cond(x)]"""
    if hasattr(it, "vc_seq"):
        it = it.vc_seq()
    if is_symbolic(it):
        if cond is not None:
            return FilteredSeq(as_seq(it), f, cond)
        s = as_seq(it)
        if s.parts:
            return chain([Seq(p.length, lambda i, p=p: f(p.get(i)), kind) for p in s.parts])
        return Seq(s.length, lambda i: f(s.get(i)), kind)
    if cond is None:
        g = (f(x) for x in it)
    else:
        g = (f(x) for x in it if cond(x))
    if kind == "list":
        return builtins.list(g)
    if kind == "set":
        return builtins.set(g)
    return g


def flat(kind, f, it):
    """nested comprehensions: [y for x in it for y in f(x)]"""
    if hasattr(it, "vc_seq"):
        it = it.vc_seq()
    if is_symbolic(it):
        raise Unsupported("nested comprehension over a symbolic sequence")
    inner = [f(x) for x in it]
    inner = [i.vc_seq() if hasattr(i, "vc_seq") else i for i in inner]
    if any(isinstance(i, Seq) or is_symbolic(i) for i in inner):
        return chain(inner)
    g = (y for i in inner for y in i)
    return {"list": builtins.list, "set": builtins.set}.get(kind, lambda q: q)(g)


class FilteredSeq:
    """a filtered comprehension over a symbolic sequence: only supported by special rules"""

    def __init__(self, seq, f, cond):
        self.seq, self.f, self.cond = seq, f, cond

    def vc_symbolic(self):
        return True

    def __iter__(self):
        raise Unsupported("filtered comprehension over a symbolic sequence")
