"""Sums, whose terms are given by a function of a bound index (folds, convolutions).

A sum is an application of an uninterpreted function, whose arguments are the free
symbols of its definition.  Two sums are equal, if there is a bijection between
their index ranges, under which the terms are equal (checked by the solver)."""
import z3
from . import core
from .core import zint

NEUTRAL = {"add": core.num(0), "subtract": core.num(0), "multiply": core.num(1)}
_counter = [0]


class Def:
    __slots__ = ("kind", "op", "init", "n", "k", "body", "lo", "app")

    def __init__(self, kind, op, init, n, k, body, lo, app):
        self.kind, self.op, self.init, self.n, self.k, self.body, self.lo, self.app = kind, op, init, n, k, body, lo, app


def _free(terms, k):
    seen, out = set(), []
    stack = list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(k):
            out.append(t)
        stack.extend(t.children())
    return sorted(out, key=str)


def _register(kind, op, init, n, k, body, sort, lo=None):
    E = core.E
    nz = zint(n) if n is not None else None
    terms = [body] + ([init] if init is not None else []) + ([nz] if nz is not None else []) + ([lo] if lo is not None else [])
    free = _free(terms, k)
    key = (kind, op, tuple(t.get_id() for t in terms), k.get_id())
    if key in E.sums:
        return E.sums[key].app
    _counter[0] += 1
    f = z3.Function(f"{kind}:{_counter[0]}", *[t.sort() for t in free], sort)
    app = f(*free) if free else z3.Const(f"{kind}:{_counter[0]}", sort)
    d = Def(kind, op, init, nz, k, body, lo, app)
    d_free = free
    E.sums[key] = d
    E.sums[(app.decl().name(),)] = (d, d_free)
    return app


def fold(op, init, n, k, body):
    """init op T(0) op T(1) ... op T(n-1)"""
    return _register("fold", op, init, n, k, body, core.V)


def rfold(init, n, k, body):
    return _register("rfold", "add", init, n, k, body, core.RealS)


def bisum(k, body):
    """the sum over all integers k of a function with finite support"""
    return _register("bisum", "add", None, None, k, body, core.V)


def apps(goal):
    seen, out = set(), []
    stack = [goal]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            nm = t.decl().name()
            if nm.startswith(("fold:", "rfold:", "bisum:")):
                out.append(t)
            stack.extend(t.children())
    return out


def instance(E, app):
    d, free = E.sums[(app.decl().name(),)]
    pairs = [(f, a) for f, a in zip(free, app.children()) if not f.eq(a)]

    def sub(z):
        return z3.substitute(z, *pairs) if pairs and z is not None else z
    return d, sub(d.init), sub(d.n), sub(d.body)


def lemmas(E, goal, depth=0, within=()):
    """equations between the sums of a goal, that are justified by the congruence rule"""
    out = []
    aa = apps(goal)
    # nested: bodies may contain sums themselves
    for i in range(len(aa)):
        for j in range(i + 1, len(aa)):
            a, b = aa[i], aa[j]
            if a.sort() != b.sort() or a.eq(b):
                continue
            c = equal(E, a, b, depth, within)
            if c is not None:
                out.append(z3.Implies(z3.And(*within), c) if within else c)
    return out


def equal(E, a, b, depth=0, within=()):
    """an equation between two sums, that holds if the indices of the sums around them are in their ranges"""
    da, ia, na, ba = instance(E, a)
    db, ib, nb, bb = instance(E, b)
    if da.kind != db.kind or da.op != db.op or depth > 3:
        return None
    k = z3.Const(f"bound!{depth}", core.IntS)
    ta = z3.substitute(ba, (da.k, k))
    tb0 = z3.substitute(bb, (db.k, k))
    conds = []
    if da.kind in ("fold", "rfold"):
        rng = [k >= 0, k < na]
        conds = [na == nb, ia == ib]
        maps = [k]
        if da.kind == "rfold":
            maps.append(na - 1 - k)     # the addition of real numbers is commutative
    else:
        rng = []
        maps = bijections(ta, tb0, k)
        maps = maps + wrapped(E, maps, k)
    for mp in maps:
        tb = z3.substitute(bb, (db.k, mp))
        goal = z3.And(*(conds + [z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), ta == tb)]))
        s = z3.Solver()
        s.set("timeout", E.timeout_ms)
        s.add(*E.pc)
        s.add(*within)
        s.add(z3.Not(goal))
        s.add(*core.commutativity([goal]))
        if s.check() == z3.unsat:
            return a == b
        inner = lemmas(E, z3.simplify(goal), depth + 1, tuple(within) + tuple(rng))
        if inner:
            s.add(*inner)
            if s.check() == z3.unsat:
                return a == b
    return None


def bijections(ta, tb, k):
    """candidates k -> c + k and k -> c - k, taken from the index terms of the two bodies"""
    def index_args(t):
        seen, out = set(), {}
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.sort() == core.V:
                    for p, arg in enumerate(x.children()):
                        if arg.sort() == core.IntS:
                            out.setdefault((x.decl().name(), p), []).extend(leaves(arg))
                stack.extend(x.children())
        return out
    cands = [k]
    A, B = index_args(ta), index_args(tb)
    for key in A:
        for ea in A[key]:
            sa = coeff(ea, k)
            if sa is None or sa == 0:
                continue
            for eb in B.get(key, []):
                sb = coeff(eb, k)
                if sb is None or sb == 0:
                    continue
                # ea(k) = a0 + sa*k ; eb(k') = b0 + sb*k'  =>  k' = (a0 + sa*k - b0) / sb
                b0 = z3.substitute(eb, (k, z3.IntVal(0)))
                m = z3.simplify((ea - b0) * sb)
                if not any(m.eq(c) for c in cands):
                    cands.append(m)
    return cands[:24]


def leaves(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return leaves(t.arg(1)) + leaves(t.arg(2))
    return [t]


def wrapped(E, maps, k):
    """maps, that permute 0...N-1 cyclically (N is the length of a Fourier transform) and keep all other integers"""
    out = []
    for n in E.moduli:
        for m in maps:
            if m.eq(k):
                continue
            w = z3.If(m < 0, m + n, z3.If(m >= n, m - n, m))
            s = z3.Solver()
            s.set("timeout", E.timeout_ms)
            s.add(*E.pc)
            s.add(k >= 0, k < n, z3.Or(w < 0, w >= n))
            if s.check() == z3.unsat:
                out.append(z3.If(z3.And(k >= 0, k < n), w, k))
    return out


def coeff(e, k):
    d = z3.simplify(z3.substitute(e, (k, k + 1)) - e)
    if z3.is_int_value(d) and d.as_long() in (-1, 0, 1):
        return d.as_long()
    return None
