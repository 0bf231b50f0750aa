"""Inequalities between rational functions, that depend on a single positive variable, after common powers of
other positive variables have been cancelled: decided with the number of the real roots of a polynomial
with rational coefficients (Descartes' rule of signs with bisection, in exact arithmetic)."""
import fractions
import math
import z3
from . import core


class Undecided(Exception):
    pass


def counted(p):
    """a polynomial with monomials as tuples of atoms -> monomials as {atom: exponent}"""
    out = []
    for m, c in p.items():
        e = {}
        for a in m:
            e[a] = e.get(a, 0) + 1
        out.append((e, c))
    return out


def univariate(p, positive):
    """the coefficients (highest order first) of a polynomial, whose common powers of positive atoms have been cancelled"""
    ms = counted(p)
    if not ms:
        return [fractions.Fraction(0)]
    atoms = sorted({a for e, _ in ms for a in e})
    varying = [a for a in atoms if len({e.get(a, 0) for e, _ in ms}) > 1]
    if len(varying) > 1 or not all(positive(a) for a in atoms):
        raise Undecided()
    if not varying:
        return [sum(c for _, c in ms)]
    x = varying[0]
    low, high = (f(e.get(x, 0) for e, _ in ms) for f in (min, max))
    cs = [fractions.Fraction(0)] * (high - low + 1)
    for e, c in ms:
        cs[high - e.get(x, 0)] += c
    return cs


def variations(c):
    """the number of sign changes in a sequence of coefficients"""
    signs = [q > 0 for q in c if q]
    return sum(1 for a, b in zip(signs, signs[1:]) if a != b)


def shifted(c):
    """the coefficients (lowest order first) of p(x + 1)"""
    c = list(c)
    n = len(c)
    for i in range(n - 1):
        for j in range(n - 2, i - 1, -1):
            c[j] += c[j + 1]
    return c


def rootless(c, limit=4000):
    """whether a polynomial with integer coefficients (lowest order first) has got no root in the interval (0, 1)
    (Descartes' rule of signs after a Moebius transform, with bisection)"""
    stack = [list(c)]
    while stack:
        limit -= 1
        if limit < 0:
            return False
        c = stack.pop()
        if variations(shifted(c[::-1])) == 0:
            continue
        n = len(c) - 1
        left = [q << (n - i) for i, q in enumerate(c)]      # 2**n * p(x / 2)
        right = shifted(left)
        if right[0] == 0:                                   # a root at one half
            return False
        stack += [left, right]
    return True


def sign(cs):
    """1, if a polynomial is positive for every positive argument, -1, if it is negative for all of them, 0 otherwise"""
    cs = list(cs)
    while cs and not cs[0]:
        cs = cs[1:]
    if not cs:
        return 0
    s = 1 if sum(cs) > 0 else -1
    if all(c * s >= 0 for c in cs):
        return s
    while not cs[-1]:
        cs = cs[:-1]
    d = math.lcm(*[c.denominator for c in cs])
    c = [int(q * d) for q in cs]
    # the intervals (0, 1), [1, 1] and (1, infinity)
    return s if sum(c) and rootless(c[::-1]) and rootless(c) else 0


def atoms_of(terms):
    table, stack = {}, list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() not in table:
            table[t.get_id()] = t
            stack.extend(t.children())
    return table


def positivity(E, terms):
    table, known = atoms_of(terms), {}

    def positive(a):
        if a not in known:
            known[a] = a in table and table[a].sort() == core.RealS and E.entails(table[a] > 0)
        return known[a]
    return positive


def never_zero(E, parts):
    """whether the sum of the squares of some real terms is positive on the current path"""
    try:
        memo = {}
        positive = positivity(E, parts)
        total = {}
        fs = [core._fraction(z3.simplify(p), memo) for p in parts]      # pylint: disable=protected-access
        for i, (n, _) in enumerate(fs):
            q = core._pmul(n, n)                                        # pylint: disable=protected-access
            for j, (_, d) in enumerate(fs):
                if j != i:
                    q = core._pmul(q, core._pmul(d, d))                 # pylint: disable=protected-access
            total = core._padd(total, q)                                # pylint: disable=protected-access
        return sign(univariate(total, positive)) == 1
    except (Undecided, core.TooLarge, RecursionError):
        return False


def near(E, a, b, scale, tolerance):
    """whether |a - b| <= tolerance * scale for every value of the positive variable"""
    try:
        memo = {}
        a, b, scale = (z3.simplify(q) for q in (a, b, scale))
        positive = positivity(E, [a, b, scale])
        (na, da), (nb, db), (ns, ds) = (core._fraction(q, memo) for q in (a, b, scale))     # pylint: disable=protected-access
        pm, pa = core._pmul, core._padd                                 # pylint: disable=protected-access
        left = pm(pa(pm(na, db), pm(nb, da), -1), ds)
        t = {(): fractions.Fraction(tolerance)}
        right = pm(pm(t, ns), pm(da, db))
        den = [sign(univariate(d, positive)) for d in (da, db, ds)]
        s = den[0] * den[1] * den[2]
        if not s:
            return False
        # (na/da - nb/db) <= t * ns/ds, multiplied by da * db * ds, whose sign is s
        # cancelling common powers does not affect the sign
        return all(sign(univariate(pa(right, left, e), positive)) == s for e in (1, -1))
    except (Undecided, core.TooLarge, RecursionError):
        return False
