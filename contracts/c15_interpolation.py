"""C15: interpolation between supporting points and filters, that are defined by bands"""
from pyvc.api import contract

FUNCTIONS = ["interpolation.get", "interpolation.interpolation", "interpolation.zero", "interpolation.one", "interpolation._linear", "interpolation.linear",
             "interpolation.logarithmic", "interpolation.log_x", "interpolation.log_y", "interpolation._stairs_lin", "interpolation.stairs_lin", "interpolation.stairs_log"]
FLAGS = ["ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG"]
LOGX = ("LOGARITHMIC", "LOG_X", "STAIRS_LOG")
LOGY = ("LOGARITHMIC", "LOG_Y")


def line(x, x0, x1, y0, y1):
    return y0 + (x - x0) / (x1 - x0) * (y1 - y0)


def formula(K, flag, x, x0, x1, y0, y1):
    """the function between (or beyond) two neighbouring supporting points; None, if it is not a straight line on any scale"""
    if flag == "ZERO":
        return 0.0
    if flag == "ONE":
        return 1.0
    log = lambda v: K.fn("log2", v)     # noqa: E731
    if flag in LOGX:
        x, x0, x1 = log(x), log(x0), log(x1)
    if flag in LOGY:
        return K.fn("exp2", line(x, x0, x1, log(y0), log(y1)))
    return line(x, x0, x1, y0, y1)


def nearest(K, flag, x, x0, x1, y0, y1, got):
    """the value of the nearest supporting point, if x is not in the middle"""
    if flag == "STAIRS_LOG":
        x, x0, x1 = (K.fn("log2", v) for v in (x, x0, x1))
    left, right = x - x0, x1 - x
    return K.and_(K.implies(left < right, K.same(got, y0)), K.implies(right < left, K.same(got, y1)),
                  K.or_(K.same(got, y0), K.same(got, y1)))


def at_point(K, name, xs, ys, n, m, x, got):
    K.forall(name + ".at the supporting points", [m, n], lambda t, j: K.implies(x(t) == xs(j), K.same(got(t), ys(j))))


def inside(K, flag, name, xs, ys, n, m, x, got):
    def check(t, j):
        v = x(t)
        here = K.and_(xs(j) < v, v < xs(j + 1))
        if not K.symbolic and not here:
            return True
        if flag.startswith("STAIRS"):
            return K.implies(here, nearest(K, flag, v, xs(j), xs(j + 1), ys(j), ys(j + 1), got(t)))
        return K.implies(here, K.same(got(t), formula(K, flag, v, xs(j), xs(j + 1), ys(j), ys(j + 1))))
    K.forall(name + ".between the supporting points", [m, n - 1], check)


def outside(K, flag, name, xs, ys, n, m, x, got, one):
    def below(t):
        v = x(t)
        if not K.symbolic and not v < xs(0):
            return True
        return K.implies(v < xs(0), K.same(got(t), ys(0) if flag.startswith("STAIRS") or one and flag not in ("ZERO", "ONE") else
                                           formula(K, flag, v, xs(0), xs(1) if not one else 0, ys(0), ys(1) if not one else 0)))

    def above(t):
        v = x(t)
        if not K.symbolic and not v > xs(n - 1):
            return True
        return K.implies(v > xs(n - 1), K.same(got(t), ys(n - 1) if flag.startswith("STAIRS") or one and flag not in ("ZERO", "ONE") else
                                               formula(K, flag, v, xs(n - 2) if not one else 0, xs(n - 1), ys(n - 2) if not one else 0, ys(n - 1))))
    K.forall(name + ".below the supporting points", [m], below)
    K.forall(name + ".above the supporting points", [m], above)


def points(I, flags, complex_values=False):
    many = I["points"] == "many"
    n = I.int("n", 2) if many else 1
    xs = I.points("xs", n, positive=any(f in LOGX for f in flags))
    ys = I.array("ys", (n,), dtype="complex128" if complex_values else "float64", positive=any(f in LOGY for f in flags))
    return n, xs, ys


@contract("C15", functions=FUNCTIONS, choices={"flag": FLAGS, "points": ["one", "many"], "values": ["real", "complex"]}, mode="R",
          where=lambda c: c["values"] == "real" or c["flag"] not in LOGY, weight=9)
def arrays(I, K, S):
    """interpolation and extrapolation of an array of points, in any order"""
    flag = I["flag"]
    n, xs, ys = points(I, [flag], I["values"] == "complex")
    m = I.int("m", 0)
    x = I.around("x", m, xs, positive=flag in LOGX)
    got = S._internal.interpolation.get(S.Bands.interpolations[flag])(x, xs, ys)
    K.check("shape", K.len(got) == m)
    g, v, a, b = K.elem(got), K.elem(x), K.elem(xs), K.elem(ys)
    at_point(K, "values", a, b, n, m, v, g)
    inside(K, flag, "values", a, b, n, m, v, g)
    outside(K, flag, "values", a, b, n, m, v, g, I["points"] == "one")


@contract("C15", functions=FUNCTIONS, choices={"flag": FLAGS, "points": ["one", "many"], "position": ["at", "between", "below", "above"], "values": ["real", "complex"]}, mode="R",
          where=lambda c: (c["values"] == "real" or c["flag"] not in LOGY) and not (c["position"] == "between" and c["points"] == "one"))
def numbers(I, K, S):
    """interpolation and extrapolation at a single point"""
    flag = I["flag"]
    n, xs, ys = points(I, [flag], I["values"] == "complex")
    a, b = K.elem(xs), K.elem(ys)
    p = I["position"]
    if p == "at":
        j = I.int("j", 0, n - 1)
        x = a(j)
    elif p == "between":
        j = I.int("j", 0, n - 2)
        x = I.between("x", a(j), a(j + 1))
    else:
        x = I.between("x", None, a(0)) if p == "below" else I.between("x", a(n - 1))
        if flag in LOGX:
            I.assume(x > 0)
    got = S._internal.interpolation.get(S.Bands.interpolations[flag])(x, xs, ys)
    one = I["points"] == "one"
    if p == "at":
        K.eq("value at a supporting point", got, b(j))
    elif p == "between" and flag.startswith("STAIRS"):
        K.check("value of the nearest supporting point", nearest(K, flag, x, a(j), a(j + 1), b(j), b(j + 1), got))
    elif p == "between":
        K.eq("value between the supporting points", got, formula(K, flag, x, a(j), a(j + 1), b(j), b(j + 1)))
    elif flag.startswith("STAIRS") or one and flag not in ("ZERO", "ONE"):
        K.eq("value outside of the supporting points", got, b(0) if p == "below" else b(n - 1))
    elif flag in ("ZERO", "ONE"):
        K.eq("value outside of the supporting points", got, 0.0 if flag == "ZERO" else 1.0)
    else:
        i = 0 if p == "below" else n - 2
        K.eq("value outside of the supporting points", got, formula(K, flag, x, a(i), a(i + 1), b(i), b(i + 1)))


BANDS = ["sumpf.Filter.Bands.__init__", "sumpf.Filter.Bands._compute", "sumpf.Filter.__call__", "Term.__call__", "S.frequencies", "S.fix"] + FUNCTIONS


def bands_filter(I, K, S, inner, outer, xs, ys):
    i = S.Bands.interpolations
    return S.Filter(transfer_functions=(S.Filter.Bands(xs=xs, ys=ys, interpolation=i[inner], extrapolation=i[outer]),))


@contract("C15", functions=BANDS, choices={"interpolation": FLAGS, "extrapolation": FLAGS, "points": ["none", "one", "many"], "values": ["real", "complex"]}, mode="R",
          where=lambda c: (c["points"] != "none" or c["values"] == "real") and (c["values"] == "real" or c["interpolation"] not in LOGY and c["extrapolation"] not in LOGY))
def filters(I, K, S):
    """a filter with supporting points is interpolated between them and extrapolated outside of them by the functions for the flags (whose contracts are used here)"""
    inner, outer = I["interpolation"], I["extrapolation"]
    if I["points"] == "none":
        n, xs, ys = 0, I.array("xs", (0,)), I.array("ys", (0,))
    else:
        n, xs, ys = points(I, [inner, outer], I["values"] == "complex")
    m = I.int("m", 0)
    x = I.around("x", m, xs, positive=inner in LOGX or outer in LOGX)
    f = I.interpolated(xs, ys) if I["points"] != "none" else None
    got, = bands_filter(I, K, S, inner, outer, xs, ys)(x)
    K.eq("shape", K.shape(got), (m,))
    g, v = K.elem(got), K.elem(x)
    if I["points"] == "none":
        K.forall("no supporting points", [m], lambda t: K.same(g(t), 0.0))
        return
    a = K.elem(xs)

    def check(t):
        z = v(t)
        outside_ = K.or_(z < a(0), z > a(n - 1))
        return K.same(g(t), K.ite(outside_, lambda: f("STAIRS_LIN" if outer == "STAIRS_LOG" else outer, z), lambda: f(inner, z)))
    K.forall("values", [m], check)


@contract("C15", functions=BANDS, choices={"interpolation": FLAGS, "extrapolation": FLAGS, "points": ["one", "many"]}, mode="R",
          where=lambda c: c["interpolation"] == "ZERO" or c["extrapolation"] in ("ZERO", "ONE") and (c["extrapolation"] == "ONE") != (c["interpolation"] == "ONE"))
def filters_at_a_frequency(I, K, S):
    """a filter with supporting points, that is evaluated at a single frequency"""
    inner, outer = I["interpolation"], I["extrapolation"]
    n, xs, ys = points(I, [inner, outer])
    x = I.real("x")
    if inner in LOGX or outer in LOGX:
        I.assume(x > 0)
    got, = bands_filter(I, K, S, inner, outer, xs, ys)(x)
    a, b, v, g = K.elem(xs), K.elem(ys), lambda t: x, lambda t: got
    at_point(K, "values", a, b, n, 1, v, g)
    inside(K, inner, "interpolation", a, b, n, 1, v, g)
    outside(K, outer, "extrapolation", a, b, n, 1, v, g, I["points"] == "one")


def dictionaries(I, channels):
    """random bands (in any order) as dictionaries"""
    import random
    result = []
    for c in range(channels):
        n = I.int(f"n{c}", 0, 8)
        xs, ys = I.points(f"xs{c}", n, positive=True), I.array(f"ys{c}", (n,), positive=True)
        order = list(range(n))
        random.Random(I.int(f"order{c}", 0, 1000)).shuffle(order)
        result.append((xs, ys, {float(xs[i]): float(ys[i]) for i in order}))
    return result


@contract("C15", functions=["sumpf.Bands.__init__", "sumpf.Bands.to_db", "sumpf.Bands.from_db"], random_only=True, mode="R",
          choices={"channels": [1, 2, 3], "flags": ["one", "short", "all"], "method": ["none", "to_db", "from_db"]})
def bands(I, K, S):
    """bands filters, that are created from dictionaries with supporting points in any order, evaluate like filters, whose supporting points are sorted"""
    channels = I["channels"]
    d = dictionaries(I, channels)
    flags = list(S.Bands.interpolations)
    inner = [flags[I.int(f"inner{i}", 0, len(flags) - 1)] for i in range(channels)]
    outer = [flags[I.int(f"outer{i}", 0, len(flags) - 1)] for i in range(channels)]
    if I["flags"] == "one":
        inner, outer, given = inner[:1] * channels, outer[:1] * channels, (inner[0], outer[0])
    elif I["flags"] == "short":
        k, o = I.int("k", 1, channels), I.int("o", 1, channels)
        given = inner[:k], tuple(outer[:o])
        inner, outer = inner[:k] + [inner[k - 1]] * (channels - k), outer[:o] + [outer[o - 1]] * (channels - o)
    else:
        given = tuple(inner), outer
    filter_ = S.Bands(bands=d[0][2] if channels == 1 else tuple(x[2] for x in d), interpolations=given[0], extrapolations=given[1])
    x = I.around("x", I.int("m", 1, 6), d[0][0], positive=True)
    reference, factor = I.real("reference", 0.5, 2.0), I.real("factor", 10.0, 20.0)
    if I["method"] == "to_db":
        filter_ = filter_.to_db(reference, factor)
    elif I["method"] == "from_db":
        filter_ = filter_.from_db(reference, factor)
    K.eq("channels", len(filter_), channels)
    K.eq("labels", filter_.labels(), ("Bands",) * channels)
    got = filter_(x)
    for c in range(channels):
        xs, ys, _ = d[c]
        b = K.elem(ys)
        if I["method"] == "to_db":
            values = [factor * K.fn("log10", b(i) / reference) for i in range(len(xs))]
        elif I["method"] == "from_db":
            values = [reference * 10.0 ** (b(i) / factor) for i in range(len(xs))]
        else:
            values = [b(i) for i in range(len(xs))]
        expected, = bands_filter(I, K, S, inner[c].name, outer[c].name, list(map(float, xs)), values)(x)
        e, g = K.elem(expected), K.elem(got[c])
        K.forall(f"channel {c}", [len(x)], lambda t: K.same(g(t), e(t)))        # pylint: disable=cell-var-from-loop
