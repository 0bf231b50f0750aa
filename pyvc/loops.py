"""Loop rules: a loop over a symbolic range is verified for one arbitrary iteration and generalised.

For a ``for`` loop with a symbolic number of iterations, the body is executed for
an arbitrary iteration k (0 <= k < n) in a state, in which everything, that other
iterations may have changed, is havocked.  The state after the loop is derived by
one of the following rules, whose side conditions are checked:

* map:        every iteration writes only elements, which identify the iteration
              (e.g. row k), so that the iterations are disjoint;
* induction:  a variable grows by a loop-invariant increment;
* last value: a variable is overwritten without being read;
* fold:       a variable/array is accumulated, x = x op T(k).

``while`` loops, whose variables grow by a loop-invariant increment are accelerated.
Everything else is reported as unsupported (the obligation remains undecided)."""
import gc
import re
import types
import z3
from . import core, seqs, arrays
from .core import SInt, SReal, SVal, SLabel, SBool, SCplx, Unsupported, zint, mkint


class Ret:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class _Brk:
    pass


BRK = _Brk()


class Poison:
    """a value, which must not be read"""
    __hash__ = None

    def __init__(self, name):
        object.__setattr__(self, "_pname", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"loop carried variable {object.__getattribute__(self, '_pname')}")

    def __getattr__(self, n):
        self._bad()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __iadd__ = __getitem__ = __setitem__ = __call__ = __iter__ = __bool__ = __len__ = __eq__ = __ne__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __abs__ = __str__ = __format__ = _bad


def symbols(z, acc=None):
    """names of the uninterpreted symbols of a term"""
    acc = set() if acc is None else acc
    seen = set()
    stack = [z]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            stack.extend(t.children())
    return acc


def zterms(v):
    if isinstance(v, (SInt, SReal, SVal, SLabel, SBool)):
        return [v.z]
    if isinstance(v, SCplx):
        return [v.re, v.im]
    if isinstance(v, (tuple, list)):
        return [z for x in v for z in zterms(x)]
    if isinstance(v, dict):
        return [z for x in v.values() for z in zterms(x)]
    if isinstance(v, seqs.Seq):
        # (the terms of an arbitrary element)
        if isinstance(v.length, int):
            return [z for i in range(v.length) for z in zterms(v.get(i))]
        return zterms(v.length) + zterms(v.get(core.SInt(core.E.fresh("a", core.IntS))))
    return []


def subst(v, pairs):
    if isinstance(v, dict):
        return {k: subst(x, pairs) for k, x in v.items()}
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, seqs.Seq):
        n, get = subst(v.length, pairs), v.get
        return seqs.Seq(n, lambda i: subst(get(i), pairs), v.kind)
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.z, *pairs))
    if isinstance(v, SReal):
        return core.mkreal(z3.substitute(v.z, *pairs))
    if isinstance(v, SVal):
        return SVal(z3.substitute(v.z, *pairs))
    if isinstance(v, SLabel):
        return SLabel(z3.substitute(v.z, *pairs))
    if isinstance(v, SBool):
        return core.mkbool(z3.substitute(v.z, *pairs))
    if isinstance(v, SCplx):
        return core.mkcplx(z3.substitute(v.re, *pairs), z3.substitute(v.im, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, (int, float, complex, str, bool)) or v is None:
        return v
    raise Unsupported(f"substitution in {type(v).__name__}")


def scalar(v):
    return isinstance(v, (core.Sym, bool, int, float, complex, str)) or v is None


def same(a, b):
    if a is b:
        return True
    if scalar(a) and scalar(b) and type(a) is type(b):
        if isinstance(a, core.Sym):
            za, zb = zterms(a), zterms(b)
            return len(za) == len(zb) and all(x.eq(y) for x, y in zip(za, zb))
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


def born_after(names, counter):
    """symbols, that have been created inside of the loop body; counter is a number or a (half open) interval"""
    lo, hi = counter if isinstance(counter, tuple) else (counter, None)
    out = set()
    for n in names:
        m = re.search(r"!(\d+)$", n)
        if m and int(m.group(1)) > lo and (hi is None or int(m.group(1)) <= hi):
            out.add(n)
    return out


class Appender:
    """a list in an arbitrary iteration of a loop, that appends an element to it per iteration"""
    __hash__ = None

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def _bad(self, *a, **k):
        raise Unsupported("reading a list, to which a loop appends elements")

    def __getattr__(self, n):
        self._bad()

    __add__ = __radd__ = __iadd__ = __mul__ = __getitem__ = __setitem__ = __delitem__ = __iter__ = __bool__ = __len__ = __eq__ = __ne__ = __contains__ = _bad


def same_list(a, b):
    return type(b) is list and len(a) == len(b) and all(x is y for x, y in zip(a, b))


def shared(v, known):
    """whether a list is referenced by other objects than the variables of a function"""
    return any(not isinstance(r, (types.FrameType, types.CellType)) and not any(r is x for x in known) for r in gc.get_referrers(v))


def appendable(variables, names):
    return all(type(variables[a]) is list or isinstance(variables[a], (Appender, seqs.MList)) for a in names if a in variables)


def vc_for(it, body, get, set_, untracked=()):
    if hasattr(it, "vc_seq"):
        it = it.vc_seq()
    if isinstance(it, seqs.FilteredSeq):
        raise Unsupported("loop over a filtered sequence")
    if not seqs.is_symbolic(it):
        for x in it:
            r = body(x)
            if r is not None:
                return r
        return None
    E = core.E
    if it.parts:
        for p in it.parts:
            r = vc_for(p, body, get, set_, untracked)
            if r is not None:
                return r
        return None
    n = it.length
    if not E.decide(zint(n) > 0):
        return None
    # a single iteration, or a number of iterations, that is determined by the path condition
    if E.entails(zint(n) <= 3):
        for j in range(3):
            if j and not E.decide(zint(n) > j):
                return None
            r = body(it.get(j))
            if r is not None:
                return r
        return None
    if untracked is True:
        raise Unsupported("a loop, that modifies a list, which is not a local variable")
    if untracked:
        if not appendable(get(), untracked):
            raise Unsupported("a loop, that modifies a container")
    return generic(it, n, body, get, set_)


def generic(it, n, body, get, set_):
    E = core.E
    init = get()
    kz = E.fresh("k", core.IntS)
    k = SInt(kz)
    rng = [kz >= 0, kz < zint(n)]

    cols = list(getattr(E, "collectors", None) or [])
    appended = set()        # the names of the lists, to which the loop appends elements

    def iteration(state, contents):
        emitted = [list(c.items) for c in cols]

        def run():
            for c in cols:
                c.items = []
            for c in rng:
                E.assume(c)
            for b, elem in contents.items():
                b.elem = elem
                b.version += 1
            st = dict(state)
            for a, v in st.items():
                if a in appended:
                    st[a] = Appender()
                elif isinstance(v, Appender):
                    st[a] = Poison(a)
                elif type(v) is list:
                    st[a] = list(v)
            set_(st)
            r = body(it.get(k))
            return r, get(), [list(c.items) for c in cols]
        versions = {b: len(b.writes) for b in E.buffers}
        try:
            out = E.subexplore(run)
        finally:
            for c, items in zip(cols, emitted):
                c.items = items
        set_(dict(init))
        return out, versions

    # ---- pass 1: which variables and which buffers does the loop change?
    out, versions = iteration({a: v for a, v in init.items()}, {})
    changed, written = set(), {}
    for guards, qf, (kind, val), bufs in out:
        if kind == "ok":
            r, after = val[:2]
            for a, v in after.items():
                if a in init and type(init[a]) is list:
                    if same_list(init[a], v):
                        continue
                    if type(v) is list and same_list(init[a], v[0:len(init[a])]):
                        appended.add(a)
                        continue
                if a in init and isinstance(init[a], Appender) and isinstance(v, Poison):
                    continue
                if a not in init or not same(init[a], v):
                    changed.add(a)
        for b, (elem, ver, writes) in bufs.items():
            if b in versions and len(writes) > versions[b]:
                written.setdefault(b, [])
    appended -= changed
    for a in appended:
        if shared(init[a], [init]):
            raise Unsupported("appending elements to a list, that is referenced elsewhere, in a loop")
    # ---- pass 2: havoc, find closed forms
    counter0 = E.counter
    hav = {}
    state = dict(init)
    for a in changed:
        v = init.get(a)
        if a not in init:
            state.pop(a, None)
        elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
            hav[a] = SInt(E.fresh("hv_" + a, core.IntS))
            state[a] = hav[a]
        elif isinstance(v, (float, SReal)):
            hav[a] = SReal(E.fresh("hv_" + a, core.RealS))
            state[a] = hav[a]
        elif isinstance(v, SVal):
            hav[a] = SVal(E.fresh("hv_" + a, core.V))
            state[a] = hav[a]
        elif isinstance(v, (bool, SBool)):
            hav[a] = SBool(E.fresh("hv_" + a, core.BoolS))
            state[a] = hav[a]
        elif isinstance(v, arrays.SymArr):
            state[a] = Poison(a)
        else:
            state[a] = Poison(a)
    ind = {}
    if hav:
        contents = {b: havoc_content(b) for b in written}
        try:
            out, versions = iteration(state, contents)
        except Unsupported:
            out = []
        afters = [val[1] for _, _, (kind, val), _ in out if kind == "ok" and val[0] is None]
        for a in hav:
            ds = []
            for af in afters:
                v = af.get(a)
                if isinstance(v, (SInt, SReal, int, float)) and isinstance(hav[a], (SInt, SReal)):
                    d = core._arith("-", v, hav[a])
                    bad = {str(hav[q].z) for q in hav} | {str(kz)}
                    syms = set()
                    for z in zterms(d):
                        syms |= symbols(z)
                    if syms & bad or born_after(syms, counter0):
                        ds = None
                        break
                    ds.append(d)
                else:
                    ds = None
                    break
            if ds and all(same(d, ds[0]) for d in ds):
                ind[a] = ds[0]
    for a, d in ind.items():
        state[a] = init[a] + k * d
    closed = closed_forms(iteration, init, state, hav, ind, kz, k, n, written)
    for a, f in closed.items():
        state[a] = f(k)
    # ---- written buffers: determine, how an element identifies its iteration
    solve = {}
    if written:
        contents = {b: havoc_content(b) for b in written}
        out, versions = iteration(state, contents)
        for guards, qf, (kind, val), bufs in out:
            for b in written:
                if b in bufs:
                    written[b].extend(bufs[b][2][versions[b]:])
        for b, ws in written.items():
            solve[b] = solver_for(b, ws, kz, counter0, n)
    # ---- pass 3: the arbitrary iteration
    contents, unknown = {}, {}
    fold_h = {}
    for b in written:
        s = solve[b]
        if s is None:
            h = havoc_content(b, record=fold_h)
            contents[b] = h
        else:
            contents[b] = disjoint_content(b, s, k, n, unknown)
    counter1 = E.counter
    out, versions = iteration(state, contents)
    counter1 = (counter1, E.counter)
    yields = [(g, val[2]) for g, q, (kind, val), bufs in out if kind == "ok" and val[0] is None]
    normal = [(g, q, val[1], bufs) for g, q, (kind, val), bufs in out if kind == "ok" and val[0] is None]
    leaving = [(g, q, (kind, val), bufs) for g, q, (kind, val), bufs in out if kind == "raise" or val[0] is not None]
    # ---- leaving the loop early
    if leaving:
        c = E.choose(1 + len(leaving))
        if c > 0:
            g, q, (kind, val), bufs = leaving[c - 1]
            for x in rng:
                E.assume(x)
            for x in g:
                E.assume(x)
            for x in q:
                E.assume_q(x)
            j = E.fresh("j", core.IntS)
            for g2, q2, _, _ in leaving:
                if not born_after(set().union(*[symbols(x) for x in g2]) if g2 else set(), counter1) - {str(kz)} and not q2:
                    E.assume_q(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < kz), z3.Not(z3.substitute(z3.And(*g2) if g2 else z3.BoolVal(True), (kz, j))))))
            if kind == "raise":
                raise val
            if written or appended:
                raise Unsupported("leaving a loop, that writes to arrays or lists")
            if isinstance(val[0], Ret):
                return val[0]
            for a in changed:
                if a not in ind:
                    raise Unsupported("break in a loop with carried variables")
            set_(dict(val[1]))
            return val[0]
        for g2, q2, _, _ in leaving:
            if not q2:
                j = E.fresh("j", core.IntS)
                if not born_after(set().union(*[symbols(x) for x in g2]) if g2 else set(), counter1) - {str(kz)}:
                    E.assume_q(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n)), z3.Not(z3.substitute(z3.And(*g2) if g2 else z3.BoolVal(True), (kz, j))))))
    if not normal:
        raise core.Infeasible()
    # ---- the values, that have been yielded
    for j, c in enumerate(cols):
        items = [(g, y[j]) for g, y in yields]
        if all(not y for _, y in items):
            continue
        if any(len(y) != 1 or not isinstance(y[0], list) or len(y[0]) != 1 for _, y in items):
            raise Unsupported("a loop, that does not yield exactly one value per iteration")
        v = None
        for g, y in reversed(items):
            v = y[0][0] if v is None else core.merge(z3.And(*g) if g else z3.BoolVal(True), y[0][0], v)
        clean(v, {str(hav[q].z) for q in hav if q not in ind and q not in closed}, counter1, kz)
        c.items.append(seqs.Seq(n, lambda i, v=v: subst(v, [(kz, zint(i))])))
    lists = {}
    for a in appended:
        v = None
        for g, _, af, _ in reversed(normal):
            x = af.get(a)
            if not isinstance(x, Appender) or len(x.items) != 1:
                raise Unsupported("a loop, that does not append exactly one value to a list per iteration")
            v = x.items[0] if v is None else core.merge(z3.And(*g) if g else z3.BoolVal(True), x.items[0], v)
        forbidden = {str(hav[q].z) for q in hav if q not in ind and q not in closed}
        clean(v, forbidden, counter1, kz)
        lists[a] = seqs.Seq(n, lambda i, v=v: subst(v, [(kz, zint(i))]), "list")
        if init[a]:
            lists[a] = seqs.concat(seqs.Seq(len(init[a]), seqs.as_seq(list(init[a])).get, "list"), lists[a])
    # ---- the state after the loop
    final = dict(init)
    final.update(lists)
    nz = zint(n)
    last = [(kz, nz - 1)]
    hnames = {str(hav[q].z) for q in hav if q not in ind and q not in closed}
    for a in changed:
        if a in ind:
            final[a] = init[a] + n * ind[a]
            continue
        if a in closed:
            final[a] = closed[a](n)
            continue
        vals = [af.get(a, Poison(a)) for _, _, af, _ in normal]
        final[a] = final_value(a, vals, normal, hav, hnames, kz, last, n, init, counter1)
    for b in written:
        afters = [(g, bufs[b][0]) for g, q, _, bufs in normal if b in bufs]
        if solve[b] is not None:
            b.elem = mapped(b, b.elem, afters, solve[b], kz, n, unknown, counter1)
        else:
            b.elem = folded(b, b.elem, afters, fold_h, kz, n, counter1)
        b.version += 1
        b.writes.append(None)
    set_(final)
    return None


def closed_forms(iteration, init, state, hav, ind, kz, k, n, written):
    """loop invariants x == f(k), which are suggested by the contract and proved here (initially and inductive)"""
    E = core.E
    out = {}
    for a in hav:
        if a in ind or not isinstance(hav[a], SInt):
            continue
        for f in E.candidates:
            if not E.entails(zint(init[a]) == zint(f(0))):
                continue
            st = dict(state)
            st[a] = f(k)
            try:
                res, _ = iteration(st, {b: havoc_content(b) for b in written})
            except Unsupported:
                continue
            good = True
            for g, q, (kind, val), bufs in res:
                if kind != "ok" or val[0] is not None:
                    continue
                v = val[1].get(a)
                if not isinstance(v, (int, SInt)) or not E.entails(z3.Implies(z3.And(*g), zint(v) == zint(f(k + 1)))):
                    good = False
                    break
            if good:
                out[a] = f
                break
    return out


def havoc_content(b, record=None):
    E = core.E
    E.counter += 1
    name = f"havoc!{E.counter}"
    f = unknown_function(b, name)
    if record is not None:
        record[b] = (name, f)
    return f


def unknown_function(b, name):
    if getattr(b, "sort", None) == "label":
        f = z3.Function(name, *([core.IntS] * len(b.shape)), core.L)
        return lambda idx: SLabel(f(*(zint(i) for i in idx)))
    return arrays.unknown_elements(name, len(b.shape), b.dtype)


def disjoint_content(b, s, k, n, unknown):
    E = core.E
    E.counter += 1
    name = f"processed!{E.counter}"
    f = unknown_function(b, name)
    unknown[b] = name
    pre = b.elem

    def elem(idx):
        kb, ok = s(idx)
        c = core.band(ok, kb >= 0, kb < k)
        return core.ite(c, lambda: f(idx), lambda: pre(idx))
    return elem


def solver_for(b, ws, kz, counter, n):
    """a function from buffer indices to the iteration, that writes the element (and a side condition)"""
    if not ws or any(w is None for w in ws):
        return None
    for p in range(len(b.shape)):
        e0 = None
        for dims, shape in ws:
            d = dims[p]
            if not isinstance(d, arrays.Fixed) or isinstance(d.e, int):
                e0 = None
                break
            if e0 is None:
                e0 = d.e
            elif not z3.simplify(e0.z - d.e.z).eq(z3.IntVal(0)):
                e0 = None
                break
        if e0 is None:
            continue
        if born_after(symbols(e0.z), counter) - {str(kz)}:
            continue
        step = z3.simplify(z3.substitute(e0.z, (kz, kz + 1)) - e0.z)
        if z3.is_int_value(step) and step.as_long() != 0:
            c = step.as_long()
            start = mkint(z3.substitute(e0.z, (kz, z3.IntVal(0))))

            def s(idx, p=p, c=c, start=start):
                q = idx[p] - start
                if c == 1:
                    return q, True
                if c == -1:
                    return 0 - q, True
                return core.floordiv(q, c), core.pymod(q, c) == 0
            return s
        s = monotone_solver(e0, p, kz, n)
        if s is not None:
            return s
    return None


def monotone_solver(e0, p, kz, n):
    """the iteration, that writes to an index, for a strictly increasing index e0(k): the number of iterations with smaller indices"""
    E = core.E
    step = z3.substitute(e0.z, (kz, kz + 1)) - e0.z
    if not E.entails(z3.Implies(z3.And(kz >= 0, kz < zint(n)), step >= 1)):
        return None
    E.counter += 1
    rank = z3.Function(f"rank!{E.counter}", core.IntS, core.IntS)

    def at(j):
        return z3.substitute(e0.z, (kz, j))

    def s(idx):
        x = zint(idx[p])
        j = rank(x)
        E.assume(z3.And(j >= 0, j <= zint(n), z3.Or(j == 0, at(j - 1) < x), z3.Or(j == zint(n), x <= at(j))))
        return SInt(j), core.mkbool(z3.And(j < zint(n), at(j) == x))
    return s


def clean(v, forbidden, counter, kz):
    syms = set()
    for z in zterms(v):
        syms |= symbols(z)
    bad = (born_after(syms, counter) - {str(kz)}) | (syms & forbidden)
    if bad:
        raise Unsupported(f"the result of a loop iteration depends on {sorted(bad)[:3]}")
    return v


def mapped(b, pre, afters, s, kz, n, unknown, counter):
    forbidden = {unknown[x] + q for x in unknown for q in ("", ".re", ".im")}

    def elem(idx):
        kb, ok = s(idx)
        inside = core.band(ok, kb >= 0, kb < n)

        def value():
            r = None
            for g, after in reversed(afters):
                v = after(idx)
                r = v if r is None else core.merge(z3.And(*g) if len(g) > 1 else (g[0] if g else z3.BoolVal(True)), v, r)
            if isinstance(kb, int):
                r2 = subst(r, [(kz, z3.IntVal(kb))])
            else:
                r2 = subst(r, [(kz, kb.z)])
            # resolve "already processed" guards, that are trivially false for the own iteration
            r2 = simp(r2)
            return clean(r2, forbidden, counter, kz)
        return core.ite(inside, value, lambda: pre(idx))
    return cached(elem)


def cached(elem):
    cache = {}

    def f(b):
        k = tuple(x if isinstance(x, int) else x.z.get_id() for x in b)
        if k not in cache:
            cache[k] = (b, elem(b))
        return cache[k][1]
    return f


def simp(v):
    if isinstance(v, SVal):
        return SVal(z3.simplify(v.z))
    if isinstance(v, SReal):
        return SReal(z3.simplify(v.z))
    if isinstance(v, SLabel):
        return SLabel(z3.simplify(v.z))
    return v


def folded(b, pre, afters, fold_h, kz, n, counter):
    """accumulation: after the generic iteration, the element is op(havoc(b), T)"""
    name, h = fold_h[b]

    def elem(idx):
        if len(afters) != 1:
            raise Unsupported("accumulation with branches")
        g, after = afters[0]
        own = h(idx)
        if isinstance(own, SReal):
            return folded_real(pre(idx), after(idx), own, name, kz, n, counter)
        if not isinstance(own, SVal):
            raise Unsupported("accumulation of complex numbers")
        own = own.z
        v = core.toval(after(idx)).z
        v = z3.simplify(v)
        ops = decompose(v, own, name)
        r = core.toval(pre(idx)).z
        if ops is None:
            # unchanged?
            if v.eq(own):
                return pre(idx)
            raise Unsupported("accumulation pattern not recognised")
        from . import sums
        op, cond, t = ops
        if cond is not None:
            t = z3.If(cond, t, sums.NEUTRAL[op])
        clean(SVal(t), {name}, counter, kz)
        return SVal(sums.fold(op, r, n, kz, t))
    return cached(elem)


def folded_real(pre, v, own, name, kz, n, counter):
    """a sum of real numbers: the difference of one iteration does not depend on the sum"""
    from . import sums
    d = core._arith("-", v, own)
    if isinstance(d, (SReal, SInt)):
        z = z3.simplify(core.zreal(d), som=True)
    else:
        z = core.zreal(d)
    if name in symbols(z):
        raise Unsupported("accumulation pattern not recognised")
    if z3.is_rational_value(z) and z.as_fraction() == 0:
        return pre
    clean(SReal(z), {name}, counter, kz)
    return SReal(sums.rfold(core.zreal(pre), n, kz, z))


def decompose(v, own, name):
    """v = op(own, T) or If(c, op(own, T), own)"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, e = v.children()
        if name in symbols(c):
            return None
        if e.eq(own):
            r = decompose(a, own, name)
            return None if r is None or r[1] is not None else (r[0], c, r[2])
        if a.eq(own):
            r = decompose(e, own, name)
            return None if r is None or r[1] is not None else (r[0], z3.Not(c), r[2])
        return None
    if z3.is_app(v) and v.decl().name() in ("add", "multiply", "subtract"):
        x, y = v.children()
        op = v.decl().name()
        if x.eq(own) and name not in symbols(y):
            return op, None, y
        if y.eq(own) and name not in symbols(x) and op != "subtract":
            return op, None, x
    return None


def final_value(a, vals, normal, hav, hnames, kz, last, n, init, counter):
    if all(scalar(v) or isinstance(v, tuple) for v in vals):
        try:
            r = None
            for v, (g, q, _, _) in zip(reversed(vals), reversed(normal)):
                r = v if r is None else core.merge(z3.And(*g) if g else z3.BoolVal(True), v, r)
        except Unsupported:
            return Poison(a)
        syms = set()
        for z in zterms(r):
            syms |= symbols(z)
        if not (syms & hnames) and not (born_after(syms, counter) - {str(kz)}):
            return subst(r, last)
        if a in hav and isinstance(hav[a], SVal) and isinstance(r, SVal):
            own = hav[a].z
            d = decompose(z3.simplify(r.z), own, str(own))
            if d is not None and d[1] is None and not (symbols(d[2]) & hnames):
                from . import sums
                try:
                    clean(SVal(d[2]), set(), counter, kz)
                except Unsupported:
                    return Poison(a)
                return SVal(sums.fold(d[0], core.toval(init[a]).z, n, kz, d[2]))
        if a in hav and isinstance(hav[a], (SInt, SReal)) and isinstance(r, (SInt, SReal)):
            d = z3.simplify(core.zreal(r) - core.zreal(hav[a]))
            if not (symbols(d) & hnames):
                from . import sums
                return SReal(sums.rfold(core.zreal(init[a]), n, kz, d))
    return Poison(a)


def copied(state):
    """the variables at the start of an iteration (lists are not shared between the explored paths)"""
    return {a: list(v) if type(v) is list else v for a, v in state.items()}


def unchanged(a, b):
    return same_list(a, b) if type(a) is list else same(a, b)


def vc_while(test, body, get, set_):
    E = core.E
    count = 0
    while True:
        c = test()
        if isinstance(c, core.Sym):
            if E is None:
                raise Unsupported("while outside of a proof")
            if not E.decide(core.zbool(c)):
                return None
            if count >= 1 and E.contents:
                r = inductive(test, body, get, set_, count)
                if r is not NotImplemented:
                    return r
            if count >= 1:
                r = accelerate(test, body, get, set_)
                if r is not NotImplemented:
                    return r
                if count > 6:
                    raise Unsupported("while loop")
        elif not c:
            return None
        r = body(None)
        if r is not None:
            return r
        count += 1
        if count > 10000:
            raise Unsupported("while loop does not terminate")


def inductive(test, body, get, set_, k0):
    """a loop with an invariant, that is suggested by the contract: after k iterations, every variable, that the loop changes,
    is f(k) and every element of the arrays, that the loop changes, is g(k, index, element before the loop).
    The invariant is proved to hold for the current state (after k0 iterations) and to be preserved by an iteration."""
    E = core.E
    init = get()
    k = SInt(E.fresh("k", core.IntS))

    def run_from(state, contents):
        def run():
            E.assume(k.z >= k0)
            for b, elem in contents.items():
                b.elem = elem
                b.version += 1
            set_(copied(state))
            if not E.decide(core.zbool(test())):
                raise core.Infeasible()
            r = body(None)
            return r, get(), list(E.axioms)
        try:
            return E.subexplore(run)
        finally:
            set_(dict(init))
    vers = {b: len(b.writes) for b in E.buffers}
    before = {b: b.elem for b in E.buffers}
    out = run_from(init, {})
    changed, written = set(), set()
    for g, q, (kind, val), bufs in out:
        if kind != "ok" or val[0] is not None:
            return NotImplemented
        changed |= {a for a, v in val[1].items() if a not in init or not unchanged(init[a], v)}
        written |= {b for b, (_, _, w) in bufs.items() if b in vers and len(w) > vers[b]}
    if not written:
        return NotImplemented

    def matches(fs, gs, kk, values, elems, guards):
        """whether the variables and elements follow the invariant"""
        for a, f in fs.items():
            v = values.get(a)
            if not isinstance(v, (int, SInt)) or isinstance(v, bool) or not E.entails(z3.Implies(z3.And(*guards), zint(v) == zint(f(kk)))):
                return False
        for b, g in gs.items():
            idx = tuple(SInt(E.fresh("x", core.IntS)) for _ in b.shape)
            inside = [z3.And(i.z >= 0, i.z < zint(n)) for i, n in zip(idx, b.shape)]
            goal = core.veq(elems[b](idx), g(kk, idx, before[b]))
            if not E.entails(z3.Implies(z3.And(*guards, *inside), goal)):
                return False
        return True
    fs = {}
    for a in changed:
        f = next((f for f in E.candidates if matches({a: f}, {}, k0, init, {}, [])), None)
        if f is not None:
            fs[a] = f
    gs = {}
    for b in written:
        g = next((g for g in E.contents if matches({}, {b: g}, k0, {}, before, [])), None)
        if g is None:
            return NotImplemented
        gs[b] = g
    state = {**init, **{a: f(k) if (f := fs.get(a)) else Poison(a) for a in changed}}
    contents = {b: (lambda idx, b=b, g=g: g(k, idx, before[b])) for b, g in gs.items()}
    for g, q, (kind, val), bufs in run_from(state, contents):
        if kind != "ok" or val[0] is not None:
            return NotImplemented
        if any(a not in changed and not same(init.get(a), v) for a, v in val[1].items()):
            return NotImplemented
        if any(b in vers and len(w) > vers[b] and b not in gs for b, (_, _, w) in bufs.items()):
            return NotImplemented
        if not matches(fs, gs, k + 1, val[1], {b: bufs[b][0] for b in gs}, list(g) + [k.z >= k0]):
            return NotImplemented
    E.assume(k.z >= k0)
    set_(copied(state))
    for b, elem in contents.items():
        b.elem = cached(elem)
        b.version += 1
        b.writes.append(None)
    E.assume(z3.Not(core.zbool(test())))
    return None


def accelerate(test, body, get, set_):
    """the test is known to be true in the current state: v' = v + d"""
    E = core.E
    init = get()
    counter0 = E.counter

    def run_from(state):
        def run():
            set_(copied(state))
            t = test()
            if not E.decide(core.zbool(t)):
                raise core.Infeasible()
            r = body(None)
            return r, get()
        vers = {b: len(b.writes) for b in E.buffers}
        out = E.subexplore(run)
        set_(dict(init))
        for o in out:
            for b, (_, _, w) in o[3].items():
                if b in vers and len(w) > vers[b]:
                    raise Unsupported("while loop, that writes to arrays")
        return out
    out = run_from(init)
    changed = set()
    for g, q, (kind, val), bufs in out:
        if kind != "ok" or val[0] is not None:
            return NotImplemented
        for a, v in val[1].items():
            if a not in init or not unchanged(init[a], v):
                changed.add(a)
    hav, state = {}, dict(init)
    for a in changed:
        v = init.get(a)
        if isinstance(v, (int, SInt)):
            hav[a] = SInt(E.fresh("hw_" + a, core.IntS))
        elif isinstance(v, (float, SReal)):
            hav[a] = SReal(E.fresh("hw_" + a, core.RealS))
        else:
            return NotImplemented
        state[a] = hav[a]
    out = run_from(state)
    bad = {str(h.z) for h in hav.values()}
    inc = {}
    for g, q, (kind, val), bufs in out:
        if kind != "ok" or val[0] is not None:
            return NotImplemented
        for a in changed:
            d = core._arith("-", val[1][a], hav[a])
            syms = set()
            for z in zterms(d):
                syms |= symbols(z)
            if syms & bad or born_after(syms, counter0):
                return NotImplemented
            if a in inc and not same(inc[a], d):
                return NotImplemented
            inc[a] = d
    m = SInt(E.fresh("iterations", core.IntS))
    E.assume(m.z >= 1)

    def at(j):
        set_({**init, **{a: init[a] + j * inc[a] for a in changed}})
        return core.zbool(test())
    E.assume(z3.Or(m.z == 1, at(1)))
    E.assume(at(m - 1))
    E.assume(z3.Not(at(m)))
    return None
