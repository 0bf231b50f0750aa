"""C07: slicing"""
from pyvc.api import contract
from .c06_pad_shift_reverse import container


def axis_key(I, K, kind, name, n, back=True):
    """a key for an axis with n elements, and the selected indices as (count, index function, first index)"""
    if kind == "int":
        k = I.int(name + ".index")
        I.assume(K.and_(-n <= k, k < n))
        first = K.ite(k < 0, n + k, k)
        return k, 1, lambda i: first, first
    if kind == "float":
        f = I.real(name + ".fraction", 0.0 if not back else -1.0, 1.0)
        I.assume(n >= 1)
        i = K.round(f * (n - 1))
        first = K.ite(i < 0, i + n - 1, i)
        return f, 1, lambda i: first, first
    if kind == "all":
        return slice(None), n, lambda i: i, 0
    start = stop = None
    step = 1
    first, last = 0, n
    clip = lambda x: K.ite(x < 0, K.max(n + x, 0), K.min(x, n))     # noqa: E731
    frac = lambda f: K.ite(K.round(f * n) < 0, K.round(f * n) + n, K.round(f * n))   # noqa: E731
    if "a" in kind:
        start = I.int(name + ".start")
        first = clip(start)
    if "b" in kind:
        stop = I.int(name + ".stop")
        last = clip(stop)
    if "f" in kind:
        start = I.real(name + ".start", -1.0, 1.0)
        first = clip(frac(start))
    if "g" in kind:
        stop = I.real(name + ".stop", -1.0, 1.0)
        last = clip(frac(stop))
    if "s" in kind:
        step = I.int(name + ".step", 1)
    elif "2" in kind:
        step = 2
    count = K.max(0, (last - first + step - 1) // step)
    return slice(start, stop, step if "s" in kind or "2" in kind else None), count, lambda i: first + i * step, first


AXIS = ["int", "float", "all", "ab", "a", "b", "ab2", "fg"]


def shapes(c):
    kind, keys = c["kind"], c["keys"]
    return len(keys) <= (3 if kind == "spectrogram" else 2)


KEYS = [(k,) for k in AXIS] + [("all", k) for k in AXIS] + [("int", "ab"), ("ab", "a"), ("ab", "int"), ("b2", "ab2"), ("float", "fg"), ("fg", "float")] + \
       [("all", "all", k) for k in AXIS] + [("int", "float", "ab"), ("ab", "ab", "ab"), ("a", "int", "b"), ("fg", "float", "a2")]


@contract("C07", functions=["sumpf.Signal.__getitem__", "sumpf.Spectrum.__getitem__", "sumpf.Spectrogram.__getitem__",
                            "sumpf._internal.key_to_slices", "sumpf._internal.index"],
          choices={"kind": ["signal", "spectrum", "spectrogram"], "keys": KEYS, "tuple": [True, False]},
          where=lambda c: shapes(c) and (c["tuple"] or len(c["keys"]) == 1))
def getitem(I, K, S):
    a = container(I, I["kind"])
    keys, counts, maps, firsts = [], [], [], []
    shape = a.shape()
    for j, k in enumerate(I["keys"]):
        key, n, f, first = axis_key(I, K, k, "xyz"[j], shape[j])
        keys.append(key)
        counts.append(n)
        maps.append(f)
        firsts.append(first)
    for j in range(len(keys), len(shape)):
        counts.append(shape[j])
        maps.append(lambda i: i)
        firsts.append(0)
    ea = K.elem(a.channels())
    r = a[tuple(keys) if I["tuple"] else keys[0]]
    K.check("type", type(r) is type(a))
    if hasattr(a, "resolution"):
        K.eq("resolution", r.resolution(), a.resolution())
    if hasattr(a, "offset"):
        K.eq("sampling rate", r.sampling_rate(), a.sampling_rate())
        K.check("offset", K.implies(counts[-1] > 0, K.same(r.offset(), a.offset() + firsts[-1])))
    K.array("samples", r.channels(), counts, lambda *i: ea(*(m(q) for m, q in zip(maps, i))))
    K.labels("labels", r.labels(), counts[0], lambda i: K.item(a.labels(), maps[0](i)))
