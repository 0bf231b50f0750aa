"""C11: concatenating data sets"""
from pyvc.api import contract

FN = ["sumpf.Concatenate.output", "sumpf.Concatenate.__init__", "sumpf._internal.allocate_array"]


def check_concatenated(K, S, r, data, kind):
    first = data[0]
    starts, p = [], 0
    for d in data:
        starts.append(p + d.offset())
        p = starts[-1] + d.length()
    stops = [s + d.length() for s, d in zip(starts, data)]
    offset = K.min(*starts)
    K.check("type", type(r) is type(first))
    K.eq("sampling rate", r.sampling_rate(), first.sampling_rate())
    K.eq("offset", r.offset(), offset)
    K.eq("length", r.length(), K.max(*stops) - offset)
    channels = K.max(*(K.len(d) for d in data))
    shape = [channels]
    if kind == "spectrogram":
        K.eq("resolution", r.resolution(), first.resolution())
        shape.append(K.max(*(d.number_of_frequencies() for d in data)))
    shape.append(r.length())
    elems = [K.elem(d.channels()) for d in data]

    def value(*i):
        v = 0.0
        t = i[-1] + offset
        for d, e, s in zip(data, elems, starts):
            inside = K.and_(t >= s, t - s < d.length(), *(x < n for x, n in zip(i, d.shape()[:-1])))
            v = v + K.ite(inside, lambda: e(*i[:-1], t - s), 0.0)
        return v
    K.array("samples", r.channels(), shape, value)
    K.eq("number of labels", K.len(r.labels()), channels)


def make(I, kind, name, **kw):
    return (I.signal if kind == "signal" else I.spectrogram)(name, **kw)


@contract("C11", functions=FN, choices={"kind": ["signal", "spectrogram"]}, mode="R", weight=2)
def concatenate_two(I, K, S):
    """for any shapes and offsets"""
    data = [make(I, I["kind"], n) for n in "ab"]
    check_concatenated(K, S, S.Concatenate(data).output(), data, I["kind"])


@contract("C11", functions=FN, choices={"dtypes": [["float64", "complex128"], ["complex128", "float64"]]}, mode="R", weight=2)
def concatenate_data_types(I, K, S):
    """real and complex valued spectrograms"""
    data = [I.spectrogram(n, dtype=t, channels=1, frequencies=2) for n, t in zip("ab", I["dtypes"])]
    check_concatenated(K, S, S.Concatenate(data).output(), data, "spectrogram")


@contract("C11", functions=FN, choices={"dtypes": [["float32", "float32"], ["int64", "float64"], ["int16", "int32"]]}, random_only=True)
def concatenate_narrow_types(I, K, S):
    """other data types of the samples (bounded: run-time checks)"""
    data = [S.Signal(channels=(10 * I.array(n, (1 + j, I.int(f"n{j}", 1)), "float64")).astype(t), offset=I.int(f"o{j}")) for j, (n, t) in enumerate(zip("ab", I["dtypes"]))]
    check_concatenated(K, S, S.Concatenate(data).output(), data, "signal")


def positions(data):
    starts, p = [], 0
    for d in data:
        starts.append(p + d.offset())
        p = starts[-1] + d.length()
    return starts


@contract("C11", functions=FN, choices={"kind": ["signal"], "order": [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]}, mode="R", weight=4)
def concatenate_three(I, K, S):
    """for any shapes and offsets; the case distinction about the order of the positions is complete"""
    data = [make(I, I["kind"], n) for n in "abc"]
    s, (i, j, k) = positions(data), I["order"]
    I.assume(s[i] <= s[j])
    I.assume(s[j] <= s[k])
    check_concatenated(K, S, S.Concatenate(data).output(), data, I["kind"])


@contract("C11", functions=FN, choices={"kind": ["spectrogram"], "order": [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]}, mode="R", tier="thorough")
def concatenate_three_spectrograms(I, K, S):
    """for any shapes and offsets; the case distinction about the order of the positions is complete"""
    data = [make(I, I["kind"], n) for n in "abc"]
    s, (i, j, k) = positions(data), I["order"]
    I.assume(s[i] <= s[j])
    I.assume(s[j] <= s[k])
    check_concatenated(K, S, S.Concatenate(data).output(), data, I["kind"])


@contract("C11", functions=FN, random_only=True, choices={"kind": ["signal", "spectrogram"], "count": [1, 4, 5, 6]})
def concatenate_many(I, K, S):
    """more inputs (bounded: run-time checks)"""
    data = [make(I, I["kind"], "abcdef"[j], channels=I.int(f"c{j}", 0, 4)) for j in range(I["count"])]
    check_concatenated(K, S, S.Concatenate(data).output(), data, I["kind"])


SCRIPTS = ["aa-0", "aa-1a", "a=0", "aa=1a", "aa=0", "aa-0-1a"]


@contract("C11", functions=FN + ["sumpf.Concatenate.add", "sumpf.Concatenate.remove", "sumpf.Concatenate.replace"], mode="R", choices={"script": SCRIPTS, "peek": [False, True]},
          where=lambda c: not c["peek"] or c["script"].count("a") == 2, notes="for the listed histories and arbitrary data")
def history(I, K, S):
    """adding, removing and replacing data sets is the same as concatenating the resulting sequence of data sets"""
    m = S.Concatenate()
    model, ids, n = [], [], 0
    script = I["script"]
    p = 0
    while p < len(script):
        c = script[p]
        p += 1
        if c == "a":
            d = I.signal(f"d{n}", channels=1 + n % 2)
            n += 1
            ids.append(m.add(d))
            model.append((ids[-1], d))
        else:
            k = ids[int(script[p])]
            p += 1
            if c == "-":
                K.check("remove returns the concatenator", m.remove(k) is m)
                model = [e for e in model if e[0] != k]
            else:
                d = I.signal(f"d{n}", channels=1 + n % 2)
                n += 1
                K.check("replace returns the id", m.replace(k, d) == k)
                model = [(i, d if i == k else q) for i, q in model]
        if I["peek"] and model:
            m.output()
    data = [d for _, d in model]
    r = m.output()
    if len(data) == 1:
        K.check("same object", r is data[0])
    else:
        check_concatenated(K, S, r, data, "signal")
