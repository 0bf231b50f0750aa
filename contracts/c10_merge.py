"""C10: merging data sets"""
from pyvc.api import contract

FN = ["sumpf.Merge.output", "sumpf.Merge.__indices", "sumpf.Merge.__init__", "sumpf._internal.allocate_array", "sumpf._internal.sanitize_labels"]


def position(K, sizes, mode, d, i):
    """the channel index in the merged data set for channel i of data set d"""
    if mode == "FIRST_DATASET_FIRST":
        return sum(sizes[0:d]) + i
    return sum(K.min(n, i + 1 if e < d else i) if e != d else i for e, n in enumerate(sizes))


def make(I, kind, name, channels):
    kw = {"channels": channels} if channels is not None else {}
    return {"signal": I.signal, "spectrum": I.spectrum, "spectrogram": I.spectrogram}[kind](name, **kw)


def check_merged(K, S, r, data, mode, kind):
    """the merged data set contains every channel of every data set at the right place"""
    first = data[0]
    sizes = [K.len(d) for d in data]
    total = sum(sizes)
    K.check("type", type(r) is type(first))
    K.eq("number of channels", K.len(r), total)
    if kind != "signal":
        K.eq("resolution", r.resolution(), first.resolution())
    if kind != "spectrum":
        K.eq("sampling rate", r.sampling_rate(), first.sampling_rate())
        start = K.min(*(d.offset() for d in data))
        stop = K.max(*(d.offset() + d.length() for d in data))
        K.eq("offset", r.offset(), start)
        K.eq("length", r.length(), stop - start)
    else:
        start = 0
        K.eq("length", r.length(), K.max(*(d.length() for d in data)))
    if kind == "spectrogram":
        K.eq("frequencies", r.number_of_frequencies(), K.max(*(d.number_of_frequencies() for d in data)))
    er = K.elem(r.channels())
    for j, d in enumerate(data):
        ed = K.elem(d.channels())
        n, shift = d.length(), (d.offset() - start if kind != "spectrum" else 0)

        def elem(i, *t, d=d, ed=ed, n=n, shift=shift, j=j):
            p = position(K, sizes, mode, j, i)
            inside = K.and_(t[-1] >= shift, t[-1] - shift < n)
            if kind == "spectrogram":
                inside = K.and_(inside, t[0] < d.number_of_frequencies())
            return er(p, *t), K.ite(inside, lambda: ed(i, *t[:-1], t[-1] - shift), 0.0)
        K.forall(f"channels of input {j}", (sizes[j],) + tuple(r.shape()[1:]), elem)
        K.forall(f"labels of input {j}", (sizes[j],), lambda i, d=d, j=j: (K.item(r.labels(), position(K, sizes, mode, j, i)), K.item(d.labels(), i)))


@contract("C10", functions=FN, choices={"kind": ["signal", "spectrum", "spectrogram"], "count": [1, 2, 3]})
def merge_datasets_first(I, K, S):
    """for any numbers of channels"""
    mode = "FIRST_DATASET_FIRST"
    data = [make(I, I["kind"], "abcd"[j], None) for j in range(I["count"])]
    r = S.Merge(data, getattr(S.Merge.modes, mode)).output()
    if I["count"] == 1:
        K.check("same object", r is data[0])
    check_merged(K, S, r, data, mode, I["kind"])


@contract("C10", functions=FN, choices={"kind": ["signal", "spectrum", "spectrogram"], "count": [1, 2, 3]}, weight=3)
def merge_channels_first(I, K, S):
    """for any numbers of channels"""
    mode = "FIRST_CHANNELS_FIRST"
    data = [make(I, I["kind"], "abcd"[j], None) for j in range(I["count"])]
    sizes = [K.len(d) for d in data]
    for j in range(I["count"]):
        I.invariant(lambda k, j=j: position(K, sizes, mode, j, k))
    r = S.Merge(data, getattr(S.Merge.modes, mode)).output()
    check_merged(K, S, r, data, mode, I["kind"])


@contract("C10", functions=FN, choices={"mode": ["FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"], "kind": ["signal", "spectrogram"]}, tier="thorough")
def merge_four(I, K, S):
    mode = I["mode"]
    data = [make(I, I["kind"], "abcd"[j], None) for j in range(4)]
    sizes = [K.len(d) for d in data]
    if mode == "FIRST_CHANNELS_FIRST":
        for j in range(4):
            I.invariant(lambda k, j=j: position(K, sizes, mode, j, k))
    r = S.Merge(data, getattr(S.Merge.modes, mode)).output()
    check_merged(K, S, r, data, mode, I["kind"])


@contract("C10", functions=FN, choices={"mode": ["FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"],
                                        "sizes": [[2], [1, 2], [2, 1], [3, 1, 2], [1, 3, 2], [2, 2, 2], [0, 2, 1], [1, 0, 2]]},
          notes="bounded in the numbers of channels; the transfer functions and labels are arbitrary")
def merge_filters(I, K, S):
    """the transfer functions are arbitrary objects"""
    sizes, mode = I["sizes"], I["mode"]
    tfs = [[S.Filter.Constant(float(10 * d + i)) for i in range(n)] for d, n in enumerate(sizes)]
    labels = [[I.label(f"label{d}.{i}") for i in range(n)] for d, n in enumerate(sizes)]
    data = [S.Filter(transfer_functions=t, labels=l) for t, l in zip(tfs, labels)]
    r = S.Merge(data, getattr(S.Merge.modes, mode)).output()
    K.check("type", type(r) is S.Filter)
    K.eq("number of channels", len(r.transfer_functions()), sum(sizes))
    K.labels("labels", r.labels(), sum(sizes), lambda i: K.item([labels[d][c] for p in range(sum(sizes)) for d in range(len(sizes)) for c in range(sizes[d]) if position(K, sizes, mode, d, c) == p], i))
    for d, n in enumerate(sizes):
        for i in range(n):
            K.check(f"transfer function {d}.{i}", r.transfer_functions()[position(K, sizes, mode, d, i)] is tfs[d][i])


SCRIPTS = ["aa-0", "aa-1a", "a=0", "aa=1a", "aaa=1-0", "aa-0-1a", "am", "aama-0m"]


@contract("C10", functions=FN + ["sumpf.Merge.add", "sumpf.Merge.remove", "sumpf.Merge.replace", "sumpf.Merge.set_mode"], choices={"script": SCRIPTS, "peek": [False, True]},
          notes="for the listed histories and arbitrary data")
def history(I, K, S):
    """adding, removing and replacing data sets is the same as merging the resulting sequence of data sets"""
    modes = ["FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"]
    mode = 0
    m = S.Merge()
    model, ids, n = [], [], 0
    script = I["script"]
    p = 0
    while p < len(script):
        c = script[p]
        p += 1
        if c == "m":
            mode = 1 - mode
            m.set_mode(getattr(S.Merge.modes, modes[mode]))
        elif c == "a":
            d = I.signal(f"d{n}", channels=1 + n % 2)
            n += 1
            ids.append(m.add(d))
            model.append((ids[-1], d))
        else:
            k = ids[int(script[p])]
            p += 1
            if c == "-":
                K.check("remove returns the merger", m.remove(k) is m)
                model = [e for e in model if e[0] != k]
            else:
                d = I.signal(f"d{n}", channels=1 + n % 2)
                n += 1
                K.check("replace returns the id", m.replace(k, d) == k)
                model = [(i, d if i == k else q) for i, q in model]
        if I["peek"] and model:
            m.output()
    if not model:
        K.raises("nothing to merge", RuntimeError, m.output)
        return
    data = [d for _, d in model]
    r = m.output()
    if len(data) == 1:
        K.check("same object", r is data[0])
    check_merged(K, S, r, data, modes[mode], "signal")
