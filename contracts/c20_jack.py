"""C20: playback and recording with the audio server (which is represented by a stand-in)"""
from pyvc import fakejack
from pyvc.api import contract

FN = ["sumpf._blocks._jack.on_process", "sumpf.Jack.start", "sumpf.Jack.output", "sumpf.Jack.input", "sumpf.Jack.__init__"]


def cycle(I, K, server, name, count, ins, record, position, x, n, active=True):
    """one cycle of the server with an arbitrary number of frames; returns that number"""
    f = I.int(f"{name}.frames", 1)
    captured = [I.array(f"{name}.captured{p}", (f,)) for p in range(ins)]
    played = [I.scratch(f"{name}.played{c}", (f,)) for c in range(count)]
    running = server.cycle(f, captured, played)
    if record is not None:
        record.append((position, f, captured))
    K.check(f"{name}: the callback is active", running is not None or not active)
    if running is not None:
        for c in range(count):
            K.array(f"{name}: output {c}", played[c], (f,), lambda i, c=c: K.ite(position + i < n, lambda: x(c, position + i), 0.0) if active else 0.0)
    return f, running


def recorded(K, blocks, p, i):
    """the sample with the index i, that has been captured from port p"""
    start, frames, captured = blocks[0]
    e = K.elem(captured[p])
    if len(blocks) == 1:
        return e(i - start)
    return K.ite(i < start + frames, lambda: e(i - start), lambda: recorded(K, blocks[1:], p, i))


def run(I, K, S, jack, server, name, blocks, signal, ins, auto):
    """playing back a signal in a number of blocks"""
    count, n = signal.shape()
    x = K.elem(signal.channels())
    K.check("start returns the instance", jack.start() is jack)
    position, record = 0, []
    for b in range(blocks):
        if b:
            I.assume(position < n)
        f, running = cycle(I, K, server, f"{name}{b}", count, ins, record, position, x, n)
        position = position + f
        if b < blocks - 1:
            I.assume(position < n)
            K.check("not finished before the last sample", running is True)
    I.assume(position >= n)
    for b in range(2):
        if running:
            _, running = cycle(I, K, server, f"{name}.after{b}", count, ins, None, position, x, n, active=False)
    if auto:
        K.check("the processing is ended", not running)
    e, r = K.catch(jack.output)
    K.check("finished", e is None)
    K.eq("shape", r.shape(), (ins, n))
    K.eq("sampling rate", r.sampling_rate(), server.samplerate)
    K.eq("offset", r.offset(), signal.offset())
    K.labels("labels", r.labels(), ins, lambda i: K.item(["in 0", "in 1", "in 2"][0:ins], i))
    expected = lambda p, i: recorded(K, record, p, i)       # noqa: E731
    er = K.elem(r.channels())
    for p in range(ins):
        K.forall(f"recorded channel {p}", (n,), lambda i, p=p: (er(p, i), expected(p, i)))
    return r, er, expected


def make(I, S, name, count):
    n = I.int(f"{name}.length", 0)
    return S.Signal(channels=I.array(name, (count, n)), sampling_rate=I.real(f"{name}.sampling_rate", positive=True), offset=I.int(f"{name}.offset"),
                    labels=tuple(f"{name} {i}" for i in range(count)))


@contract("C20", functions=FN, choices={"outputs": [0, 1, 2], "inputs": [0, 1, 2], "blocks": [1, 2, 3], "auto": [False, True]})
def playback(I, K, S):
    """every sample is played back once and every captured sample is recorded at the point in time, at which it has been captured"""
    with fakejack.server(samplerate=48000 if I["auto"] else I.real("samplerate", positive=True)) as server:
        signal = make(I, S, "signal", I["outputs"])
        jack = S.Jack("test", auto_deactivate=I["auto"])
        for i in range(I["inputs"]):
            jack.add_input_port(f"in {i}")
        jack.input(signal)
        if not I["auto"]:
            cycle(I, K, server, "before", I["outputs"], I["inputs"], None, 0, None, 0, active=False)
        run(I, K, S, jack, server, "block", I["blocks"], signal, I["inputs"], I["auto"])


@contract("C20", functions=FN, choices={"blocks": [[1, 1], [1, 2], [2, 1]], "auto": [False, True], "change": [False, True]})
def repetition(I, K, S):
    """a second recording does not depend on the first one and leaves the result of the first one as it is"""
    with fakejack.server() as server:
        signal = make(I, S, "first", 1)
        jack = S.Jack("test", signal, ("in 0",), auto_deactivate=I["auto"])
        r1, _, x1 = run(I, K, S, jack, server, "a", I["blocks"][0], signal, 1, I["auto"])
        n = r1.length()
        if I["change"]:
            signal = make(I, S, "second", 2)
            jack.input(signal)
        r2, _, _ = run(I, K, S, jack, server, "b", I["blocks"][1], signal, 1, I["auto"])
        K.check("another result", r1 is not r2)
        K.eq("length", r1.length(), n)
        e1 = K.elem(r1.channels())      # as they are now
        K.forall("first recording", (n,), lambda i: (e1(0, i), x1(0, i)))


@contract("C20", functions=["sumpf._blocks._jack.on_xrun", "sumpf.Jack.xruns"], choices={"count": [1, 2]}, mode="R")
def xruns(I, K, S):
    """interruptions are counted and reported with the samples, that are concerned, and the duration in seconds"""
    b = I.int("blocksize", 1)
    with fakejack.server(blocksize=b) as server:
        signal = make(I, S, "signal", 1)
        jack = S.Jack("test", signal, ("in 0",), auto_deactivate=False)
        K.eq("initially", jack.xruns(), (0, None))
        jack.start()
        position = 0
        for k in range(I["count"]):
            I.assume(position + b <= signal.length())
            server.cycle(b, [I.array(f"captured{k}", (b,))], [I.scratch(f"played{k}", (b,))])
            position = position + b
            d = I.real(f"delay{k}", positive=True)
            server.client.callbacks["xrun"](d)
            number, x = jack.xruns()
            K.eq("number", number, k + 1)
            K.eq("start", x.start, position)
            K.eq("stop", x.stop, position + b)
            K.check("delay", K.abs(x.delay * 1000000 - d) <= d / 1000000000)
