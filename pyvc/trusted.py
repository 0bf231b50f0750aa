"""What the proofs rely on without proving it."""

BASE = [
    "the VC generator /verif/pyvc (symbolic execution of the real source; loop, comprehension and sum rules)",
    "z3 5.3.2; cvc5 1.4.2 for obligations, that z3 leaves open",
    "the contracts of NumPy and of Python's built-ins in /verif/pyvc (npshim.py, arrays.py, seqs.py); every explored path is cross-checked with a concrete run on the real NumPy",
    "CPython executes the instrumented source like the original source, apart from the dispatch of loops, comprehensions and built-ins",
]

COMMON = [
    "sampling rates, resolutions and similar parameters are mathematical reals, not IEEE floats",
    "operations on samples are uninterpreted functions, that obey x+0=x, x-0=x, x*1=x, x/1=x, 0-x=-x and commutativity of + and *; NaN and the sign of zero are not distinguished",
    "multiprocessing.sharedctypes.RawArray returns a zero-filled block of memory of the requested number of bytes; numpy.frombuffer gives a view on it",
]

EXTRA = {"C18": ["json, pickle and numpy restore what they encoded; a file of one format cannot be decoded as another (stand-in pyvc/fakefiles.py)",
                 "NumPy drops trailing NUL characters of labels, such labels are excluded for NumPy's files; data sets without channels (JSON) and spectrograms without frequency bins (JSON) are excluded",
                 "tables need at least one channel and sample; parameters are compared from two samples on, with a tolerance of 1e-7"]}


def assumptions(prop):
    return COMMON + EXTRA.get(prop, [])
