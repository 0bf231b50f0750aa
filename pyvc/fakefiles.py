"""A stand-in for the file system and for the modules, that encode files (a trusted contract).

* a file holds the data, that has been written to it last, until it is overwritten;
* what has been encoded by json, pickle, numpy.save or numpy.savez_compressed is restored by the corresponding function for decoding,
  as far as the format can represent it: JSON files hold dictionaries, lists (also for tuples), strings, real numbers, booleans and
  None; NumPy's files hold arrays (scalars become zero-dimensional arrays); pickle stores everything, but nested functions;
* the attempt to decode a file as another format raises an error.

Only files below the folder PREFIX are simulated."""
import copyreg      # noqa: F401
import enum
import importlib
import json as _json
import pickle as _pickle
import types
from . import core, seqs, arrays
from .core import Unsupported, zint

PREFIX = "/vc-scratch/"
FILES = {}


def clear():
    FILES.clear()


def simulated(path):
    return str(path).startswith(PREFIX) if not isinstance(path, int) else False


class FakeFile:
    """an opened file"""

    def __init__(self, path, mode):
        self.path, self.mode, self.closed = str(path), mode, False
        if "w" in mode:
            FILES[self.path] = ("empty", None)
        elif self.path not in FILES:
            raise FileNotFoundError(f"[Errno 2] No such file or directory: '{path}'")
        elif mode not in ("r", "rb", "rt"):
            raise Unsupported(f"opening a file in the mode {mode}")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def store(self, kind, content, binary):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "w" not in self.mode:
            raise OSError("not writable")
        if binary != ("b" in self.mode):
            raise TypeError("the mode of the file does not match the type of the data")
        if FILES[self.path][0] != "empty":
            raise Unsupported("writing twice to the same file")
        FILES[self.path] = (kind, content)

    def fetch(self, kind, error):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "r" not in self.mode:
            raise OSError("not readable")
        k, content = FILES[self.path]
        if k != kind:
            raise error(f"this is not a {kind} file")
        return content

    def write(self, text):
        raise Unsupported("writing text to a file")

    def read(self, *a):
        raise ValueError("reading the file as text")

    def __iter__(self):
        raise ValueError("reading the file as text")

    __next__ = readline = readlines = read


def v_open(path, mode="r", *args, **kwargs):
    if simulated(path):
        return FakeFile(path, mode)
    return open(path, mode, *args, **kwargs)


# ------------------------------------------------------------------ JSON

def encode(x, default, depth=0):
    if depth > 40:
        raise Unsupported("deeply nested JSON")
    if x is None or isinstance(x, (bool, int, float, str, core.SBool, core.SInt, core.SReal, core.SLabel)) and not isinstance(x, enum.Enum):
        return x
    if isinstance(x, core.SVal):
        return x        # an arbitrary real number
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if not isinstance(k, str):
                raise Unsupported("JSON objects with other keys than strings")
            out[k] = encode(v, default, depth + 1)
        return out
    if isinstance(x, (list, tuple)):
        return [encode(i, default, depth + 1) for i in x]
    if isinstance(x, seqs.MList):
        x = x.vc_seq()
    if isinstance(x, seqs.Seq) and x.kind in ("tuple", "list"):
        n, get = x.length, x.get
        if not isinstance(n, int):
            # an element, that cannot be encoded, makes the encoding fail
            if core.E.decide(zint(n) > 0):
                encode(get(core.E.freshint("e")), default, depth + 1)
        return seqs.Seq(n, lambda i: encode(get(i), default, depth + 1), "list")
    if default is not None:
        return encode(default(x), default, depth + 1)
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def fresh(x):
    """decoding creates new objects"""
    if isinstance(x, dict):
        return {k: fresh(v) for k, v in x.items()}
    if isinstance(x, list):
        return [fresh(i) for i in x]
    if isinstance(x, seqs.Seq):
        return seqs.Seq(x.length, lambda i: fresh(x.get(i)), "list")
    return x


class JsonShim:
    JSONDecodeError = _json.JSONDecodeError

    def dump(self, obj, fp, *, default=None, indent=None, separators=None, sort_keys=False, ensure_ascii=True, **kw):
        if not isinstance(fp, FakeFile):
            return _json.dump(obj, fp, default=default, indent=indent, separators=separators, sort_keys=sort_keys, ensure_ascii=ensure_ascii, **kw)
        if kw:
            raise Unsupported(f"json.dump with the parameters {list(kw)}")
        return fp.store("JSON", encode(obj, default), False)

    def load(self, fp, **kw):
        if not isinstance(fp, FakeFile):
            return _json.load(fp, **kw)
        if kw:
            raise Unsupported(f"json.load with the parameters {list(kw)}")
        return fresh(fp.fetch("JSON", ValueError))

    def __getattr__(self, n):
        return getattr(_json, n)


# ------------------------------------------------------------------ pickle

def transfer(x, memo, depth=0):
    """a copy of an object, like it is made by storing and loading it with pickle"""
    if depth > 60:
        raise Unsupported("deeply nested objects")
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, core.Sym)) and not isinstance(x, enum.Enum):
        return x
    if isinstance(x, (enum.Enum, type, types.FunctionType, types.BuiltinFunctionType)):
        if not isinstance(x, enum.Enum):
            found = importlib.import_module(x.__module__) if x.__module__ else None
            for part in x.__qualname__.split("."):
                found = getattr(found, part, None)
            if found is not x:
                raise AttributeError(f"Can't pickle {x}")
        return x
    if id(x) in memo:
        return memo[id(x)][1]

    def sub(y):
        return transfer(y, memo, depth + 1)
    if isinstance(x, arrays.SymArr):
        r = arrays.fresh_array(x.shape, x.snapshot(), x.dtype, name="loaded")
    elif type(x) in (tuple, list):
        r = type(x)([sub(i) for i in x])
    elif type(x) is dict:
        r = {sub(k): sub(v) for k, v in x.items()}
    elif isinstance(x, seqs.MList):
        return sub(x.vc_seq())
    elif isinstance(x, seqs.Seq):
        get = x.get
        r = seqs.Seq(x.length, lambda i: transfer(get(i), {}, depth + 1), x.kind)
    elif type(x).__module__.split(".")[0] == "sumpf":
        sub(type(x))
        how = x.__reduce_ex__(4)
        if not isinstance(how, tuple):
            raise Unsupported("pickle")
        function, args, state, items, pairs = tuple(how) + (None,) * (5 - len(how))
        if items is not None or pairs is not None:
            raise Unsupported("pickle")
        r = function(*[sub(a) for a in args])
        memo[id(x)] = (x, r)
        if state is not None:
            state = sub(state)
            if hasattr(r, "__setstate__"):
                r.__setstate__(state)
            elif isinstance(state, tuple):
                for s in state:
                    for k, v in (s or {}).items():
                        setattr(r, k, v)
            else:
                r.__dict__.update(state)
    else:
        raise Unsupported(f"pickling {type(x).__name__}")
    memo[id(x)] = (x, r)
    return r


class PickleShim:
    def dump(self, obj, file, protocol=None, **kw):
        if not isinstance(file, FakeFile):
            return _pickle.dump(obj, file, protocol, **kw)
        return file.store("pickle", transfer(obj, {}), True)

    def load(self, file, **kw):
        if not isinstance(file, FakeFile):
            return _pickle.load(file, **kw)
        if "b" not in file.mode:
            raise TypeError("a bytes-like object is required, not 'str'")
        return transfer(file.fetch("pickle", _pickle.UnpicklingError), {})

    def __getattr__(self, n):
        return getattr(_pickle, n)


# ------------------------------------------------------------------ NumPy

class Texts(seqs.Seq):
    """a one-dimensional array of strings"""

    def __init__(self, length, get):
        super().__init__(length, get, "array")

    @property
    def shape(self):
        return (self.length,)

    ndim = 1

    def tolist(self):
        return seqs.Seq(self.length, self.get, "list")


def stored(x):
    """the array, as which a value is stored; returns a function, that creates it anew"""
    if isinstance(x, (seqs.Seq, tuple, list, seqs.MList)):
        s = seqs.as_seq(x)
        if isinstance(s.length, int) and s.length == 0:
            return lambda: arrays.fresh_array((0,), lambda b: 0.0, arrays.F8)
        probe = s.get(0 if isinstance(s.length, int) else core.E.freshint("e"))
        if isinstance(probe, (str, core.SLabel)):
            return lambda: Texts(s.length, s.get)
    a = arrays.as_array(x)
    if a.dtype.kind == "O":
        raise Unsupported("storing an array of objects")
    shape, snap, dtype = a.shape, a.snapshot(), a.dtype
    return lambda: arrays.fresh_array(shape, snap, dtype, name="loaded")


def save(file, arr, allow_pickle=True, **kw):
    if not isinstance(file, FakeFile):
        raise Unsupported("numpy.save")
    file.store("npy", stored(arr), True)


def savez(file, *args, **kwds):
    if not isinstance(file, FakeFile) or args:
        raise Unsupported("numpy.savez")
    file.store("npz", {k: stored(v) for k, v in kwds.items()}, True)


class NpzFile:
    def __init__(self, content):
        self.content, self.closed = content, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    @property
    def files(self):
        return list(self.content)

    def keys(self):
        return self.content.keys()

    def __iter__(self):
        return iter(self.content)

    def __len__(self):
        return len(self.content)

    def __contains__(self, k):
        return k in self.content

    def __getitem__(self, k):
        if self.closed:
            raise ValueError("the file is closed")
        if k not in self.content:
            raise KeyError(f"{k} is not a file in the archive")
        return self.content[k]()

    def get(self, k, default=None):
        return self[k] if k in self.content else default

    def values(self):
        return [self[k] for k in self.content]

    def items(self):
        return [(k, self[k]) for k in self.content]


def load(file, *args, **kw):
    if not isinstance(file, FakeFile):
        if not simulated(file):
            import numpy
            return numpy.load(file, *args, **kw)
        file = FakeFile(file, "rb")
    if args or kw:
        raise Unsupported(f"numpy.load with the parameters {list(args) + list(kw)}")
    kind, content = FILES[file.path]
    if kind == "npz":
        return NpzFile(content)
    if kind == "npy":
        return content()
    raise ValueError("this file contains pickled (object) data or something else")
