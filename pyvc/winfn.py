"""The window functions of NumPy and SciPy by name"""
import numpy


def real_function(name):
    module, f = name.split(".")
    if module == "numpy":
        return getattr(numpy, f)
    import scipy.signal
    return getattr(scipy.signal.windows, f)
