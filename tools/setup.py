"""checks that the interpreters and solvers, which the checks need, are available"""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, z3, cvc5     # noqa: E401,F401
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "scipy", scipy.__version__)
