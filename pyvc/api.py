"""The registry of contracts.

A contract is a function ``contract(I, K, S)``: it obtains inputs from ``I`` (which
states the precondition), calls functions of the package ``S`` and states the
postcondition with the kit ``K``.  The same text is used twice:

* symbolically, on the instrumented real code, for all inputs (verification conditions),
* concretely, on the unmodified real code (replay of models, run-time contract checks).
"""
import itertools

REGISTRY = []


class Contract:
    def __init__(self, fn, prop, name, functions, choices, where, tier, mode, random_only, weight, notes, fixed_runs):
        self.fn, self.prop, self.name, self.functions = fn, prop, name, list(functions)
        self.choices, self.where, self.tier, self.mode = dict(choices or {}), where, tier, mode
        self.random_only = random_only
        self.weight = weight
        self.notes = notes
        self.fixed_runs = fixed_runs

    @property
    def id(self):
        return f"{self.prop}.{self.name}"

    def combinations(self):
        keys = list(self.choices)
        for values in itertools.product(*(self.choices[k] for k in keys)):
            c = dict(zip(keys, values))
            if self.where is None or self.where(c):
                yield c


def contract(prop, name=None, functions=(), choices=None, where=None, tier="quick", mode="V", random_only=False, weight=1, notes="", fixed_runs=0):
    """
    :param prop: the id of the property, to which the contract belongs
    :param functions: the functions of /repo, that are under contract
    :param choices: a dictionary of finite case distinctions (every combination is a separate proof job)
    :param random_only: True, if the function is outside of the verifier's reach (bounded run-time check only)
    """
    def deco(fn):
        props = [prop] if isinstance(prop, str) else prop
        for p in props:
            REGISTRY.append(Contract(fn, p, name or fn.__name__, functions, choices, where, tier, mode, random_only, weight, notes, fixed_runs))
        return fn
    return deco


def contracts_of(prop):
    return [c for c in REGISTRY if c.prop == prop]


def find(cid):
    for c in REGISTRY:
        if c.id == cid:
            return c
    raise KeyError(cid)
