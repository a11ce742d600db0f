"""Registry of contracts.  Contract functions take a backend B and are run by the
symbolic backend (python3-vt) and by the numeric one (the interpreter that runs mud)."""
import importlib
import os
import sys

REG = []
META = {}     # property -> {level, lean, trusted, assumptions, explanation}


class Contract:
    def __init__(self, fn, prop, name, funcs, bounded, trials, weight):
        self.fn, self.prop, self.name, self.funcs = fn, prop, name, funcs
        self.bounded, self.trials, self.weight = bounded, trials, weight
        self.doc = (fn.__doc__ or "").strip()
        self.symbolic = True
        self.numeric = True


def contract(prop, name=None, funcs=(), bounded=None, trials=None, weight=1, symbolic=True, numeric=True):
    def d(fn):
        c = Contract(fn, prop, name or fn.__name__, list(funcs), bounded, trials, weight)
        c.symbolic, c.numeric = symbolic, numeric
        REG.append(c)
        return c
    return d


def load(prop):
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    if here not in sys.path:
        sys.path.insert(0, here)
    mods = sorted(f[:-3] for f in os.listdir(here) if f.startswith("c_") and f.endswith(".py"))
    for m in mods:
        # a file states the properties it serves on its first line:  # props: P01 P02
        with open(os.path.join(here, m + ".py")) as f:
            first = f.readline()
        if prop is None or prop in first.split():
            importlib.import_module(m)
    cs = [c for c in REG if prop is None or c.prop == prop]
    if "rehearsed" in META.get(prop, {}):
        # the contracts of the other properties, after an earlier run of the same scenario with other arrays
        load(None)
        heavy = META[prop]["rehearsed"]
        cs = [c for c in REG if c.prop == prop] + [rehearsed(c, prop, c.name in heavy) for c in REG
                                                    if c.prop not in (prop, "P25") and not getattr(c, "custom", None)]
    return cs


def rehearsed(c, prop, numeric_only):
    def fn(B):
        B.rehearse(c.fn)
        c.fn(B)
    r = Contract(fn, prop, f"again:{c.prop}.{c.name}", c.funcs, c.bounded, c.trials, c.weight)
    r.symbolic, r.numeric, r.base = c.symbolic and not numeric_only, c.numeric, c
    return r


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return f"raise {type(self.exc).__name__}({self.exc})" if self.exc is not None else f"return {self.value!r}"
